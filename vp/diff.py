"""Builds and runs the differential engine for some validator families."""
from common import *
import vtypes as vt

EXTRA = {"signed_integer": "signed", "unsigned_integer": "unsigned", "bit": "sizes", "byte": "sizes", "number": "floats",
         "boolean": "boolean", "json": "json"}


def crate(name, ts, opt=1):
    kinds = list(dict.fromkeys(t.kind for t in ts))
    feats = ["derive", "std", "serde"] + kinds
    rs = os.path.join(VERIF, "vp", "rust")
    files = {f"src/{f}.rs": open(os.path.join(rs, f + ".rs")).read() for f in ("core", "oracle", "gens", "extra")}
    impls, ents, extras = [], [], []
    for t in ts:
        impls.append(f"impl core::V for {t.name} {{ fn render(&self) -> String {{ {t.render} }} fn text(&self) -> Option<String> {{ {t.text} }} }}\n")
        b = f"Some(core::eval_bytes::<{t.name}>)" if "bytes" in t.traits else "None"
        a = json.dumps(t.attr)
        ents.append(f"core::Entry {{ name: \"{t.name}\", attr: {a}, kind: \"{t.kind}\", cfg: &{t.cfg}, f: core::eval_str::<{t.name}>, b: {b} }},\n")
        if t.kind in EXTRA:
            extras.append(f"(\"{t.name}\", {a}, \"{t.kind}\", extra::{EXTRA[t.kind]}::<{t.name}> as fn(&mut extra::Ctx)),\n")
    lib = vt.lib_source(ts)
    lib += "\npub mod core; pub mod oracle; pub mod gens; pub mod extra;\n" + "".join(impls)
    lib += "pub fn entries() -> Vec<core::Entry> { vec![\n" + "".join(ents) + "] }\n"
    lib += "pub fn extras() -> Vec<(&'static str, &'static str, &'static str, fn(&mut extra::Ctx))> { vec![\n" + "".join(extras) + "] }\n"
    lib += "use core::hex;\n"
    cargo_f = []
    if any(k in kinds for k in ("bit", "byte")): cargo_f.append("bitbyte")
    if any(k in kinds for k in ("http_url", "http_ftp_url", "url")): cargo_f.append("weburl")
    if any(k in kinds for k in ("semver", "semver_req")) : cargo_f.append("semvers")
    if "phone" in kinds: cargo_f.append("phones")
    if "json" in kinds: cargo_f.append("jsons")
    if any(k in kinds for k in ("host", "domain", "email")): cargo_f.append("idn")
    files["src/main.rs"] = f"fn main() {{ {name.replace('-', '_')}::core::main_with({name.replace('-', '_')}::entries()) }}\n"
    alls = ["bitbyte", "weburl", "semvers", "phones", "jsons", "idn"]
    tail = "[features]\ndefault = [%s]\n%s\n" % (", ".join(f'"{f}"' for f in cargo_f), "\n".join(f"{f} = []" for f in alls))
    return make_crate(name, feats, lib, files, deps='serde = "1"\nserde_json = "1"\n',
                      toml_extra=f"opt-level = {opt}\n[profile.dev.package.validators-derive]\nopt-level = 0\n[profile.dev.build-override]\nopt-level = 0\n" + tail)


def build(d, name, timeout=600):
    rc, out, err, dt = run(["cargo", "build", "--offline", "--bin", name.replace("-", "_")], cwd=d, timeout=timeout)
    return rc, err, dt, os.path.join(d, "target", "debug", name.replace("-", "_"))
