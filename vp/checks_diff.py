"""Bounded stand-ins: the real entry points against each other and against an independent specification.

Never counted as proof. They also give the concrete inputs for obligations that fail in the deductive checks."""
from common import *
import concurrent.futures as cf
import diff, re
import vtypes as vt

GROUPS = {
    "basen": ["base32", "base64", "base64_url", "base32_decoded", "base64_decoded", "base64_url_decoded"],
    "text": ["text", "line"],
    "macuuid": ["mac_address", "uuid"],
    "ip": ["ip", "ipv4", "ipv6", "host"],
    "domain": ["domain"],
    "email": ["email"],
    "web": ["http_url", "http_ftp_url", "url", "semver", "semver_req", "regex", "boolean", "json"],
    "phone": ["phone"],
    "num": ["signed_integer", "unsigned_integer", "number", "bit", "byte"],
}
ALL = [k for g in GROUPS.values() for k in g]
PROPS = {
    "C01": (ALL, {"entry"}), "C02": (ALL, {"panic"}), "C03": (["signed_integer", "unsigned_integer"], {"oracle", "panic"}),
    "C04": (["number"], {"oracle", "panic"}),
    "C05": (GROUPS["text"], {"oracle", "panic"}), "C06": (["base32", "base64", "base64_url"], {"oracle", "panic"}),
    "C07": (["base32_decoded", "base64_decoded", "base64_url_decoded"], {"oracle", "panic"}),
    "C08": (GROUPS["macuuid"], {"oracle", "panic"}), "C09": (GROUPS["macuuid"], {"format", "panic"}),
    "C10": (["boolean"], {"oracle", "panic"}), "C12": (["ip", "ipv4", "ipv6"], {"oracle", "panic"}),
    "C13": (["host"], {"oracle", "panic"}), "C14": (["domain"], {"oracle", "panic"}), "C15": (["email"], {"oracle", "panic"}),
    "C16": (["ip", "ipv4", "ipv6", "host", "domain", "email"], {"format", "panic"}),
    "C17": (["http_url", "http_ftp_url"], {"oracle", "panic"}), "C19": (["bit", "byte"], {"oracle", "panic"}),
    "C20": (ALL, {"serde"}), "C21": (GROUPS["basen"] + ["json"], {"bytes"}),
    "C22": (["json", "url", "semver", "semver_req", "regex", "phone"], {"oracle", "panic"}),
}


def _types(kinds):
    return [t for t in vt.all_types() if t.fam in kinds]


def build_group(g):
    """Builds the engine for a group; types whose generated code does not compile are set aside and returned."""
    name = "diff-" + g
    with Lock(name):
        ts = _types(GROUPS[g])
        bad = []
        for _ in range(4):
            d = diff.crate(name, ts)
            rc, err, dt, b = diff.build(d, name)
            if rc == 0:
                return b, ts, bad, ""
            src = open(os.path.join(d, "src", "lib.rs")).read().splitlines()
            names = set()
            for m in re.finditer(r"-->\s*src/lib\.rs:(\d+)", err):
                # the struct declared at or after that line
                for k in range(int(m.group(1)) - 1, min(int(m.group(1)) + 3, len(src))):
                    x = re.match(r"pub struct (\w+)", src[k])
                    if x:
                        names.add(x.group(1))
                        break
            hit = [t for t in ts if t.name in names]
            if not hit or len(hit) == len(ts):
                return None, ts, bad, err
            bad += [(t, err) for t in hit]
            ts = [t for t in ts if t.name not in names]
        return None, ts, bad, err


def run_engine(b, kinds, n, seed, cap, timeout):
    rc, out, err, dt = run([b, "run", str(n), str(seed), str(cap), ",".join(kinds)], timeout=timeout)
    if rc == 0 and out.strip():
        return json.loads(out.splitlines()[-1]), ""
    # the process died (stack overflow, abort): run again, one call at a time, noting each call first
    tr = b + ".trace"
    if rc != 124:
        rc2, out2, err2, _ = run([b, "run", str(n), str(seed), str(cap), ",".join(kinds)], timeout=timeout, env={"VP_TRACE": tr})
        if rc2 < 0 and os.path.exists(tr):
            f = open(tr).read().splitlines()[0].split(" ")
            h = f[1] if len(f) > 2 else ""
            a = bytes.fromhex(f[-1]).decode()
            return {"evaluations": 1, "distinct_nontrivial": 0, "entries": 1, "samples": [], "mismatches": [
                {"class": "panic", "name": f[0], "attr": a, "hex": h, "text": bytes.fromhex(h).decode("utf-8", "replace"),
                 "what": f"the process was killed by signal {-rc2} inside an entry point"}]}, ""
    return None, f"engine exit {rc}: {err[-500:]}"


def diff_check(rep, pid=None, budget=None):
    pid = pid or rep.pid
    kinds, classes = PROPS[pid]
    groups = [g for g in GROUPS if any(k in kinds for k in GROUPS[g])]
    quick = TIER == "quick"
    n = 20000 if quick else 2000000
    cap = budget or ((40 if len(groups) == 1 else 12) if quick else (500 if len(groups) == 1 else 60))
    with cf.ThreadPoolExecutor(4) as ex:
        built = dict(zip(groups, ex.map(build_group, groups)))
    st = {"evaluations": 0, "distinct_nontrivial": 0, "types": 0, "samples": [], "bound":
          f"up to {n} generated inputs per configuration within {cap} s per group, plus all short texts over each format's alphabet"}
    for g in groups:
        b, ts, bad, err = built[g]
        src = {t.name: vt.decl(t) for t in _types(GROUPS[g])}
        for t, e in bad:
            if t.fam in kinds:
                rep.violate(f"compile:{t.attr}", f"#[validator({t.attr})] no longer compiles", {"source": vt.decl(t), "rustc": e[-3000:]}, True)
        if b is None:
            rep.undecided.append(f"group {g}: the harness does not build: {err[-600:]}")
            continue
        ks = [k for k in GROUPS[g] if k in kinds]
        j, e = run_engine(b, ks, n, SEED, cap, cap * 4 + 120)
        if j is None:
            rep.undecided.append(f"group {g}: {e}")
            continue
        st["evaluations"] += j["evaluations"]
        st["distinct_nontrivial"] += j["distinct_nontrivial"]
        st["types"] += j["entries"]
        st["samples"] += j["samples"][:6]
        for m in j["mismatches"]:
            if m["class"] in classes:
                rep.violate(f"{m['class']}:{m['attr']}:{m['hex']}", f"{m['attr']} on {m['text']!r}: {m['what']}",
                            {"validator": m["attr"], "input_text": m["text"], "input_hex": m["hex"], "what": m["what"],
                             "source": src.get(m["name"]), "rerun": f"{b} probe {m['name']} {m['hex']}"}, True)
    rep.bounded["differential"] = st
    rep.cov.setdefault("evaluations", 0)
    rep.cov["evaluations"] += st["evaluations"]
    rep.cov["distinct_nontrivial"] = rep.cov.get("distinct_nontrivial", 0) + st["distinct_nontrivial"]
    rep.cov["rule"] = "inputs made by the generators of vp/rust/gens.rs from VERIF_SEED; non-trivial = distinct and accepted by the validator"
    rep.cov["samples"] = (rep.cov.get("samples") or []) + st["samples"][:12]
    rep.assumptions.append("bounded stand-in: the specification in vp/rust/oracle.rs is compared on generated inputs only")
    return st
