"""Expands /repo's macros for a list of validated types and dumps the compiler's MIR of everything they generate."""
from common import *
import sys, re
sys.path.insert(0, os.path.join(VERIF, "vp", "mirvc"))
import vtypes as vt

FLAGS = ["-Zunpretty=mir", "-Zmir-opt-level=0", "-Coverflow-checks=on", "-Awarnings"]


def decl(t):
    return vt.decl(t).replace("derive(Debug, Validator)", "derive(Validator)")


def source(ts):
    out = ["#![allow(unused, clippy::all)]\nuse validators::prelude::*;\n"]
    out += [p + "\n" for p in dict.fromkeys(t.pre for t in ts if t.pre)]
    return "".join(out) + "".join(decl(t) for t in ts)


def features(ts):
    return ["derive", "std", "serde"] + list(dict.fromkeys(t.kind for t in ts))


def _mir(d, extra, cwd, timeout):
    rc, out, err, dt = run(["cargo", "--offline", "rustc", "-q", "--lib", "--"] + FLAGS + extra, cwd=cwd, timeout=timeout, env={"RUSTC_BOOTSTRAP": "1"})
    if rc != 0: raise RuntimeError("MIR dump failed: " + err[-1500:])
    return out


def dump(name, ts, timeout=400):
    """(source text, MIR, MIR with closure paths)"""
    src = source(ts)
    with Lock("mir-" + name):
        d = make_crate("mir-" + name, features(ts), src, deps='serde = "1"\n',
                       toml_extra="[profile.dev.package.validators-derive]\nopt-level = 0\n[profile.dev.build-override]\nopt-level = 0\n")
        return src, _mir(d, [], d, timeout), _mir(d, ["-Zverbose-internals"], d, timeout)


def dump_lib(kinds, timeout=400):
    """MIR of the validators crate itself (helper functions the generated code calls)."""
    name = "lib-" + "-".join(kinds)
    with Lock("mir-" + name):
        d = make_crate("mir-" + name, ["derive", "std", "serde"] + kinds, "#![allow(unused)]\npub use validators;\n")
        def go(extra):
            rc, out, err, dt = run(["cargo", "--offline", "rustc", "-q", "-p", "validators", "--lib", "--"] + FLAGS + extra, cwd=d, timeout=timeout, env={"RUSTC_BOOTSTRAP": "1"})
            if rc != 0: raise RuntimeError("MIR dump failed: " + err[-1500:])
            return out
        return go([]), go(["-Zverbose-internals"])
