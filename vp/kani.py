"""Run a generated Kani crate and turn its harness results into obligations and violations."""
import os, re, shutil
from common import *

TARGET = os.path.join(BUILD, "target-kani")
KENV = {"CARGO_TARGET_DIR": TARGET}


def _parse_terse(out):
    """harness -> (ok, failed, total, covers_ok, covers_total, secs)"""
    res = {}
    cur = {}
    for line in out.splitlines():
        m = re.match(r"^(?:Thread (\d+): )?(.*)$", line)
        th, txt = m.group(1) or "_", m.group(2)
        m = re.search(r"Checking harness ([\w:]+)", line)
        if m:
            cur[th] = m.group(1)
            continue
        if re.match(r"^Thread \d+: *$", line):
            cur["last"] = re.match(r"^Thread (\d+)", line).group(1)
            continue
        h = cur.get(cur.get("last", "_")) if "last" in cur else cur.get("_")
        if h is None:
            continue
        r = res.setdefault(h, {"ok": None, "failed": 0, "total": 0, "cov": None, "secs": 0.0, "msgs": []})
        m = re.search(r"\*\* (\d+) of (\d+) failed", line)
        if m:
            r["failed"], r["total"] = int(m.group(1)), int(m.group(2))
        m = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", line)
        if m:
            r["cov"] = (int(m.group(1)), int(m.group(2)))
        m = re.search(r"Failed Checks: (.*)", line)
        if m:
            r["msgs"].append(m.group(1))
        if "VERIFICATION:- SUCCESSFUL" in line:
            r["ok"] = True
        if "VERIFICATION:- FAILED" in line:
            r["ok"] = False
        m = re.search(r"Verification Time: ([\d.]+)s", line)
        if m:
            r["secs"] = float(m.group(1))
    return res


def run_kani(rep, name, features, lib_rs, harnesses, what, timeout=700, replay=True, min_checks=1, extra=(), deps=""):
    """what: harness -> human text of the contract it discharges."""
    with Lock("kani"):
        d = make_crate(name, features, lib_rs, deps=deps)
        cmd = ["cargo", "kani", "-j", str(NCPU), "--output-format=terse", *extra]
        rc, out, err, secs = run(cmd, cwd=d, env=KENV, timeout=timeout)
        rep.cmds.append("cargo kani (Kani 0.68.0 / CBMC) on generated crate build/" + name)
        if "Checking harness" not in out:
            return {"compile_error": True, "out": out, "err": err}
        res = _parse_terse(out)
        bad, und = [], []
        for h in harnesses:
            r = res.get(h)
            if r is None or r["ok"] is None:
                und.append(h)
                rep.obligations("kani/cbmc", 1, 0)
                rep.undecided.append(f"{h}: no verdict from Kani")
                continue
            ncheck = r["total"]
            if r["ok"] and ncheck >= min_checks and (r["cov"] is None or r["cov"][0] == r["cov"][1]):
                rep.obligations("kani/cbmc", ncheck, ncheck, r["secs"])
                rep.functions.append(what(h))
            elif r["ok"]:
                # vacuous: a reachability cover behind the contract is unsatisfiable
                rep.obligations("kani/cbmc", ncheck, 0, r["secs"])
                rep.undecided.append(f"{h}: vacuity guard: {r['cov']} covers reached, {ncheck} checks")
                und.append(h)
            else:
                rep.obligations("kani/cbmc", max(ncheck, 1), max(ncheck, 1) - max(r["failed"], 1), r["secs"])
                bad.append(h)
        viol = []
        for h in bad[:3]:
            r = res[h]
            msgs = r["msgs"]
            real = [m for m in msgs if "unwinding assertion" not in m and "is not currently supported" not in m]
            if not real:
                und.append(h)
                rep.undecided.append(f"{h}: {msgs}")
                continue
            replayed, text = (replay_harness(d, h, extra) if replay else (False, ""))
            rep.violate(f"{what(h)}", f"{what(h)}: failed obligation(s) {real[:4]}",
                        {"harness": h, "crate": d, "failed": real, "native_replay": text[-4000:]}, replayed)
            viol.append(h)
        return {"compile_error": False, "bad": bad, "undecided": und, "res": res, "dir": d, "secs": secs}


def replay_harness(d, h, extra=()):
    """Concrete playback: compile the harness natively with the verifier's values and run it on the real code."""
    try:
        src = os.path.join(d, "src", "lib.rs")
        keep = open(src).read()
        try:
            run(["cargo", "kani", "--harness", h, "--exact", "-Z", "concrete-playback",
                 "--concrete-playback=inplace", *extra], cwd=d, env=KENV, timeout=240)
            vals = re.findall(r"fn (kani_concrete_playback_\w+)\(\) \{\n(.*?)\n\}", open(src).read(), re.S)
            rc, out, err, _ = run(["cargo", "kani", "playback", "-Z", "concrete-playback", "--",
                                   "kani_concrete_playback"], cwd=d, env=KENV, timeout=240)
            failed = re.findall(r"test (kani_concrete_playback_\w+) \.\.\. FAILED", out)
            txt = "\n".join(f"{n}:\n{b}" for n, b in vals if n in failed)[:3000]
            pan = "\n".join(l for l in (out + err).splitlines() if "panicked at" in l or "verdict" in l or "failed" in l)[:1500]
            return bool(failed), txt + "\n" + pan
        finally:
            open(src, "w").write(keep)
    except Exception as x:  # a replay problem never hides the failed obligation
        return False, f"replay failed: {x!r}"


def compile_failure(rep, name, features, lib_rs, baseline_rs, cfgs_text):
    """A harness crate that no longer compiles: is it the configurations or the crate itself?

    `baseline_rs` is a minimal crate using the same public traits and no attribute; when it builds and the
    full one does not, valid configurations are what stopped compiling.
    """
    tgt = {"CARGO_TARGET_DIR": os.path.join(BUILD, "target")}
    with Lock("cargo"):
        d = make_crate(name + "_base", features, baseline_rs)
        rc0, _, e0, _ = run(["cargo", "check"], cwd=d, env=tgt, timeout=300)
        d = make_crate(name + "_full", features, lib_rs)
        rc1, _, e1, _ = run(["cargo", "check"], cwd=d, env=tgt, timeout=300)
    if rc0 == 0 and rc1 != 0:
        spans = sorted({int(x) for x in re.findall(r"--> src/lib.rs:(\d+):", e1)})
        lines = lib_rs.splitlines()
        near = []
        for s in spans[:8]:
            near.append(" ".join(lines[max(0, s - 1):s + 2]))
        rep.violate("compile", f"valid configurations no longer compile: {near[:3]}",
                    {"compiler_output": e1[:6000], "configurations": near, "crate": d}, True)
        return True
    rep.undecided.append("harness crate does not build: " + (e1 or e0)[:1500])
    return False
