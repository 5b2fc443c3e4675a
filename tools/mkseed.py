#!/usr/bin/env python3
"""mkseed.py SPEC.py [id...]: plants each bug of SPEC.SEEDS in a scratch copy, confirms it (builds, stable tests pass, the
demonstration passes without and fails with it, only original lines changed) and keeps it in /verif/seeded/<id>/."""
import importlib.util, json, os, subprocess, sys, shutil
W = "/tmp/seedwork"
BASE = "bc94e8a"
def sh(c, cwd=W, t=900, env=None):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=env)
    return p.returncode, p.stdout.decode("utf-8", "replace")
spec = importlib.util.spec_from_file_location("spec", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
if not os.path.exists(W):
    sh(f"cp -a /repo {W}", cwd="/")
head = subprocess.run("git -C /repo rev-parse HEAD", shell=True, stdout=subprocess.PIPE).stdout.decode().strip()
sh(f"git fetch -q /repo HEAD && git checkout -q -f {head}")
env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=W + "/target", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
base = json.load(open("/opt/vp/BASELINE.json"))
DEMO = '''#!/bin/bash
# run with cwd = the repository, after it was built: exit 0 when the property holds
R=$(pwd); H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "${D:?}"' EXIT
mkdir -p "$D/src"; cp "$H/main.rs" "$D/src/main.rs"; cp "$R/Cargo.lock" "$D/Cargo.lock"
cat > "$D/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
validators = { path = "$R/validators", default-features = false, features = [FEATS] }
DEPS
T
cd "$D" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$D/target" timeout 280 cargo run --offline -q
'''
for s in m.SEEDS:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]: continue
    d = f"/verif/seeded/{s['id']}"
    sh("git checkout -q -- .")
    ok = True
    for f, a, b, *at in s["edits"]:
        p = os.path.join(W, f); t = open(p).read()
        if at:      # the first occurrence after a marker line
            i = t.find(at[0]); j = t.find(a, i)
            if i < 0 or j < 0: print(s["id"], "no such place"); ok = False; break
            open(p, "w").write(t[:j] + b + t[j + len(a):]); continue
        n = t.count(a)
        k = s.get("count", 1)
        if n != k: print(s["id"], f"edit matches {n} times in {f}"); ok = False; break
        open(p, "w").write(t.replace(a, b))
    if not ok: continue
    diff = sh("git diff")[1]
    old = "".join(sh(f"git show {BASE}:{f}")[1] for f, *_ in s["edits"])
    for l in diff.splitlines():
        if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in old.splitlines():
            print(s["id"], "changes a line that is not original:", l)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.rs", "w").write(s["main"])
    open(d + "/demo.sh", "w").write(DEMO.replace("FEATS", ", ".join(f'"{x}"' for x in s["feats"])).replace("DEPS", s.get("deps", "")))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    rc, o = sh("cargo test --workspace --all-features --offline --no-fail-fast 2>&1", env=env)
    fails = [l for l in o.splitlines() if l.endswith("FAILED") or "error" in l[:7]]
    r1, o1 = sh(f"bash {d}/demo.sh")
    sh("git checkout -q -- .")
    r0, o0 = sh(f"bash {d}/demo.sh")
    good = rc == 0 and r1 != 0 and r0 == 0
    print(s["id"], "OK" if good else "REJECTED", "tests", rc, fails[:3], "demo bug", r1, o1.strip().splitlines()[-1:] , "demo clean", r0, "" if r0 == 0 else o0[-600:], flush=True)
    if not good: shutil.move(d, "/tmp/rejected-" + s["id"] + "-" + str(os.getpid()))
