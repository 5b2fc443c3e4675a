"""Shared plumbing of every check: paths, subprocesses, evidence, verdicts."""
import fcntl, hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")          # git-ignored scratch
REPLAY = os.path.join(BUILD, "replay")
EVID = os.path.join(VERIF, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = os.cpu_count() or 4

ENV = dict(os.environ)
ENV["CARGO_NET_OFFLINE"] = "true"
ENV.pop("CARGO_TARGET_DIR", None)
ENV.pop("RUSTFLAGS", None)


def log(*a):
    print(*a, flush=True)


def run(cmd, cwd=None, timeout=None, env=None, inp=None):
    e = dict(ENV)
    if env:
        e.update(env)
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, input=inp)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace"), time.time() - t
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf-8", "replace"), (x.stderr or b"").decode("utf-8", "replace"), time.time() - t


class Lock:
    """One cargo target directory is used by several checks: serialise the builds."""

    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return False
    except OSError:
        pass
    open(path, "w").write(text)
    return True


def make_crate(name, features, lib_rs, extra_files=None, deps="", bins="", toml_extra=""):
    """(Re)generate a harness crate under build/ with a path dependency on /repo's crate."""
    d = os.path.join(BUILD, name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    feats = ", ".join('"%s"' % f for f in features)
    write_if_changed(os.path.join(d, "Cargo.toml"), f"""[package]
name = "{name.replace('-', '_')}"
version = "0.0.0"
edition = "2024"
publish = false
[workspace]
[dependencies]
validators = {{ path = "{REPO}/validators", default-features = false, features = [{feats}] }}
{deps}
{bins}
[lints.rust]
unexpected_cfgs = {{ level = "allow", check-cfg = ['cfg(kani)'] }}
[profile.dev]
debug = 0
overflow-checks = true
debug-assertions = true
incremental = false
{toml_extra}
""")
    # the versions pinned by /repo's own lock file; cargo prunes what the harness does not need
    lock = open(os.path.join(REPO, "Cargo.lock")).read()
    stamp = hashlib.sha256(lock.encode()).hexdigest()
    sp = os.path.join(d, ".lockstamp")
    if not os.path.exists(sp) or open(sp).read() != stamp or not os.path.exists(os.path.join(d, "Cargo.lock")):
        open(os.path.join(d, "Cargo.lock"), "w").write(lock)
        open(sp, "w").write(stamp)
    write_if_changed(os.path.join(d, "src", "lib.rs"), lib_rs)
    for k, v in (extra_files or {}).items():
        write_if_changed(os.path.join(d, k), v)
    return d


class Report:
    """Collects what one check run did; `finish` writes evidence and gives the exit status."""

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.obl = 0            # obligations generated
        self.dis = 0            # obligations discharged
        self.level = "proof"
        self.cov = {}
        self.trusted = []
        self.assumptions = []
        self.violations = []    # (key, text, replay dict, has_input)
        self.known = []
        self.undecided = []     # obligations no verifier decided (bounded stand-in used)
        self.functions = []
        self.backends = {}
        self.cmds = []
        self.bounded = {}

    def obligations(self, backend, total, discharged, secs=0.0):
        self.obl += total
        self.dis += discharged
        b = self.backends.setdefault(backend, {"obligations": 0, "discharged": 0, "solver_s": 0.0})
        b["obligations"] += total
        b["discharged"] += discharged
        b["solver_s"] = round(b["solver_s"] + secs, 3)

    def violate(self, key, text, replay, has_input):
        self.violations.append((key, text, replay, has_input))

    def finish(self):
        known = load_known(self.pid)
        os.makedirs(REPLAY, exist_ok=True)
        os.makedirs(EVID, exist_ok=True)
        real = []
        for v in self.violations:
            m = [k for k in known if k["key"] == v[0]]
            if m:
                self.known.append(m[0])
            else:
                real.append(v)
        for k in {k["key"]: k for k in self.known}.values():
            log(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        level = self.level
        if level == "proof" and (self.obl == 0 or self.dis == 0):
            level = "exploration"
        cov = {"obligations": self.obl, "discharged": self.dis,
               "checker_cmd": "; ".join(dict.fromkeys(self.cmds)) or "n/a",
               "trusted_base": list(dict.fromkeys(self.trusted)),
               "back_ends": self.backends,
               "functions_under_contract": len(self.functions),
               "functions": self.functions[:400],
               "undecided_obligations": self.undecided[:200],
               "bounded_standins": self.bounded}
        cov.update(self.cov)
        if level == "exploration":
            cov.setdefault("evaluations", 0)
            cov.setdefault("distinct_nontrivial", 0)
            cov.setdefault("rule", "bounded stand-in only")
            cov.setdefault("samples", [])
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
              "assumptions": list(dict.fromkeys(self.assumptions)),
              "wall_s": round(time.time() - self.t0, 2), "violations": len(real)}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
        log(f"[{self.pid}] obligations={self.obl} discharged={self.dis} undecided={len(self.undecided)} "
            f"functions={len(self.functions)} wall={ev['wall_s']}s")
        if real:
            # prefer a violation that carries a concrete failing input
            real.sort(key=lambda v: not v[3])
            key, text, rep, has_input = real[0]
            path = os.path.join(REPLAY, f"{self.pid}.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "violation": text, "key": key, "replay": rep,
                           "failing_input_found": has_input,
                           "all": [{"key": v[0], "text": v[1], "failing_input_found": v[3]} for v in real[:50]]},
                          f, indent=1, ensure_ascii=False, default=str)
            for v in real[:10]:
                log(f"  violated: {v[1]}")
            log(f"VIOLATION property={self.pid} replay={path}" + ("" if has_input else " no-failing-input-found"))
            return 1
        return 0


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k.get("property") == pid and k.get("status") == "known":
                    out.append(k)
    return out
