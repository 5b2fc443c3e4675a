"""The deductive checks: contracts of the generated entry points, proved from the MIR of /repo's current tree by vp/mirvc."""
from common import *
import sys, re, traceback, multiprocessing as mp, concurrent.futures as cf
sys.path.insert(0, os.path.join(VERIF, "vp", "mirvc"))
import vtypes as vt, mirdump, checks_diff, diff

STR = ["parse_string", "parse_str", "validate_str"]
BYT = ["parse_u8_slice", "parse_vec_u8", "validate_u8_slice"]
GROUPS = {
    "basen": ["base32", "base64", "base64_url", "base32_decoded", "base64_decoded", "base64_url_decoded"],
    "text": ["text", "line"], "macuuid": ["mac_address", "uuid"], "ip": ["ip", "ipv4", "ipv6"], "host": ["host"],
    "domain": ["domain"], "email": ["email"],
    "web": ["http_url", "http_ftp_url", "url", "boolean", "json", "semver", "semver_req", "regex"], "phone": ["phone"],
}
DES = ["deserialize", "visit_str", "visit_string", "visit_borrowed_str", "visit_bytes", "visit_byte_buf"]
LIBG = {"ip", "host", "domain", "email", "web"}
BASEN = GROUPS["basen"]
PLAN = {     # property: (kinds, entries, obligation tags that decide it, types per kind in quick mode)
    "C01": ([k for g in GROUPS.values() for k in g], STR, {"spec"}, 3),
    "C02": ([k for g in GROUPS.values() for k in g], STR, {"safety"}, 3),
    "C05": (GROUPS["text"], STR, None, 99), "C06": (BASEN[:3], STR, None, 99), "C07": (BASEN[3:], STR, None, 99),
    "C08": (GROUPS["macuuid"], STR, None, 99), "C12": (GROUPS["ip"], STR, None, 99), "C13": (["host"], STR, None, 99),
    "C14": (["domain"], STR, None, 99), "C15": (["email"], STR, None, 12), "C21": (BASEN, BYT, None, 99),
    "C09": (GROUPS["macuuid"], ["to_mac_address_string", "to_uuid_string", "serialize"], None, 99),
    "C16": (GROUPS["ip"] + ["host", "domain"], ["to_uri_authority_string", "serialize"], None, 10),
    "C10": (["boolean"], STR, None, 99), "C17": (["http_url", "http_ftp_url"], STR, None, 99),
    "C22": (["url", "json", "semver", "semver_req", "regex", "phone"], STR, None, 99),
    "C20": ([k for g in GROUPS.values() for k in g if k != "json"], DES, None, 2),
}
_crates = {}


def pick(ts, n):
    """n types spread over the list, the same ones every time."""
    if len(ts) <= n: return ts
    if ts[0].kind == "email":      # the configurations the solver takes minutes for are left to the thorough run
        i = [40, 94, 58, 22, 76, 4, 67, 85, 103, 69, 100, 63]
        return [ts[k] for k in i[:n]]
    return [ts[(2 * i + 1) * len(ts) // (2 * n)] for i in range(n)]


def work(job):
    g, name, mes, limit = job
    import prove, vc as VC
    from val import Unsupported
    t = next(x for x in vt.all_types() if x.name == name)
    out = {"name": name, "attr": t.attr, "kind": t.kind, "done": [], "undecided": [], "obl": [], "funcs": [], "std": {}, "inv": []}
    t0 = time.time()
    j = None
    for me in mes:
        try:
            if j is None: j = prove.Job(_crates[g], _crates.get("lib"), t, t0 + limit)
            j.hints, j.results, j.invs, j.inlined, j.std_used = True, [], [], set(), {}
            if not j.run_entry(me):
                if not me.startswith(("visit_", "to_")): out["undecided"].append(f"{t.attr}/{me}: no such entry point")
                continue
            out["done"].append(me)
            for oid, tag, v, secs, cand in j.results:
                out["obl"].append((oid, "spec" if tag in ("spec", "vacuity") else "safety", v, secs, cand))
            out["funcs"] += [j.entry(me).name] + list(j.inlined)
            for k, n in j.std_used.items(): out["std"][k] = out["std"].get(k, 0) + n
            out["inv"] += [{"function": i["function"], "loop": i["loop"], "invariants": i["invariants"][:12], "progress": i["progress"]} for i in j.invs[-6:]]
            continue
        except Unsupported as e:
            out["undecided"].append(f"{t.attr}/{me}: {e}")
        except RecursionError:
            out["undecided"].append(f"{t.attr}/{me}: recursion limit of the verifier")
        except Exception:
            out["undecided"].append(f"{t.attr}/{me}: internal error {traceback.format_exc()[-300:]}")
        j = None
    out["secs"] = time.time() - t0
    out["solver_s"] = VC.STATS["seconds"]; VC.STATS["seconds"] = 0.0
    return out


def load_group(g, ts):
    import load
    src, mir, mirv = mirdump.dump(g, ts)
    _crates[g] = load.Crate(src, mir, mirv)


def load_lib():
    import load
    mir, mirv = mirdump.dump_lib(["host", "domain", "email", "ip"])
    _crates["lib"] = load.Crate("", mir, mirv)


def proof_check(rep, pid=None):
    pid = pid or rep.pid
    kinds, mes, tags, per = PLAN[pid]
    quick = TIER == "quick"
    ts = {}
    for g, ks in GROUPS.items():
        for k in ks:
            if k not in kinds: continue
            a = [t for t in vt.all_types() if t.kind == k]
            ts.setdefault(g, []).extend(pick(a, per) if quick else a)
    diffg = [g for g in checks_diff.GROUPS if any(k in checks_diff.PROPS[pid][0] for k in checks_diff.GROUPS[g])]
    tl = time.time()
    with cf.ThreadPoolExecutor(5) as ex:
        fd = [ex.submit(checks_diff.build_group, g) for g in diffg] if len(diffg) == 1 else []
        fl = {g: ex.submit(load_group, g, ts[g]) for g in ts}
        if LIBG & set(ts): fl["lib"] = ex.submit(load_lib)
        for g, f in fl.items():
            try: f.result()
            except Exception as e: rep.undecided.append(f"group {g}: {str(e)[-700:]}")
    limit = 150 if quick else 900
    order = {"email": 0, "text": 1, "domain": 2, "host": 3}
    jobs = [(g, t.name, mes, limit) for g in sorted(ts, key=lambda g: order.get(g, 9)) for t in ts[g] if g in _crates and (g not in LIBG or "lib" in _crates)]
    outs = []
    budget = 200 if quick else 6 * 3600
    t0 = time.time()
    if jobs:
        with mp.get_context("fork").Pool(min(NCPU, len(jobs)), maxtasksperchild=8) as p:
            rs = [(j, p.apply_async(work, (j,))) for j in jobs]
            for j, r in rs:
                try: outs.append(r.get(max(1, budget - (time.time() - t0))))
                except mp.TimeoutError: rep.undecided.append(f"{j[1]}: not reached in this run's time")
            p.terminate()
    rep.cmds.append("rustc -Zunpretty=mir of the derive output; python3-vt vp/mirvc (VC generation) with z3 " + z3v())
    fails, nob = [], 0
    funcs, std = set(), {}
    for o in outs:
        rep.undecided += o["undecided"]
        mine = [x for x in o["obl"] if tags is None or x[1] in tags]
        ok_ = [x for x in mine if x[2] == "proved"]
        rep.obligations("mirvc/z3", len(mine), len(ok_), o["solver_s"])
        nob += len(mine)
        funcs.update(o["funcs"])
        for k, n in o["std"].items(): std[k] = std.get(k, 0) + n
        for x in mine:
            if x[2] == "refuted": fails.append((o, x))
            elif x[2] == "unknown": rep.undecided.append(x[0] + ": no answer from the solver")
    rep.functions += sorted(funcs)
    rep.trusted += [f"assumed contract on a dependency: {k} (used {n} times)" for k, n in sorted(std.items())]
    rep.trusted += ["rustc's MIR as the meaning of the source", "vp/mirvc: MIR reader, VC generator, theory of texts", "z3"]
    rep.cov["proof"] = {"types": len(outs), "entries": sum(len(o["done"]) for o in outs), "wall_s": round(time.time() - tl, 1),
                        "per_type_s": {o["name"] + " " + o["attr"]: round(o["secs"], 1) for o in outs[:120]},
                        "invariants": [i for o in outs for i in o["inv"]][:40]}
    rep.assumptions += ["each generated configuration is proved for all inputs; configurations are those of vp/vtypes.py",
                        "std, idna, base64/32, uuid functions are used through the contracts of vp/mirvc/stdc.py and contracts.py"]
    if fails: confirm(rep, pid, fails)
    return fails


def z3v():
    import z3
    return z3.get_version_string()


def confirm(rep, pid, fails):
    """Failed obligations: replay the verifier's counterexamples on the real code."""
    seen = {}
    for o, x in fails: seen.setdefault(o["name"], (o, []))[1].append(x)
    found = False
    bins = {}
    for name, (o, xs) in list(seen.items())[:12]:
        g = next(g for g, ks in checks_diff.GROUPS.items() if o["kind"] in ks)
        if g not in bins: bins[g] = checks_diff.build_group(g)[0]
        b = bins[g]
        hexes = list(dict.fromkeys(h for x in xs for h in (x[4] or [])))[:40]
        if b is None or not hexes: continue
        rc, out, err, _ = run([b, "probe", name] + [h or "" for h in hexes], timeout=60)
        for h, l in zip(hexes, [l for l in out.splitlines() if l.startswith("{")]):
            try: j = json.loads(l)
            except ValueError: continue
            for m in j["mismatches"]:
                found = True
                rep.violate(f"proof:{o['attr']}:{h}", f"{xs[0][0]} is refuted; on {m['text']!r}: {m['what']}",
                            {"obligation": xs[0][0], "validator": o["attr"], "input_hex": h, "input_text": m["text"], "what": m["what"],
                             "rerun": f"{b} probe {name} {h}"}, True)
    for o, x in fails[:30]:
        rep.violate(f"obligation:{x[0]}", f"obligation not discharged: {x[0]}",
                    {"obligation": x[0], "verdict": x[2], "counterexample_candidates_hex": x[4], "note": "no input confirmed on the real code"}, False)
