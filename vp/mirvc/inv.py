"""Loop invariants: candidate facts over the loop's variables, the first/last-occurrence functions and the folds of the
specification are guessed; the largest subset that holds on entry and is preserved by the body is kept (every kept fact is a
discharged obligation). The loop is then its invariant."""
import re, z3, time
from val import *
import vc as VC
import parse as P
import exec as X
import os
DBG = os.environ.get('INVDBG')


def run_loop(ex, c, fr, h, st0, body):
    th = ex.th
    ex.loop_depth += 1
    saved, col = len(ex.obls), ex.collecting
    ex.collecting = False
    try:
        # 1. which cells change (fixpoint)
        havoc = {}      # key -> set of leaf paths
        for _ in range(6):
            st, names = havoced(ex, st0, havoc)
            exs = ex.region(c, fr, h, [st], body, h)
            new = False
            for ls in exs.get("latch", []):
                for key, v in st.mem.items():
                    w = ls.mem.get(key)
                    if w is None:
                        if havoc.get(key) != "drop": havoc[key] = "drop"; new = True
                        continue
                    if w is v or havoc.get(key) == "drop": continue
                    try:
                        la, lb = dict(X_leaves(v)), dict(X_leaves(w))
                    except Exception:
                        la, lb = None, None
                    if la is None or set(la) != set(lb):
                        if havoc.get(key) != "drop": havoc[key] = "drop"; new = True
                        continue
                    for p in la:
                        if not same(la[p], lb[p]) and p not in havoc.get(key, ()):
                            havoc.setdefault(key, set()).add(p); new = True
                    if la == {} or all(same(la[p], lb[p]) for p in la):
                        # nothing numeric differs: either equal or an opaque change
                        if not shape_same(v, w) and havoc.get(key) != "drop": havoc[key] = "drop"; new = True
            if not new: break
        else:
            raise Unsupported("loop state does not settle")
        st, names = havoced(ex, st0, havoc)
        # 2. candidates
        cands = candidates(ex, c, fr, st0, st, havoc, names, body)
        live = []
        for nm, f in cands:
            try: e = f(st0)
            except KeyError: continue
            if e is None: continue
            live.append((nm, f))
        t0 = time.time()
        n0, n1 = len(cands), len(live)
        live = filter_initial(ex, st0, live)
        t1 = time.time(); rounds = 0; n2 = len(live); tf = 0
        # 3. Houdini
        while True:
            if ex.deadline and time.time() > ex.deadline: raise Unsupported("time")
            hs = st
            facts = [zb(f(st)) for _, f in live]
            hs = X.St(st.pc + tuple(facts), dict(st.mem))
            exs = ex.region(c, fr, h, [hs], body, h)
            latches = X.merge_all(exs.get("latch", []))
            dropped = set()
            rounds += 1
            tq = time.time()
            for ls in latches:
                dropped |= falsified(ex, ls, live)
            tf += time.time() - tq
            if not dropped: break
            live = [x for i, x in enumerate(live) if i not in dropped]
        if DBG: print(f"[{fr.f.name[-30:]} bb{h}] cands {n0}/{n1}/{n2}->{len(live)} initial {t1-t0:.1f}s rounds {rounds} {time.time()-t1:.1f}s of which falsify {tf:.1f}s latches {len(latches)}", flush=True)
        # 4. final pass: obligations inside the body are collected under the invariant
    finally:
        ex.collecting = col
        ex.loop_depth -= 1
        del ex.obls[saved:]
    exs = ex.region(c, fr, h, [hs], body, h)
    latches = exs.pop("latch", [])
    # progress: something bounded strictly grows
    term = progress(ex, hs, X.merge_all(latches), live, names)
    ex.inv_report.append({"function": fr.f.name, "loop": h, "invariants": [n for n, _ in live], "progress": term})
    if ex.collecting and latches and term is None:
        ex.obls.append(X.Obl("termination", fr.f.name, hs.pc, None, "no bounded measure found for a loop"))
    return exs


def X_leaves(v):
    return list(leaves(v))


def shape_same(v, w):
    if type(v) is not type(w): return False
    if isinstance(v, Enum): return v.name == w.name and all(k in w.pay and all(shape_same(a, b) for a, b in zip(v.pay[k], w.pay[k])) for k in v.pay)
    if isinstance(v, (Agg, FnVal)): return len(v.fields) == len(w.fields) and all(shape_same(a, b) for a, b in zip(v.fields, w.fields))
    if isinstance(v, Opq): return same(v.term, w.term)
    if isinstance(v, (View, CharIt, Seg)): return same(v.s, w.s)
    if isinstance(v, Owned): return shape_same(v.view, w.view)
    if isinstance(v, VRef): return shape_same(v.v, w.v)
    if isinstance(v, Ref): return v.key == w.key and v.path == w.path
    return True


def havoced(ex, st0, havoc):
    st = st0.copy()
    names, facts = {}, []
    for key, ps in havoc.items():
        if ps == "drop":
            st.mem.pop(key, None)
            continue
        v0 = st0.mem[key]
        v = v0
        for p, e in list(leaves(v0)):
            if p not in ps: continue
            isb = isinstance(e, bool) or (isz(e) and z3.is_bool(e))
            n = fresh("loop", B if isb else I)
            names[(key, p)] = n
            v = setleaf(v, p, n)
            # type invariants of iterators
        for q, it in iters(v):
            lo0 = dict(leaves(v0))
            if isinstance(it, Seg) and len(it.segs) == 1:
                facts += [le(it.segs[0][0], it.segs[0][1])]
            if isinstance(it, CharIt): facts += [le(it.lo, it.hi), BND(it.s, zi(it.lo))]
            if isinstance(it, Adapt) and it.kind in ("take", "skip") and not isinstance(it.arg, V): facts.append(le(0, it.arg))
        st.mem[key] = v
    st.pc = st.pc + tuple(zb(f) for f in facts if f is not True)
    st.pcids = frozenset(x.get_id() for x in st.pc)
    return st, names


def iters(v, path=()):
    if isinstance(v, (Seg, CharIt)): yield path, v
    elif isinstance(v, Adapt):
        yield path, v
        yield from iters(v.inner, path + ("in",))
    elif isinstance(v, Agg):
        for i, x in enumerate(v.fields): yield from iters(x, path + (i,))


def leafval(st, key, p):
    v = st.mem[key]
    for q in p:
        if isinstance(v, Agg): v = v.fields[q]
        elif isinstance(v, Enum): v = v.discr if q == "d" else v.pay[q[1]][q[2]]
        elif isinstance(v, View): v = v.lo if q == "lo" else v.hi
        elif isinstance(v, Owned): v = v.view
        elif isinstance(v, VRef): v = v.v
        elif isinstance(v, Seg): v = v.segs[0][0 if q == "lo" else 1]
        elif isinstance(v, CharIt): v = v.lo if q == "lo" else v.hi
        elif isinstance(v, Adapt): v = v.inner if q == "in" else v.arg
        elif isinstance(v, RangeV): v = v.lo if q == "lo" else v.hi
        else: raise KeyError(q)
    return v


def candidates(ex, c, fr, st0, st, havoc, names, body):
    th = ex.th
    out = []
    dbg = {v: k for k, v in ()}
    def nm(key, p):
        d = fr.f.names.get(f"_{key[1]}", f"_{key[1]}") if key[0] == fr.fid else f"outer{key[1]}"
        return d + "".join("." + str(x) for x in p)
    mi, mb = [], []
    for (key, p), n in names.items():
        (mb if z3.is_bool(n) else mi).append((key, p))
    v0 = {k: leafval(st0, *k) for k in mi + mb}
    # constants used in the function
    ks = set()
    for b in body:
        for _, raw, _ in c.stm[b]:
            for x in re.findall(r"const (\d+)_(?:usize|isize|u8|u16|u32|u64|u128|i32)", raw):
                if int(x) <= 10 ** 6: ks.add(int(x))
    ks = sorted({k + d for k in ks for d in (-1, 0, 1) if k + d >= 0} | {0})
    g = lambda k: (lambda s: leafval(s, *k))
    # unmodified integers around
    un = []
    for key, v in st.mem.items():
        if key in havoc and havoc[key] == "drop": continue
        try: ls = list(leaves(v))
        except Exception: continue
        for p, e in ls:
            if (key, p) in names or isinstance(e, bool): continue
            if isz(e) and z3.is_int(e) and not any(same(e, u) for u in un): un.append(e)
    un = un[:12]
    offs = [0] + [u for u in {e.get_id(): e for v in st.mem.values() if isinstance(v, View) for e in [v.lo] if isz(e)}.values()][:3]
    for v in st.mem.values():
        if isinstance(v, View) and isinstance(v.lo, int) and v.lo and v.lo not in offs: offs.append(v.lo)
    bases = {F.s.get_id(): F.s for F in th.folds}
    for k in mi:
        x0 = v0[k]
        n = nm(*k)
        out.append((f"{n} >= its entry value", lambda s, k=k, x0=x0: le(x0, leafval(s, *k))))
        out.append((f"{n} <= its entry value", lambda s, k=k, x0=x0: le(leafval(s, *k), x0)))
        for K in ks:
            out.append((f"{n} <= {K}", lambda s, k=k, K=K: le(leafval(s, *k), K)))
            out.append((f"{n} >= {K}", lambda s, k=k, K=K: le(K, leafval(s, *k))))
        for u in un:
            out.append((f"{n} <= {u}", lambda s, k=k, u=u: le(leafval(s, *k), u)))
        for k2 in mi:
            if k2 <= k if False else k2 == k: continue
            y0 = v0[k2]
            out.append((f"{n} - {nm(*k2)} stays", lambda s, k=k, k2=k2, d=sub(x0, y0): eq(sub(leafval(s, *k), leafval(s, *k2)), d)))
            out.append((f"{n} + {nm(*k2)} stays", lambda s, k=k, k2=k2, d=add(x0, y0): eq(add(leafval(s, *k), leafval(s, *k2)), d)))
            out.append((f"{n} <= {nm(*k2)}", lambda s, k=k, k2=k2: le(leafval(s, *k), leafval(s, *k2))))
    # positions in the base texts
    for k in mi:
        for off in offs:
            if (isz(off) or off != 0) and k[1] and k[1][-1] == "lo": continue
            def P_(s, k=k, off=off): return add(leafval(s, *k), off)
            n = nm(*k) + ("" if not isz(off) and off == 0 else f"+{off}")
            for (m, s_, lo) in ex.spec_firsts():
                out.append((f"first of mask {th.mid(m)[0]} from {lo} is not before {n}", lambda s, P_=P_, m=m, s_=s_, lo=lo: and_(le(lo, P_(s)), le(P_(s), th.first(m, s_, lo)))))
            for m, s_ in ex.spec_masks():
                p0 = P_(st0)
                out.append((f"first of mask {th.mid(m)[0]} from the entry position is not before {n}", lambda s, P_=P_, m=m, s_=s_, p0=p0: and_(le(p0, P_(s)), le(P_(s), th.first(m, s_, p0)))))
            for F in th.folds:
                ints = [q for q, (so, _) in F.comps.items() if so == I]
                bools = [q for q, (so, _) in F.comps.items() if so == B]
                out.append((f"{n} is in the range of {F.name}", lambda s, P_=P_, F=F: and_(le(F.start, P_(s)), le(P_(s), LEN(F.s)), *([BND(F.s, zi(P_(s)))] if F.chars else []))))
                for q in bools:
                    out.append((f"{F.name}.{q}({n})", lambda s, P_=P_, F=F, q=q: F(q, P_(s))))
                    out.append((f"not {F.name}.{q}({n})", lambda s, P_=P_, F=F, q=q: not_(F(q, P_(s)))))
                    for b in mb:
                        for b2 in mb:
                            if b2 != b: out.append((f"{nm(*b2)} or {nm(*b)} == {F.name}.{q}({n})", lambda s, P_=P_, F=F, q=q, b=b, b2=b2: or_(leafval(s, *b2), iff(leafval(s, *b), F(q, P_(s))))))
                        out.append((f"{nm(*b)} == {F.name}.{q}({n})", lambda s, P_=P_, F=F, q=q, b=b: iff(leafval(s, *b), F(q, P_(s)))))
                        out.append((f"{nm(*b)} == not {F.name}.{q}({n})", lambda s, P_=P_, F=F, q=q, b=b: iff(leafval(s, *b), not_(F(q, P_(s))))))
                for q in ints:
                    for v in mi:
                        out.append((f"{nm(*v)} == {F.name}.{q}({n})", lambda s, P_=P_, F=F, q=q, v=v: eq(leafval(s, *v), F(q, P_(s)))))
                        out.append((f"{nm(*v)} == {n} - {F.name}.{q}", lambda s, P_=P_, F=F, q=q, v=v: eq(leafval(s, *v), sub(P_(s), F(q, P_(s))))))
                        for q2 in ints:
                            if q2 != q:
                                out.append((f"{nm(*v)} == {F.name}.{q}-{q2}({n})", lambda s, P_=P_, F=F, q=q, q2=q2, v=v: eq(leafval(s, *v), sub(F(q, P_(s)), F(q2, P_(s))))))
                    for q2 in ints:
                        if q2 != q: out.append((f"{F.name}.{q} == {q2} ({n})", lambda s, P_=P_, F=F, q=q, q2=q2: eq(F(q, P_(s)), F(q2, P_(s)))))
                    out.append((f"{F.name}.{q} keeps its entry value at {n}", lambda s, P_=P_, F=F, q=q, p0=P_(st0): eq(F(q, P_(s)), F(q, p0))))
                    for v in mi:
                        # counters that started later than the fold
                        out.append((f"{nm(*v)} - entry == {F.name}.{q}({n}) - entry", lambda s, P_=P_, F=F, q=q, v=v, p0=P_(st0), x0=v0[v]: eq(sub(leafval(s, *v), x0), sub(F(q, P_(s)), F(q, p0)))))
                        out.append((f"entry - {nm(*v)} == {F.name}.{q}({n}) - entry", lambda s, P_=P_, F=F, q=q, v=v, p0=P_(st0), x0=v0[v]: eq(sub(x0, leafval(s, *v)), sub(F(q, P_(s)), F(q, p0)))))
    for b in mb:
        out.append((f"{nm(*b)}", lambda s, b=b: leafval(s, *b)))
        out.append((f"not {nm(*b)}", lambda s, b=b: not_(leafval(s, *b))))
    return out


def evalm(m, e):
    if isinstance(e, bool): return e
    return m.eval(e, model_completion=True)


def filter_initial(ex, st, live):
    """Keeps the candidates that hold in st."""
    bad = falsified(ex, st, live)
    return [x for i, x in enumerate(live) if i not in bad]


def falsified(ex, st, live):
    th = ex.th
    bad = set()
    es = []
    for i, (n, f) in enumerate(live):
        try: e = f(st)
        except KeyError: e = False
        if e is True: continue
        if e is False: bad.add(i); continue
        es.append((i, e))
    if not es: return bad
    hyps = [zb(h) for h in st.pc]
    ng0 = [zb(not_(e)) for _, e in es]
    t0 = time.time()
    facts = th.instances(hyps + ng0)
    s = th.solver(hyps)
    s.add(*hyps); s.add(*facts)
    pend = list(es)
    while pend:
        s.push()
        s.add(z3.Or([zb(not_(e)) for _, e in pend]))
        r = s.check()
        VC.STATS["queries"] += 1
        if r == z3.unsat:
            s.pop()
            break
        if r == z3.unknown:
            # one at a time
            s.pop()
            for i, e in pend:
                s.push(); s.add(zb(not_(e)))
                if s.check() != z3.unsat: bad.add(i)
                s.pop()
            break
        m = s.model()
        s.pop()
        k = [(i, e) for i, e in pend if z3.is_false(m.eval(e, model_completion=True))]
        if not k:
            # not decided by the model: test singly
            for i, e in pend:
                s.push(); s.add(zb(not_(e)))
                if s.check() != z3.unsat: bad.add(i)
                s.pop()
            break
        ki = {i for i, _ in k}
        bad |= ki
        pend = [x for x in pend if x[0] not in ki]
    VC.STATS["seconds"] += time.time() - t0
    return bad


def progress(ex, hs, latches, live, names):
    """A loop variable that grows (or shrinks) every time round and is bounded."""
    if not latches: return "does not repeat"
    th = ex.th
    for k, n in names.items():
        if z3.is_bool(n): continue
        for sgn in (1, -1):
            good = True
            for ls in latches:
                try: w = leafval(ls, *k)
                except KeyError: good = False; break
                # strictly monotone, and bounded by a machine integer's range on the way
                if th.check(ls.pc, zb(lt(n, w)) if sgn == 1 else zb(lt(w, n)))[0] != "proved": good = False; break
            if good: return f"{'up' if sgn == 1 else 'down'} {k[0][1]}{k[1]}"
    return None
