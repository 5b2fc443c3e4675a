"""Theory of texts (bytes, characters, first/last occurrence, folds) and the prover. Every axiom is instantiated on the
terms that occur in an obligation; what is sent to z3 is quantifier-free."""
import z3, time
from val import *

STATS = {"queries": 0, "seconds": 0.0, "unknown": 0}


def ranges(m):
    out, i = [], 0
    while i < 256:
        if m >> i & 1:
            j = i
            while j + 1 < 256 and m >> (j + 1) & 1:
                j += 1
            out.append((i, j)); i = j
        i += 1
    return out


def inmask(m, x):
    """x is a byte"""
    if not isz(x):
        return bool(m >> x & 1)
    if m == 0: return False
    if m == (1 << 256) - 1: return True
    rs = ranges(m)
    neg = (1 << 256) - 1 - m
    if len(ranges(neg)) < len(rs):
        return z3.Not(zb(inmask(neg, x)))
    return z3.Or([x == a if a == b else z3.And(*( [x >= a] if a > 0 else []), *([x <= b] if b < 255 else [])) for a, b in rs])


def mask_of(f):
    m = 0
    for i in range(256):
        if f(i): m |= 1 << i
    return m


def mask_chars(s):
    m = 0
    for c in (s if isinstance(s, bytes) else s.encode()): m |= 1 << c
    return m


FULL = (1 << 256) - 1


class Fold:
    """Left fold over the bytes (or characters) of s from position start; comps: {name: (sort, init)}; step(prev, x, i, nxt) -> dict.
    mono: names of comps that never decrease (ints) / never come back once lost (bools) - each proved from step by lemmas()."""
    def __init__(self, name, s, start, comps, step, chars=False, mono=(), lemmas=(), frozen=None, latch=()):
        self.name, self.s, self.start, self.comps, self.step, self.chars, self.mono = name, s, start, comps, step, chars, mono
        self.f = {c: z3.Function(f"{name}.{c}", Str, I, so) for c, (so, _) in comps.items()}
        self._tp = None
        self.latch = () if chars else latch     # a component that, when it changes, becomes the position of the change or a later one
        self.frozen = frozen     # boolean component: once false, no component changes any more
        self.extra = lemmas      # (name, f(fold values, i) -> formula true at every position)

    def templates(self):
        """The axioms with the positions left open: !p, and !q for a later one."""
        if self._tp is not None: return self._tp
        F, st0, p, q = self, zi(self.start), VP, VQ
        pair = []
        if F.mono:
            g = z3.And(st0 <= p, p <= q, q <= LEN(F.s))
            pair.append(z3.Implies(g, z3.And([F(c, p) <= F(c, q) if F.comps[c][0] == I else z3.Implies(F(c, q), F(c, p)) for c in F.mono])))
            pair += [z3.Implies(g, z3.Or(F(c, q) == F(c, p), F(c, q) >= p)) for c in F.latch]
            if F.frozen: pair.append(z3.Implies(z3.And(g, z3.Not(F(F.frozen, p))), z3.And([F(c, p) == F(c, q) for c in F.comps])))
        g = z3.And(st0 <= p, p <= LEN(F.s), *([BND(F.s, p)] if F.chars else []))
        one = [z3.Implies(g, zb(lf(F.at(p), p))) for nm, lf in F.extra]
        x = CH(F.s, p) if F.chars else AT(F.s, p)
        g = z3.And(st0 <= p, p < LEN(F.s), BND(F.s, p)) if F.chars else z3.And(st0 <= p, p < LEN(F.s))
        new = F.step(F.at(p), x, p, q)
        step = z3.Implies(g, z3.And([F(c, q) == (zb(new[c]) if F.comps[c][0] == B else zi(new[c])) for c in F.comps]))
        self._tp = {"pair": pair, "one": one, "step": step}
        return self._tp

    def __call__(self, c, i):
        return self.f[c](self.s, zi(i))

    def at(self, i):
        return {c: self(c, i) for c in self.comps}


import z3.z3 as _zz
CTX = z3.main_ctx().ref()
G_id, G_kind, G_nargs, G_arg, G_decl, G_dkind = [getattr(_zz, n).__defaults__[-1].f for n in
    ("Z3_get_ast_id", "Z3_get_ast_kind", "Z3_get_app_num_args", "Z3_get_app_arg", "Z3_get_app_decl", "Z3_get_decl_kind")]
APP, UNINT = z3.Z3_APP_AST, z3.Z3_OP_UNINTERPRETED

VP, VQ = z3.Int("!p"), z3.Int("!q")


class Theory:
    def __init__(self):
        self.masks = {}
        self.folds = []
        self.consts = {}
        self.constax = []
        self.uf = {}          # decl name -> f(*args) -> [facts]
        self.pair = {}        # decl name -> f(args1, args2) -> [facts]
        self.inrange = {}     # predicate name -> byte mask of every position of its range
        self.outset = {}      # text function name -> (guard predicate, byte mask of its result)
        self.cats, self.catkeys = {}, {}      # built texts: term id -> (term, pieces)
        self.dlen = {}        # base term -> concrete length known (bookkeeping for digit strings)
        self.cache = {}
        self.timeout = 8000
        self.rounds = 3

    def mid(self, m):
        if m not in self.masks:
            k = len(self.masks)
            self.masks[m] = (k, z3.Function(f"FIRST_{k}", Str, I, I), z3.Function(f"LAST_{k}", Str, I, I))
        return self.masks[m]

    def first(self, m, s, lo): return self.mid(m)[1](s, zi(lo))
    def last(self, m, s, hi): return self.mid(m)[2](s, zi(hi))

    def const(self, b):
        if b not in self.consts:
            t = z3.Const("str:" + b.decode("latin1"), Str)
            self.consts[b] = t
            self.constax.append((t, [LEN(t) == len(b)] + [AT(t, z3.IntVal(i)) == c for i, c in enumerate(b)]))
        return self.consts[b]

    # -- term collection
    def collect(self, e, into, seen):
        """Adds the uninterpreted applications below e; seen: nodes visited already (straight on z3's C interface: this is hot)."""
        c = CTX
        keep = seen.setdefault("keep", [])
        keep.append(e)
        st = [e.ast]
        while st:
            x = st.pop()
            i = G_id(c, x)
            if i in seen: continue
            seen[i] = 1
            if G_kind(c, x) == APP:
                n = G_nargs(c, x)
                if n:
                    if G_dkind(c, G_decl(c, x)) == UNINT: into[i] = _zz._to_expr_ref(x, z3.main_ctx())
                    for k in range(n): st.append(G_arg(c, x, k))

    def instances(self, exprs, rounds=3):
        """All axiom instances on the terms of exprs (and on those of the instances, to a fixed depth)."""
        terms = {}
        seen = {}
        for e in exprs: self.collect(e, terms, seen)
        facts, done, quiet = [], set(), []      # quiet: facts without new terms
        by_mask = {}
        for m, (k, f, l) in self.masks.items():
            by_mask[f"FIRST_{k}"] = ("F", m); by_mask[f"LAST_{k}"] = ("L", m)
        fold_of = {}
        for F in self.folds:
            for c in F.comps: fold_of[f"{F.name}.{c}"] = (F, c)

        def emit(key, mk):
            if key in done: return
            done.add(key)
            r = mk()
            for x in (r if isinstance(r, list) else [r]):
                if isinstance(x, bool):
                    if not x: facts.append(z3.BoolVal(False))
                    continue
                facts.append(x)

        used_consts = set()
        for rnd in range(rounds):
            ats, chs, bnds, firsts, lasts, comps, lens, ufs = [], [], [], [], [], [], [], []
            for t in list(terms.values()):
                n = t.decl().name()
                if n == "AT": ats.append(t)
                elif n in ("CH", "CW"): chs.append(t)
                elif n == "BND": bnds.append(t)
                elif n == "LEN": lens.append(t)
                elif n in by_mask: (firsts if by_mask[n][0] == "F" else lasts).append((by_mask[n][1], t))
                elif n in fold_of: comps.append((fold_of[n], t))
                elif n in self.uf or n in self.pair: ufs.append(t)
            start = len(facts)
            for t, ax in self.constax:
                if t.get_id() not in used_consts and any(x.num_args() and x.arg(0).eq(t) for x in terms.values()):
                    used_consts.add(t.get_id())
                    facts.extend(ax)
            if self.cats:
                import fmtc
                for t in list(terms.values()):
                    if not (t.num_args() and t.arg(0).sort() == Str): continue
                    hit = self.cats.get(t.arg(0).get_id())
                    if hit is None: continue
                    ct, ps = hit
                    emit(("cat", ct.get_id()), lambda: fmtc.cat_facts(self, ct, ps))
                    n = t.decl().name()
                    if n == "AT": emit(("cata", t.get_id()), lambda: fmtc.cat_at(self, ct, ps, t))
                    elif n in ("CH", "CW", "BND"): emit(("catc", ct.get_id(), t.arg(1).get_id()), lambda: fmtc.cat_char(self, ct, ps, t.arg(1)))
                    elif n in by_mask and by_mask[n][0] == "F" and ps[0].view is not None:
                        emit(("catfi", t.get_id()), lambda: fmtc.cat_first(self, by_mask[n][1], ps[0].view, t))
                    elif t.num_args() >= 3 and (n[:3] in ("OK_", "VAL") or n.startswith("IDNA")): emit(("catf", t.get_id()), lambda: fmtc.cat_fn(self, ct, ps, t))
            for t in lens:
                emit(("len", t.get_id()), lambda: [t >= 0, t <= 2 ** 63 - 1])
            atkey = {}
            for t in ats:
                s, i = t.arg(0), t.arg(1)
                atkey[(s.get_id(), i.get_id())] = t
                emit(("at", t.get_id()), lambda: [t >= 0, t <= 255])
            chars_used = bool(chs or bnds)
            if chars_used and rnd < 2:
                for t in ats:
                    s, i = t.arg(0), t.arg(1)
                    emit(("bat", t.get_id()), lambda: [
                        z3.Implies(z3.And(0 <= i, i < LEN(s)), z3.And(BND(s, i) == z3.Or(i == 0, t < 128, t >= 192),
                                   z3.Implies(t < 128, BND(s, simp(i + 1) if isz(simp(i + 1)) else zi(simp(i + 1))))))])
            for t in bnds:
                s, i = t.arg(0), t.arg(1)
                emit(("bnd", t.get_id()), lambda: [z3.Implies(z3.Or(i == 0, i == LEN(s)), t), z3.Implies(t, z3.And(0 <= i, i <= LEN(s)))])
            seen_ch = set()
            for t in chs:
                s, i = t.arg(0), t.arg(1)
                if (s.get_id(), i.get_id()) in seen_ch: continue
                seen_ch.add((s.get_id(), i.get_id()))
                c, w, a = CH(s, i), CW(s, i), AT(s, i)
                emit(("ch", s.get_id(), i.get_id()), lambda: [
                    z3.Implies(z3.And(0 <= i, i < LEN(s), BND(s, i)), z3.And(
                        w == z3.If(c < 0x80, 1, z3.If(c < 0x800, 2, z3.If(c < 0x10000, 3, 4))), i + w <= LEN(s), BND(s, simp(i + w)),
                        c >= 0, c <= 0x10FFFF, z3.Or(c < 0xD800, c > 0xDFFF), z3.If(c < 128, a == c, a >= 192)))])
                for a2 in ats:
                    if a2.arg(0).eq(s):
                        j = a2.arg(1)
                        emit(("chat", s.get_id(), i.get_id(), a2.get_id()), lambda: [z3.Implies(z3.And(0 <= i, i < LEN(s), BND(s, i), i < j, j < i + w), z3.And(a2 >= 128, a2 <= 191))])
            for m, t in firsts:
                s, lo = t.arg(0), t.arg(1)
                emit(("first", t.get_id()), lambda: [z3.Implies(z3.And(0 <= lo, lo <= LEN(s)), z3.And(lo <= t, t <= LEN(s), z3.Implies(t < LEN(s), inmask(m, AT(s, t)))))])
                for a in ats:
                    if a.arg(0).eq(s):
                        emit(("firstat", t.get_id(), a.get_id()), lambda: [z3.Implies(z3.And(0 <= lo, lo <= a.arg(1), a.arg(1) < t), z3.Not(zb(inmask(m, a))))])
                for m2, t2 in firsts:
                    if m2 == m and not t2.eq(t) and t2.arg(0).eq(s):
                        emit(("firstp", t.get_id(), t2.get_id()), lambda: [z3.Implies(z3.And(0 <= lo, lo <= t2.arg(1), t2.arg(1) <= t, t <= LEN(s)), t == t2)])
            for m, t in lasts:
                s, hi = t.arg(0), t.arg(1)
                emit(("last", t.get_id()), lambda: [z3.Implies(z3.And(0 <= hi, hi <= LEN(s)), z3.And(-1 <= t, t < hi, z3.Implies(t >= 0, inmask(m, AT(s, t)))))])
                for a in ats:
                    if a.arg(0).eq(s):
                        emit(("lastat", t.get_id(), a.get_id()), lambda: [z3.Implies(z3.And(hi <= LEN(s), 0 <= a.arg(1), t < a.arg(1), a.arg(1) < hi), z3.Not(zb(inmask(m, a))))])
                for m2, t2 in lasts:
                    if m2 == m and not t2.eq(t) and t2.arg(0).eq(s):
                        emit(("lastp", t.get_id(), t2.get_id()), lambda: [z3.Implies(z3.And(0 <= hi, hi <= LEN(s), t < t2.arg(1), t2.arg(1) <= hi), t == t2)])
            # folds
            for F in self.folds:
                poss = {}
                for (F2, c), t in comps:
                    if F2 is F: poss[t.arg(1).get_id()] = t.arg(1)
                if not poss and rnd > 0: continue
                src = chs if F.chars else ats
                st0 = zi(F.start)
                if poss:
                    emit(("finit", F.name), lambda: [F(c, st0) == zi(zb(init)) if so == I else F(c, st0) == zb(init) for c, (so, init) in F.comps.items()])
                    for t in src:
                        if not t.arg(0).eq(F.s): continue
                        i = t.arg(1)
                        x = CH(F.s, i) if F.chars else AT(F.s, i)
                        nx = simp(i + CW(F.s, i)) if F.chars else simp(i + 1)
                        def mk(): return [z3.substitute(F.templates()["step"], (VP, i), (VQ, zi(nx)))]
                        emit(("fstep", F.name, i.get_id()), mk)
                    ps = list(poss.values())
                    tp = F.templates()
                    new_ = [p for p in ps if ("fpos", F.name, p.get_id()) not in done]
                    old_ = [p for p in ps if ("fpos", F.name, p.get_id()) in done]
                    for p in new_: done.add(("fpos", F.name, p.get_id()))
                    if F.mono:
                        for p in new_:
                            for q in ps:
                                if p is q: continue
                                for T in tp["pair"]: quiet.append(z3.substitute(T, (VP, p), (VQ, q)))
                        for p in old_:
                            for q in new_:
                                for T in tp["pair"]: quiet.append(z3.substitute(T, (VP, p), (VQ, q)))
                    for p in new_:
                        for T in tp["one"]: facts.append(z3.substitute(T, (VP, p)))
            for t in list(terms.values()):
                n = t.decl().name()
                if n in self.inrange:
                    s, lo, hi = t.children()
                    for a in ats:
                        if a.arg(0).eq(s):
                            emit(("inr", t.get_id(), a.get_id()), lambda: [z3.Implies(z3.And(t, lo <= a.arg(1), a.arg(1) < hi), zb(inmask(self.inrange[n], a)))])
                elif n in self.outset:
                    g, mk = self.outset[n]
                    for a in ats:
                        if a.arg(0).eq(t):
                            emit(("outs", t.get_id(), a.get_id()), lambda: [z3.Implies(z3.And(g(*t.children()), 0 <= a.arg(1), a.arg(1) < LEN(t)), zb(inmask(mk, a)))])
            for t in ufs:
                n = t.decl().name()
                if n in self.uf:
                    emit(("uf", t.get_id()), lambda: self.uf[n](*t.children()))
                if n in self.pair:
                    for t2 in ufs:
                        if t2.decl().name() == n and not t2.eq(t):
                            emit(("ufp", t.get_id(), t2.get_id()), lambda: self.pair[n](t.children(), t2.children()))
            if len(facts) == start: break
            for f in facts[start:]: self.collect(f, terms, seen)
        return facts + quiet

    def solver(self, hyps):
        s = z3.Solver()
        s.set("timeout", self.timeout)
        return s

    def key(self, hyps, goal):
        """What identifies a query (the terms must be kept alive for as long as it is used)."""
        if isinstance(goal, bool): return None
        return (tuple(sorted(zb(h).get_id() for h in hyps)), goal.get_id())

    def check(self, hyps, goal):
        """(verdict, model): 'proved', 'refuted', 'unknown' for hyps => goal."""
        if goal is True: return "proved", None
        hyps = [zb(h) for h in hyps]
        key = self.key(hyps, goal)
        if key in self.cache:
            STATS["again"] = STATS.get("again", 0) + 1
            return "proved", None
        ng = zb(not_(goal)) if not isinstance(goal, bool) else z3.BoolVal(True)
        t0 = time.time()
        es = hyps + [ng]
        facts = self.instances(es, self.rounds)
        s = self.solver(hyps)
        s.add(*es); s.add(*facts)
        r = s.check()
        STATS["queries"] += 1
        STATS["seconds"] += time.time() - t0
        if r == z3.unsat:
            if key is not None: self.cache[key] = (hyps, goal)        # kept alive, so that the ids stay theirs
            return "proved", None
        if r == z3.sat: return "refuted", s.model()
        STATS["unknown"] += 1
        return "unknown", None

    def prove_eq(self, hyps, a, b):
        """a == b, by matching linear forms first."""
        if same(a, b): return "proved", None
        if isz(a) and isz(b) and a.sort() == I:
            ma, ca = monos(simp(a)); mb, cb = monos(simp(b))
            if len(ma) > 2 and ca == cb:
                for k in list(ma):
                    if k in mb and mb[k][0] == ma[k][0]: del ma[k], mb[k]
                A = sorted(ma.values(), key=lambda x: x[0]); Bs = sorted(mb.values(), key=lambda x: x[0])
                if [x[0] for x in A] == [x[0] for x in Bs] and len(set(x[0] for x in A)) == len(A):
                    for (k, x), (_, y) in zip(A, Bs):
                        v, m = self.check(hyps, x == y)
                        if v != "proved": return v, m
                    return "proved", None
        return self.check(hyps, eq(a, b))

    def lemma_obligations(self):
        """The monotonicity facts used for folds, proved from their steps."""
        out = []
        for F in self.folds:
            prev = {c: z3.Const(f"p_{c}", so) for c, (so, _) in F.comps.items()}
            x, i, n = z3.Int("x"), z3.Int("i"), z3.Int("n")
            st0 = z3.Int("st0")
            hy = [x >= 0, x <= 0x10FFFF if F.chars else x <= 255, i >= st0, st0 >= 0, n > i, n <= i + (4 if F.chars else 1)]
            lem = [zb(lf(prev, i)) for _, lf in F.extra]
            new = F.step(prev, x, i, n)
            for c in F.mono:
                g = prev[c] <= new[c] if F.comps[c][0] == I else z3.Implies(zb(new[c]), prev[c])
                out.append((f"{F.name}: {c} is monotone", hy + lem, g))
            for c in F.latch:
                out.append((f"{F.name}: {c} stays or becomes a later position", hy + lem, z3.Or(zi(new[c]) == prev[c], zi(new[c]) >= i)))
            if F.frozen:
                out.append((f"{F.name}: nothing changes once not {F.frozen}", hy + lem, z3.Implies(z3.Not(prev[F.frozen]), z3.And([(zb(new[c]) if F.comps[c][0] == B else zi(new[c])) == prev[c] for c in F.comps]))))
            for nm, lf in F.extra:
                init = {c: (zi(v) if so == I else zb(v)) for c, (so, v) in F.comps.items()}
                out.append((f"{F.name}: {nm} initially", [F.start >= 0] if isz(F.start) else [], zb(lf(init, zi(F.start)))))
                out.append((f"{F.name}: {nm} preserved", hy + lem, zb(lf(new, n))))
        return out
