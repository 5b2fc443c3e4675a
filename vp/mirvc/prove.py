"""Contracts of the public entry points, and the proof of each for one validated type."""
import re, time, z3, sys
from val import *
import val, vc as VC, exec as X, stdc, contracts as K, fmtc, load
import specs

S = z3.Const("S", Str)
R = z3.Const("R", Str)
FORMAT = ("to_mac_address_string", "to_uuid_string", "to_uri_authority_string", "serialize")


URI = ("ip", "ipv4", "ipv6", "host", "domain")


class Job:
    def __init__(self, crate, lib, t, deadline=None):
        self.crate, self.lib, self.t, self.deadline = crate, lib, t, deadline
        self.hints, self.spelled, self.uri = False, None, False
        self.results = []     # (obligation id, tag, verdict, seconds, counterexample texts)
        self.std_used, self.inlined, self.invs = {}, set(), []
        self.setup(None)

    def setup(self, case):
        """A fresh theory and executor; case: the choices of the case analysis that the contract asks for, or None."""
        self.case = case
        crate, lib, t = self.crate, self.lib, self.t
        self.th = th = VC.Theory()
        K.setup(th)
        self.std = stdc.Std(th)
        self.ex = ex = X.Exec(crate.fns, crate.consts, th, self.std)
        ex.impls, ex.lib, ex.statics, ex.visit = crate.impls, (lib.fns if lib else {}), crate.statics, crate.visit
        ex.deadline = self.deadline
        self.spec = specs.make(t, self)
        ex.spec_firsts = lambda: self.spec.get("firsts", [])
        ex.spec_masks = lambda: self.spec.get("masks", [])
        th.folds = self.spec.get("folds", [])
        self.fresh0 = val._fresh[0]

    def entry(self, me):
        k = self.crate.impls.get((self.t.name, me)) or self.crate.visit.get((self.t.name, me))
        return self.crate.fns[k] if k else None

    def arg_for(self, me):
        if me == "deserialize": return [Opq("TextDeserializer", z3.IntVal(0))]
        v = View(S, 0, LEN(S), "[u8]" if me in ("parse_u8_slice", "parse_vec_u8", "validate_u8_slice", "visit_bytes", "visit_byte_buf") else "str")
        if me in ("parse_string", "parse_vec_u8", "visit_string", "visit_byte_buf"): v = Owned(v)
        return [UNIT, v] if me.startswith("visit_") else [v]

    def prove(self, oid, tag, pc, goal, eqs=None):
        t0 = time.time()
        if goal is None: v, m = "unknown", None
        elif tag == "spec" and eqs is None: v, m = self.decide(pc, goal)
        else: v, m = self.th.check(pc, goal) if eqs is None else self.th.prove_eq(pc, *eqs)
        h = None
        if v == "refuted" and self.hints: h = self.candidates(pc, eq(*eqs) if eqs is not None else goal)
        self.results.append((oid, tag, v, time.time() - t0, h if self.hints else m))
        return v

    def decide(self, pc, goal):
        """A specification goal; a hard one is decided case by case (the cases cover everything: a formula and its negation)."""
        sp = [[zb(c) for c in grp if not isinstance(c, bool)] for grp in self.spec.get("splits", [])]
        sp = [grp for grp in sp if grp]
        t, unknown = self.th.timeout, False
        done = self.th.key(pc, goal)
        if done is not None and done in self.th.cache: return "proved", None
        todo = [(list(pc), 0)]
        try:
            while todo:
                hs, k = todo.pop()
                self.th.timeout = t if not sp else 10000 if k < len(sp) else 30000
                if sp and k and self.deadline and time.time() > self.deadline: return "unknown", None
                v, m = self.th.check(hs, goal)
                if v == "refuted": return v, m
                if v == "proved": continue
                if k == len(sp): unknown = True; continue
                for n in range(2 ** len(sp[k])):
                    todo.append((hs + [zb(not_(c)) if n >> i & 1 else c for i, c in enumerate(sp[k])], k + 1))
        finally: self.th.timeout = t
        if not unknown and done is not None: self.th.cache[done] = (list(pc), goal)
        return ("unknown" if unknown else "proved"), None

    def candidates(self, pc, goal):
        """Texts (hex) of counterexamples, short ones first."""
        out = []
        if self.uri:       # the parsed text is as free as the address or name in it: representative ones, tried on the real code
            hosts = ("8.8.8.8", "127.0.0.1", "[2606:4700::1111]", "[::1]", "2606:4700::1111", "::1", "example.com.", "localhost", "example", "a.b.example.com")
            return [(h + p).encode().hex() for p in (":80", "", ":0", ":65535") for h in hosts]
        if self.spelled:
            v, m = self.th.check(list(pc), goal)
            if v != "refuted": return out
            ev = lambda e: e if isinstance(e, int) else m.eval(e, model_completion=True).as_long()
            low = self.t.cfg[0] == 2
            hx = "0123456789abcdef" if low else "0123456789ABCDEF"
            return [bytes(ord(hx[ev(w) % 16]) if isz(w) else w for w in self.spelled).hex()]
        for n in (8, 20, 48, 400):
            v, m = self.th.check(list(pc) + [LEN(S) <= n], goal)
            if v == "refuted":
                out += [x.hex() for x in texts(m)]
                if len(out) >= 6: break
        return list(dict.fromkeys(out))

    def vacuity(self, me, outs):
        """Both verdicts are possible under the assumed contracts, and so is every kind of result."""
        base = f"{self.t.attr}/{me}"
        acc = self.spec["acc"]
        for nm, sts in (("accepting", [list(s.pc) + [zb(acc), zb(eq(v.discr, 0))] for s, v in outs]), ("rejecting", [list(s.pc) + [zb(not_(acc)), zb(eq(v.discr, 1))] for s, v in outs])):
            t0 = time.time()
            r = [self.th.check(p, False)[0] for p in sts]
            v = "proved" if "refuted" in r else "unknown"
            if nm == "accepting" and v == "unknown" and "conflict(Allow)" in self.t.attr and self.th.check([zb(acc)], False)[0] == "proved":
                v = "proved"      # a configuration whose policies contradict each other, declared as such: nothing is accepted
            self.results.append((f"{base}/some-text-is-{nm}", "vacuity", v, time.time() - t0, None))

    def run_entry(self, me):
        """Proves that this entry accepts exactly what the contract says and builds the specified value."""
        if self.entry(me) is None: return False
        if me in FORMAT:
            self.uri = self.t.kind in URI
            try: self.run_uri(me) if self.uri else self.run_format(me)
            finally:
                self.uri = False
                self.spelled = None
                for a, c in self.std.used.items(): self.std_used[a] = self.std_used.get(a, 0) + c
                self.std.used = {}
                self.inlined |= set(self.ex.inlined)
            return True
        n = self.spec.get("cases", 0)
        for k in range(2 ** n):
            if n: self.setup([bool(k >> i & 1) for i in range(n)])
            try:
                self.run_case(me, f"/case {''.join('ny'[b] for b in self.case)}" if n else "")
            finally:
                for a, c in self.std.used.items(): self.std_used[a] = self.std_used.get(a, 0) + c
                self.std.used = {}
                self.inlined |= set(self.ex.inlined)
                self.invs += self.ex.inv_report
                self.ex.inv_report = []
        for i, (nm, hy, g) in enumerate(self.th.lemma_obligations()):
            self.prove(f"{self.t.attr}/{me}/lemma {nm}", "spec", hy, g)
        return True

    def run_format(self, me):
        """Every value of the fixed-width number formats to its spelling; the contract of parsing takes the text and gives the value."""
        ex, t = self.ex, self.t
        ex.obls, ex.reported = [], set()
        base = f"{t.attr}/{me}"
        case, m, sep = t.cfg
        groups = self.spec["groups"]
        n = sum(groups)
        hs = [fresh("h", I, 0, 15) for _ in range(n)]
        v = 0
        for k, h in enumerate(hs): v = add(v, mul(16 ** (n - 1 - k), h))
        pre = [z3.And(0 <= h, h <= 15) for h in hs]
        args = [VRef(Agg([v], t.name))]
        if me == "serialize": args.append(Opq("PrimitiveSerializer", z3.IntVal(0)))
        outs = ex.run1(self.entry(me), args, X.St(pre))
        if not outs: raise Unsupported("no result")
        want, k = [], 0
        for g, w in enumerate(groups):
            if g and m != specs.NO: want.append(sep)
            want += hs[k:k + w]; k += w
        self.spelled = want
        for i, (s, r) in enumerate(outs):
            sfx = "" if len(outs) == 1 else f"#{i}"
            if isinstance(r, Enum):
                self.prove(f"{base}/serialises{sfx}", "spec", s.pc, eq(r.discr, 0))
                r = r.pay["Ok"][0]
            while isinstance(r, Owned): r = r.view
            if not isinstance(r, View): raise Unsupported("the text made")
            hit = self.th.cats.get(r.s.get_id())
            if hit is None or len(hit[1]) != 1 or hit[1][0].chars is None or not (r.lo == 0 and same(r.hi, LEN(r.s))): raise Unsupported("the text made is not spelled out")
            cs = hit[1][0].chars
            self.prove(f"{base}/length{sfx}", "spec", s.pc, len(cs) == len(want))
            if len(cs) != len(want): continue
            for j, (c, w) in enumerate(zip(cs, want)):
                if not isz(w): self.prove(f"{base}/separator at {j}{sfx}", "spec", s.pc, eq(c, w)); continue
                up, lo = (eq(c, ite(le(w, 9), add(w, 48), add(w, d))) for d in (55, 87))
                self.prove(f"{base}/digit at {j}{sfx}", "spec", s.pc, or_(up, lo) if case == 0 else up if case == 1 else lo)
            sub_ = [(AT(S, z3.IntVal(j)), zi(c)) for j, c in enumerate(cs)] + [(LEN(S), z3.IntVal(len(cs)))]
            def at_text(g):
                for _ in range(2 * len(cs)):
                    g2 = z3.simplify(z3.substitute(zb(g), *sub_))
                    if g2.eq(g): break
                    g = g2
                return lit(g2)
            self.prove(f"{base}/the same validator accepts it{sfx}", "spec", s.pc, at_text(self.spec["acc"]))
            # the contract's value is the sum of the digits weighted by powers of 16, and so is v: equal digit by digit
            for j, (d, h) in enumerate(zip(self.spec["digits"], hs)):
                self.prove(f"{base}/parses to the same number, digit {j}{sfx}", "spec", s.pc, at_text(eq(d, h)))
        for j, o in enumerate(ex.obls): self.prove(f"{base}/{o.kind}#{j}:{o.msg[:60]}", o.kind, o.pc, o.goal)

    def run_uri(self, me):
        """Every value that parsing some text R can give formats to a text that the contract of parsing accepts, with the same value."""
        ex, t, th = self.ex, self.t, self.th
        ex.obls, ex.reported = [], set()
        base = f"{t.attr}/{me}"
        parsed = ex.run1(self.entry("parse_str"), [View(R, 0, LEN(R), "str")], X.St([]))
        ex.obls, ex.reported = [], set()
        self.idna_again()
        n = 0
        for s, v in parsed:
            if "Ok" not in v.pay: continue
            s = s.assume(zb(eq(v.discr, 0)))
            if s is None or th.check(s.pc, False)[0] == "proved": continue
            v = v.pay["Ok"][0]
            args = [VRef(v)] + ([Opq("PrimitiveSerializer", z3.IntVal(0))] if me == "serialize" else [])
            for s2, r in ex.run1(self.entry(me), args, s):
                if isinstance(r, Enum) and me == "serialize":
                    self.prove(f"{base}/serialises#{n}", "spec", s2.pc, eq(r.discr, 0))
                    r = r.pay["Ok"][0]
                for pc, w in pieces_of(th, r):
                    self.round_trip(base, n, list(s2.pc) + pc, v, w)
                    n += 1
        if not n: self.prove(f"{base}/no text is accepted", "spec", [], not_(self.spec["acc"]))
        for j, o in enumerate(ex.obls): self.prove(f"{base}/{o.kind}#{j}:{o.msg[:60]}", o.kind, o.pc, o.goal)

    def idna_again(self):
        """The ASCII form of a name is its own ASCII form, also without its root dot (assumed of the idna crate)."""
        th = self.th
        okf, out = K.idna_fns(self.std, K.IDNA_STD)
        old = th.uf["IDNA_OK"]
        def facts(s, lo, hi):
            f = old(s, lo, hi)
            if s.decl().name() != "R": return f
            a = out(s, lo, hi)
            e = zi(specs.name_end(a, 0, LEN(a)))
            b = out(a, z3.IntVal(0), e)
            th.cats.setdefault(b.get_id(), (b, [fmtc.Piece(view=View(a, 0, e, "str"))]))
            return f + [z3.Implies(okf(s, lo, hi), z3.And(okf(a, z3.IntVal(0), e), e > 0, AT(a, e - 1) != 46, LEN(b) == e))]
        th.uf["IDNA_OK"] = facts

    def round_trip(self, base, n, pc, v, w):
        th = self.th
        if self.th.check(pc, False)[0] == "proved": return
        if not (same(w.lo, 0) and same(w.hi, LEN(w.s))) and th.check(pc, and_(eq(w.lo, 0), eq(w.hi, LEN(w.s))))[0] == "proved": w = View(w.s, 0, LEN(w.s), "str")
        if not (same(w.lo, 0) and same(w.hi, LEN(w.s)) and w.s.get_id() in th.cats):
            c = z3.Const(f"cat:{len(th.catkeys)}", Str)
            th.catkeys[("alone", c.get_id())] = c
            th.cats[c.get_id()] = (c, [fmtc.Piece(view=w)])
            w = View(c, 0, LEN(c), "str")
        T = w.s
        known = []
        def at(g):
            if isinstance(g, bool): return g
            g = z3.substitute(zb(g), (S, T))
            for o in ascii_forms(g, T):
                hit = [b for x, b in known if x.eq(o)]
                if not hit:
                    p = th.cats[T.get_id()][1][0]
                    if p.view is None or p.view.s.decl().name() != "IDNA": continue
                    a = p.view.s
                    b = K.idna_fns(self.std, K.IDNA_STD)[1](a, z3.IntVal(0), zi(specs.name_end(a, 0, LEN(a))))
                    if th.check(pc, o == b)[0] != "proved": continue
                    known.append((o, b)); hit = [b]
                g = z3.substitute(g, (o, hit[0]))
            return g
        def prove(oid, g):
            if self.prove(oid, "spec", pc, g) != "refuted" or not known: return
            self.results.pop()       # once more with the axioms instantiated deeper
            th.rounds = 4
            try: self.prove(oid, "spec", pc, g)
            finally: th.rounds = 3
        prove(f"{base}/the same validator accepts it#{n}", at(self.spec["acc"]))
        pc = pc + [zb(at(self.spec["acc"]))]
        specs.POINTWISE = z3.Int("!k"), self.t.kind == "domain"
        try: gs = self.spec["value"](v, "parse_str")
        finally: specs.POINTWISE = None
        for nm, g in gs: prove(f"{base}/parses to the same value:{nm}#{n}", at(g))

    def run_case(self, me, case):
        f = self.entry(me)
        ex = self.ex
        ex.obls = []
        ex.reported = set()
        ex.in_case = bool(case)
        val._fresh[0] = self.fresh0      # entries that run the same code meet the same terms, proved once
        outs = ex.run1(f, self.arg_for(me), X.St([zb(x) for x in self.spec.get("pre", [])]))
        acc = self.spec["acc"]
        base = f"{self.t.attr}/{me}{case}"
        for i, (s, v) in enumerate(outs):
            sfx = "" if len(outs) == 1 else f"#{i}"
            self.prove(f"{base}/accepts-exactly-the-specified{sfx}", "spec", s.pc, iff(eq(v.discr, 0), acc))
            if not me.startswith("validate") and "Ok" in v.pay:
                s2 = s.assume(zb(acc))
                s2 = s2.assume(eq(v.discr, 0)) if s2 is not None else None
                if s2 is not None:
                    gs = self.spec["value"](v.pay["Ok"][0], me)
                    pl = [g for _, g in gs if not isinstance(g, tuple)]
                    if len(pl) > 1:        # all at once first
                        t0 = time.time()
                        if self.th.check(s2.pc, and_(*pl))[0] == "proved":
                            for nm, g in gs:
                                if not isinstance(g, tuple): self.results.append((f"{base}/value:{nm}{sfx}", "spec", "proved", (time.time() - t0) / len(pl), None))
                            gs = [x for x in gs if isinstance(x[1], tuple)]
                    for nm, g in gs:
                        if isinstance(g, tuple): self.prove(f"{base}/value:{nm}{sfx}", "spec", s2.pc, None if False else True, eqs=g)
                        else: self.prove(f"{base}/value:{nm}{sfx}", "spec", s2.pc, g)
        if self.hints and not case: self.vacuity(me, outs)
        for j, o in enumerate(ex.obls):
            oid = f"{base}/{o.kind}#{j}:{o.msg[:60]}"
            if getattr(o, "verdict", None) == "proved": self.results.append((oid, o.kind, "proved", 0.0, None))
            else: o.verdict = self.prove(oid, o.kind, o.pc, o.goal)


def ascii_forms(g, t):
    """The ASCII forms of ranges of t that occur in g."""
    out, seen, st = {}, set(), [g]
    while st:
        e = st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().name() == "IDNA" and e.arg(0).eq(t): out[e.get_id()] = e
        st += e.children()
    return list(out.values())


def choose(v, k, c, t):
    """The view v of base t, where t is what its base is when condition k (c or its negation) holds."""
    sub_ = lambda x: x if not isz(x) else lit(simp(z3.simplify(z3.substitute(x, (c, z3.BoolVal(k is c)), (v.s, t)))))
    return View(t, sub_(v.lo), sub_(v.hi), v.kind)


def pieces_of(th, r):
    """[(conditions, text)]: the texts a result can be, with no choice left in a base."""
    while isinstance(r, (Owned, VRef)): r = r.view if isinstance(r, Owned) else r.v
    if isinstance(r, Enum):        # Cow
        out = []
        for k, nm in enumerate(("Borrowed", "Owned")):
            if nm in r.pay:
                c = eq(r.discr, k)
                if c is not False: out += [(([] if c is True else [zb(c)]) + p, w) for p, w in pieces_of(th, r.pay[nm][0])]
        return out
    if not isinstance(r, View): raise Unsupported(f"text {r}")
    if z3.is_app_of(r.s, z3.Z3_OP_ITE):
        c, a, b = r.s.children()
        return [([k] + p, w) for k, t in ((c, a), (z3.Not(c), b)) for p, w in pieces_of(th, choose(r, k, c, t))]
    hit = th.cats.get(r.s.get_id())
    if hit is not None and same(r.lo, 0) and same(r.hi, LEN(r.s)):
        for i, p in enumerate(hit[1]):
            if p.view is None or not z3.is_app_of(p.view.s, z3.Z3_OP_ITE): continue
            c, a, b = p.view.s.children()
            return [([k] + q, w) for k, t in ((c, a), (z3.Not(c), b))
                    for q, w in pieces_of(th, fmtc.cat(th, hit[1][:i] + [fmtc.Piece(view=choose(p.view, k, c, t))] + hit[1][i + 1:]))]
    return [([], r)]


def texts(m):
    """Byte strings that a model describes."""
    def ev(e):
        x = m.eval(e, model_completion=True)
        return x.as_long() if z3.is_int_value(x) else 0
    L = ev(LEN(S))
    if L > 400: return
    raw, txt, i = bytearray(), bytearray(), 0
    for k in range(L): raw.append(ev(AT(S, z3.IntVal(k))) % 256)
    yield bytes(raw)
    while i < L:
        a = raw[i]
        if a < 128: txt.append(a); i += 1; continue
        c = ev(CH(S, z3.IntVal(i)))
        try: e = chr(c).encode() if c >= 128 else "é".encode()
        except (ValueError, UnicodeEncodeError): e = "é".encode()
        txt += e; i += max(1, len(e))
    yield bytes(txt)
    # positions the model leaves open, filled with ordinary characters
    used = set(raw)
    for fill in (b"a", b"0", b"A"):
        yield bytes(b if b not in (0,) else fill[0] for b in raw)
