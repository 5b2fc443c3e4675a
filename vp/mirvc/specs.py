"""The contracts, written from the property texts: for a validated type, the formula of acceptance over the text and the value."""
import z3
from val import *
import vc as VC
import contracts as K
import vtypes

S = z3.Const("S", Str)
MUST, ALLOW, NO = 0, 1, 2


def whole(): return View(S, 0, LEN(S), "str")


def make(t, job):
    return globals()["spec_" + t.kind](t, job)


def field(v, i=0):
    if isinstance(v, Agg): return v.fields[i]
    raise Unsupported(f"value {v}")


def named(v, n):
    names = getattr(v, "names", None)
    if names is None: raise Unsupported("field names")
    return v.fields[names.index(n)]


POINTWISE = None


def text_is(v, w):
    """The text value v is exactly the view w."""
    while isinstance(v, (Owned, VRef)): v = v.view if isinstance(v, Owned) else v.v
    if POINTWISE:       # character by character, for an arbitrary position k; bare: v without its root dot
        k, bare = POINTWISE
        hi = name_end(v.s, v.lo, v.hi) if bare else v.hi
        n = sub(hi, v.lo)
        return and_(eq(n, sub(w.hi, w.lo)), implies(and_(le(0, k), lt(k, n)), eq(AT(v.s, zi(add(v.lo, k))), AT(w.s, zi(add(w.lo, k))))))
    x = and_(eq(v.s, w.s), eq(v.lo, w.lo), eq(v.hi, w.hi))
    if x is True or K.SAME is None: return x
    return or_(x, and_(eq(v.lo, 0), eq(v.hi, LEN(v.s)), K.SAME(v.s, w.s, zi(w.lo), zi(w.hi))))


def same_text(v, me): return [("unchanged", text_is(field(v), whole()))]


# ---- base-N -----------------------------------------------------------------------------------------------------
ALPHA = {"base32": (K.B32, 8, 5), "base64": (K.B64, 4, 6), "base64_url": (K.B64U, 4, 6)}
EQ = 1 << 61


def spec_basen(t, job):
    k = t.kind.replace("_decoded", "")
    alpha, block, bits = ALPHA[k]
    th = job.th
    wf, d = K.wellformed(th, whole(), alpha, block, bits, {MUST: True, ALLOW: None, NO: False}[t.cfg[0]])
    acc = and_(lt(0, LEN(S)), wf)
    sp = {"firsts": [(VC.FULL ^ alpha, S, 0), (EQ, S, 0)], "masks": [(VC.FULL ^ EQ, S)], "value": same_text}
    if t.kind.endswith("_decoded"):
        c, txt = K.canon(job.std, alpha, whole(), d)
        acc = and_(acc, c)
        sp["value"] = lambda v, me: [("decoded bytes", text_is(field(v), View(txt, 0, LEN(txt))))]
    sp["acc"] = acc
    return sp


for _k in ALPHA:
    globals()["spec_" + _k] = spec_basen
    globals()["spec_" + _k + "_decoded"] = spec_basen


# ---- text, line ---------------------------------------------------------------------------------------------------
def spec_text(t, job):
    from stdc import is_ws
    th = job.th
    by, mn, tm, mx = t.cfg
    bad = VC.mask_of(lambda b: (b < 32 or b == 127) and b != 9 and not (t.kind == "text" and b in (10, 11, 13)))
    acc = [le(LEN(S), th.first(bad, S, 0))]
    sp = {"firsts": [(bad, S, 0)], "masks": [], "value": same_text, "folds": []}
    need_fold = tm is not None and tm >= 0 or (not by and (mn >= 0 or mx >= 0))
    if need_fold:
        comps = {"n": (I, 0)}
        trim = tm >= 0
        if trim: comps.update({"w": (B, True), **({"fb": (I, 0), "eb": (I, 0)} if by else {"f": (I, 0), "e": (I, 0)})})
        if by: del comps["n"]

        def step(p, x, i, nx):
            r = {}
            if not by: r["n"] = p["n"] + 1
            if trim:
                ws = zb(is_ws(x))
                r["w"] = z3.And(p["w"], ws)
                if by:
                    r["fb"] = z3.If(z3.And(p["w"], ws), nx, p["fb"])
                    r["eb"] = z3.If(ws, p["eb"], nx)
                else:
                    r["f"] = z3.If(z3.And(p["w"], ws), p["n"] + 1, p["f"])
                    r["e"] = z3.If(ws, p["e"], p["n"] + 1)
            return r
        lem = []
        if not by: lem.append(("count", lambda v, i: z3.And(0 <= v["n"], v["n"] <= i)))
        if trim:
            a, b = ("fb", "eb") if by else ("f", "e")
            tot = (lambda v, i: i) if by else (lambda v, i: v["n"])
            lem.append(("trim bounds", lambda v, i: z3.And(0 <= v[a], v[a] <= tot(v, i), 0 <= v[b], v[b] <= tot(v, i),
                                                           z3.If(v["w"], z3.And(v[a] == tot(v, i), v[b] == 0), v[a] < v[b]))))
        F = VC.Fold("T", S, 0, comps, step, chars=True, mono=tuple(c for c in comps), lemmas=lem)
        sp["folds"] = [F]
    total = LEN(S) if by else (F("n", LEN(S)) if need_fold else None)
    if mn >= 0 and not (mn == 0): acc.append(le(mn, total))
    if mx >= 0: acc.append(le(total, mx))
    if tm >= 0:
        a, b = ("fb", "eb") if by else ("f", "e")
        acc.append(zi(tm) <= z3.If(F("w", LEN(S)), 0, F(b, LEN(S)) - F(a, LEN(S))))
    sp["acc"] = and_(*acc)
    return sp


spec_line = spec_text


# ---- MAC address, UUID ----------------------------------------------------------------------------------------------
def hexval(b): return ite(le(b, 57), sub(b, 48), ite(le(b, 70), sub(b, 55), sub(b, 87)))


def spec_groups(groups, t):
    case, m, sep = t.cfg
    hexm = VC.mask_of(lambda b: 48 <= b <= 57 or case != 2 and 65 <= b <= 70 or case != 1 and 97 <= b <= 102)
    i, acc, v, digits = 0, [], 0, []
    n = sum(groups)
    for k, g in enumerate(groups):
        if k and m != NO:
            c = eq(AT(S, zi(i)), sep)
            if m == MUST: acc.append(c); i = add(i, 1)
            else: i = add(i, ite(c, 1, 0))
        for _ in range(g):
            b = AT(S, zi(i))
            acc.append(VC.inmask(hexm, b))
            n -= 1
            v = add(v, mul(16 ** n, hexval(b)))
            digits.append(hexval(b))
            i = add(i, 1)
    acc.insert(0, eq(LEN(S), i))
    return {"acc": and_(*acc), "value": lambda x, me: [("number", (field(x), v))], "groups": groups, "digits": digits}


def spec_mac_address(t, job): return spec_groups([2] * 6, t)
def spec_uuid(t, job): return spec_groups([8, 4, 4, 4, 12], t)


# ---- addresses ------------------------------------------------------------------------------------------------------
L = LEN(S)
COLON = 1 << 58


def policy(cfg, b): return True if cfg == ALLOW else (b if cfg == MUST else not_(b))


def okp(th, t, lo, hi): return th.F[t][0](S, zi(lo), zi(hi))
def valp(th, t, lo, hi): return th.F[t][1](S, zi(lo), zi(hi))


class Case:
    """One way of reading the text: its condition, the address or name [lo, hi), and the port [plo, LEN) if has_port."""
    def __init__(self, kind, cond, lo, hi, port, plo=None):
        self.kind, self.cond, self.lo, self.hi, self.port, self.plo = kind, cond, lo, hi, port, plo

    def port_ok(self, th, cfg):
        if self.port is False: return cfg != MUST
        h = self.port
        return {MUST: and_(h, okp(th, "u16", self.plo, L)), ALLOW: implies(h, okp(th, "u16", self.plo, L)), NO: not_(h)}[cfg]

    def port_goals(self, th, cfg, v):
        if cfg == NO: return []
        if cfg == MUST: return [("port", eq(named(v, "port"), valp(th, "u16", self.plo, L)))]
        p = named(v, "port")
        g = [("port presence", iff(eq(p.discr, 1), self.port))]
        if self.port is not False and "Some" in p.pay: g.append(("port", implies(self.port, eq(p.pay["Some"][0], valp(th, "u16", self.plo, L)))))
        return g


def v6_cases(th):
    br = and_(lt(0, L), eq(AT(S, zi(0)), 91))
    closed = and_(le(2, L), eq(AT(S, simp(L - 1)), 93))
    c = th.last(COLON, S, L)
    okA, okB = okp(th, "Ipv6Addr", 1, sub(L, 1)), okp(th, "Ipv6Addr", 1, sub(c, 1))
    return [Case("6", and_(br, closed, okA), 1, sub(L, 1), False),
            Case("6", and_(br, not_(closed), le(2, c), eq(AT(S, simp(c - 1)), 93), okB), 1, sub(c, 1), True, add(c, 1)),
            Case("6", and_(not_(br), okp(th, "Ipv6Addr", 0, L)), 0, L, False)]


def rest_case(th, kind):
    """What is left when the text is no IPv6 address: up to the last colon, and the port after it."""
    c = th.last(COLON, S, L)
    h = le(0, c)
    return Case(kind, True, 0, ite(h, c, L), h, add(c, 1))


def not6(th): return and_(not_(and_(lt(0, L), eq(AT(S, zi(0)), 91))), not_(okp(th, "Ipv6Addr", 0, L)))


def addr_goal(th, kind, k, v):
    """The address value v is that of case k."""
    t = "Ipv4Addr" if k.kind == "4" else "Ipv6Addr"
    x = valp(th, t, k.lo, k.hi)
    if isinstance(v, Enum):
        var = {"IpAddr": {"4": "V4", "6": "V6"}, "Host": {"4": "IPv4", "6": "IPv6"}}[v.name][k.kind]
        import exec as X
        return and_(eq(v.discr, X.vidx(v.name, var)), eq(v.pay[var][0].term, x) if var in v.pay else False)
    if not isinstance(v, Opq): raise Unsupported(f"address {v}")
    return eq(v.term, x)


def spec_ip(t, job):
    th = job.th
    l, p = t.cfg
    cs = []
    if t.kind != "ipv4": cs += v6_cases(th)
    if t.kind != "ipv6":
        k = rest_case(th, "4")
        k.cond = and_(not6(th) if t.kind == "ip" else True, okp(th, "Ipv4Addr", k.lo, k.hi))
        cs.append(k)
    loc = lambda k: (th.LOC4 if k.kind == "4" else th.LOC6)(valp(th, "Ipv4Addr" if k.kind == "4" else "Ipv6Addr", k.lo, k.hi))
    conds = [and_(k.cond, k.port_ok(th, p), policy(l, loc(k))) for k in cs]

    def value(v, me):
        out = []
        for i, (k, c) in enumerate(zip(cs, conds)):
            if c is False: continue
            a = field(v) if p == NO else named(v, t.kind)
            out.append((f"address, reading {i}", implies(c, addr_goal(th, t.kind, k, a))))
            out += [(f"{n}, reading {i}", implies(c, g)) for n, g in k.port_goals(th, p, v)]
        return out
    return {"acc": or_(*conds), "value": value}


spec_ipv4 = spec_ipv6 = spec_ip


# ---- host names -----------------------------------------------------------------------------------------------------
DOT = 1 << 46


def name_end(t, lo, hi):
    """End of the name [lo, hi) of t without its root dot."""
    return ite(and_(lt(lo, hi), eq(AT(t, zi(sub(hi, 1))), 46)), sub(hi, 1), hi)


def ends_dot(t, lo, hi): return and_(lt(lo, hi), eq(AT(t, zi(sub(hi, 1))), 46))


def is_localhost(t, lo, hi):
    e = name_end(t, lo, hi)
    return and_(eq(sub(e, lo), 9), *[or_(eq(AT(t, zi(add(lo, i))), c), eq(AT(t, zi(add(lo, i))), c - 32)) for i, c in enumerate(b"localhost")])


def two_labels(th, t, lo, hi): return lt(th.first(DOT, t, lo), name_end(t, lo, hi))


def std_idna(job): return K.idna_fns(job.std, K.IDNA_STD)


class Named(Case):
    """A reading as a domain name whose ASCII form is t."""
    def __init__(self, cond, lo, hi, port, plo, t):
        Case.__init__(self, "d", cond, lo, hi, port, plo)
        self.t = t


def local_of(th, k):
    if k.kind == "d": return is_localhost(k.t, 0, LEN(k.t))
    if k.kind == "4": return th.LOC4(valp(th, "Ipv4Addr", k.lo, k.hi))
    return th.LOC6(valp(th, "Ipv6Addr", k.lo, k.hi))


def labels_ok(th, k, cfg, loc):
    """IP addresses have no labels to require, and are not single-label names."""
    return or_(loc, policy(cfg, two_labels(th, k.t, 0, LEN(k.t)))) if k.kind == "d" else cfg != NO


def host_goal(th, k, v):
    import exec as X
    if k.kind != "d": return addr_goal(th, "host", k, v)
    if "Domain" not in v.pay: return False
    w = v.pay["Domain"][0]
    return and_(eq(v.discr, X.vidx("Host", "Domain")), text_is(w, View(k.t, 0, LEN(k.t))))


def spec_host(t, job):
    th = job.th
    l, p, lab = t.cfg
    okf, out = std_idna(job)
    cs = v6_cases(th)
    k4, kd = rest_case(th, "4"), rest_case(th, "d")
    n6 = not6(th)
    k4.cond = and_(n6, okp(th, "Ipv4Addr", k4.lo, k4.hi))
    kd.t = out(S, zi(0), zi(kd.hi))
    kd.cond = and_(n6, not_(okp(th, "Ipv4Addr", kd.lo, kd.hi)), okf(S, zi(0), zi(kd.hi)), not_(ends_dot(kd.t, 0, LEN(kd.t))),
                   not_(th.F["Ipv4Addr"][0](kd.t, zi(0), LEN(kd.t))))
    cs += [k4, kd]
    locs = [local_of(th, k) for k in cs]
    conds = [and_(k.cond, k.port_ok(th, p), labels_ok(th, k, lab, x), policy(l, x)) for k, x in zip(cs, locs)]
    isl = l == ALLOW and lab != ALLOW

    def value(v, me):
        r = []
        for i, (k, c, x) in enumerate(zip(cs, conds, locs)):
            if c is False: continue
            h = named(v, "host") if p != NO or isl else field(v)
            r.append((f"host, reading {i}", implies(c, host_goal(th, k, h))))
            if isl: r.append((f"is_local, reading {i}", implies(c, iff(named(v, "is_local"), x))))
            r += [(f"{n}, reading {i}", implies(c, g)) for n, g in k.port_goals(th, p, v)]
        return r
    return {"acc": or_(*conds), "value": value}


def spec_domain(t, job):
    th = job.th
    v4, l, p, lab = t.cfg
    okf, out = std_idna(job)
    k4, kd = rest_case(th, "4"), rest_case(th, "d")
    d = kd.hi
    e = name_end(S, 0, d)
    is4 = okp(th, "Ipv4Addr", 0, e)
    k4.hi = e
    loc4 = th.LOC4(valp(th, "Ipv4Addr", 0, e))
    c4 = and_(is4, k4.port_ok(th, p), v4 != NO and lab != NO, policy(l, loc4))
    a = kd.t = out(S, zi(0), zi(d))
    locd = is_localhost(a, 0, LEN(a))
    # a name that only becomes an IPv4 address by IDNA mapping is neither
    becomes4 = th.F["Ipv4Addr"][0](a, zi(0), zi(name_end(a, 0, LEN(a))))
    cd = and_(not_(is4), kd.port_ok(th, p), v4 != MUST, okf(S, zi(0), zi(d)), v4 == l == lab == ALLOW or not_(becomes4), labels_ok(th, kd, lab, locd), policy(l, locd))
    isl = l == ALLOW and lab != ALLOW

    def value(v, me):
        r = []
        whole_ = p == NO and not isl
        for c, w, x4, loc, k in ((c4, View(S, 0, d), True, loc4, k4), (cd, View(a, 0, LEN(a)), False, locd, kd)):
            if c is False: continue
            n = "IPv4 address" if x4 else "name"
            r.append((f"domain, {n}", implies(c, text_is(field(v) if whole_ else named(v, "domain"), w))))
            if isl: r.append((f"is_local, {n}", implies(c, iff(named(v, "is_local"), loc))))
            if isl and v4 == ALLOW: r.append((f"is_ipv4, {n}", implies(c, iff(named(v, "is_ipv4"), x4))))
            r += [(f"{m}, {n}", implies(c, g)) for m, g in k.port_goals(th, p, v)]
        return r
    return {"acc": or_(c4, cd), "value": value}


# ---- email ----------------------------------------------------------------------------------------------------------
ATEXT = VC.mask_chars("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789!#$%&'*+-/=?^_`{|}~")
HIGH = VC.mask_of(lambda b: b >= 128)
SPEC = VC.mask_chars(". \t\\\"(),:;<>@[]")
PLAIN = VC.mask_chars(". \t")


def chr_at(i, c): return and_(le(0, i), lt(i, L), eq(AT(S, zi(i)), ord(c)))


def spec_email(t, job):
    th = job.th
    cm, ipc, l, lab, na = t.cfg
    okf, out = std_idna(job)
    at = ATEXT | (HIGH if na == ALLOW else 0)
    first = lambda c, i: th.first(VC.mask_chars(c), S, i)

    case, known = job.case, []

    def decide(c, k):
        """In case analysis: c is assumed to be the k-th choice of this case."""
        if case is None or isinstance(c, bool): return c
        known.append(c if case[k] else not_(c))
        return case[k]

    def comment(i, k=None):
        """(allowed and closed, whether there is one, its bounds, where the text goes on)"""
        h = chr_at(i, "(")
        if k is not None: h = decide(h, k)
        if cm == NO: return not_(h), False, 0, 0, i
        e = first(")", add(i, 1))
        return implies(h, lt(e, L)), h, add(i, 1), e, ite(h, add(e, 1), i)

    c1, h1, a1, b1, s0 = comment(0, 0)
    # quoted local part
    q0 = add(s0, 1)

    def qstep(p, x, i, nx):
        o, e = p["open"], p["esc"]
        m = lambda k: zb(VC.inmask(k, x))
        good = z3.If(e, m(at | SPEC), z3.Or(x == 92, m(at | PLAIN)))
        live = z3.And(o, good)
        return {"open": live, "esc": z3.If(live, z3.And(z3.Not(e), x == 92), e), "end": z3.If(z3.And(o, z3.Not(e), x == 34), i, p["end"]),
                "need": z3.If(live, z3.Or(p["need"], z3.Not(m(ATEXT | HIGH | DOT)), z3.And(p["ld"], x == 46)), p["need"]), "ld": z3.If(live, x == 46, p["ld"])}
    Q = VC.Fold("Q", S, q0, {"open": (B, True), "esc": (B, False), "end": (I, -1), "need": (B, False), "ld": (B, True)}, qstep, mono=("open", "end"), frozen="open", latch=("end",),
                lemmas=[("closed", lambda v, i: z3.And(v["end"] >= -1, v["end"] < i, z3.Implies(v["open"], v["end"] == -1)))])
    quoted = decide(chr_at(s0, '"'), 1)
    qe = Q("end", L)

    # dot-atom local part
    def ustep(p, x, i, nx):
        dot = x == 46
        return {"ok": z3.And(p["ok"], z3.If(dot, z3.Not(p["ld"]), zb(VC.inmask(at, x)))), "ld": dot}
    U = VC.Fold("U", S, s0, {"ok": (B, True), "ld": (B, True)}, ustep, mono=("ok",))
    ue = first("@(", s0)
    plo, phi = ite(quoted, q0, s0), ite(quoted, qe, ue)
    local_ok = and_(lt(s0, L), zb(ite(quoted, and_(lt(q0, qe), lt(qe, L)), and_(lt(ue, L), U("ok", ue), not_(U("ld", ue))))))
    need = and_(quoted, or_(Q("need", qe), Q("ld", qe)))
    e1 = ite(quoted, add(qe, 1), ue)
    c2, h2, a2, b2, e2 = comment(e1)
    d0 = add(e2, 1)
    at_ok = and_(chr_at(e2, "@"), le(e2, 64), lt(d0, L), le(sub(L, d0), 255))
    c3, h3, a3, b3, d1 = comment(d0)
    lit_ = chr_at(d1, "[")
    br = first("]", add(d1, 1))
    is6 = and_(le(add(d1, 6), L), *[eq(AT(S, zi(add(d1, 1 + i))), ch) for i, ch in enumerate(b"IPv6:")])
    k6 = Case("6", None, add(d1, 6), br, False)
    k4 = Case("4", None, add(d1, 1), br, False)
    pe = first("(", d1)
    kd = Named(None, d1, pe, False, None, out(S, zi(d1), zi(pe)))
    disp6 = LEN(job.std.ufn("DISPLAY_Ipv6Addr", I, Str)(valp(th, "Ipv6Addr", k6.lo, k6.hi)))
    rest = sub(L, d0)
    grows = lambda g: le(add(rest, g), 255)
    k6.cond = and_(lit_, lt(br, L), is6, okp(th, "Ipv6Addr", k6.lo, k6.hi), grows(sub(disp6, sub(k6.hi, k6.lo))))
    k4.cond = and_(lit_, lt(br, L), not_(is6), okp(th, "Ipv4Addr", k4.lo, k4.hi))
    kd.cond = and_(not_(lit_), okf(S, zi(d1), zi(pe)), not_(ends_dot(kd.t, 0, LEN(kd.t))), grows(sub(LEN(kd.t), sub(pe, d1))))
    te = ite(lit_, add(br, 1), pe)
    if cm == NO: c4, h4, a4, b4 = eq(te, L), False, 0, 0
    else:
        h4 = lt(te, L)
        a4, b4 = add(te, 1), first(")", add(te, 1))
        c4 = or_(eq(te, L), and_(chr_at(te, "("), eq(b4, sub(L, 1))))
    pre = and_(le(L, 320), c1, local_ok, c2, at_ok, c3, c4)
    cs = [k6, k4, kd]
    locs = [local_of(th, k) for k in cs]
    conds = [and_(pre, k.cond, policy(ipc, k.kind != "d"), labels_ok(th, k, lab, x), policy(l, x)) for k, x in zip(cs, locs)]
    acc = or_(*conds)
    isl = l == ALLOW and lab != ALLOW

    def value(v, me):
        r = [("local part", implies(acc, text_is(named(v, "local_part"), View(S, plo, phi)))), ("need_quoted", implies(acc, iff(named(v, "need_quoted"), need)))]
        d = named(v, "domain_part")
        for i, (k, c, x) in enumerate(zip(cs, conds, locs)):
            if c is False: continue
            r.append((f"domain part, {k.kind}", implies(c, text_is(d, View(k.t, 0, LEN(k.t))) if ipc == NO else host_goal(th, k, d))))
            if isl: r.append((f"is_local, {k.kind}", implies(c, iff(named(v, "is_local"), x))))
        if cm == ALLOW:
            for n, h, a, b in (("before_local_part", h1, a1, b1), ("after_local_part", h2, a2, b2), ("before_domain_part", h3, a3, b3), ("after_domain_part", h4, a4, b4)):
                o = named(v, "comment_" + n)
                r.append((f"comment {n}: presence", implies(acc, iff(eq(o.discr, 1), h))))
                if "Some" in o.pay: r.append((f"comment {n}", implies(and_(acc, h), text_is(o.pay["Some"][0], View(S, a, b)))))
        return r
    return {"acc": acc, "value": value, "conds": [c for c in conds if c is not False], "splits": [[lit_, quoted], [h1, h2]], "dbg": {"local_ok": local_ok, "c1": c1, "c2": c2, "at_ok": at_ok, "c3": c3, "lit": lit_, "kd.cond": kd.cond, "c4": c4, "k6": k6.cond, "k4": k4.cond, "d1": d1, "pe": pe, "br": br, "idna_ok": okf(S, zi(d1), zi(pe)), "lent": LEN(kd.t), "pre": pre, "L": L, "te": te, "grow": grows(sub(LEN(kd.t), sub(pe, d1))), "d0": d0}, "folds": [Q, U], "firsts": [(VC.mask_chars(")"), S, 1), (VC.mask_chars("@("), S, s0)], "masks": []}


# ---- booleans -----------------------------------------------------------------------------------------------------------
def word_is(v, w):
    """The view v is the word w, letters in either case."""
    return and_(eq(v.len(), len(w)), *[or_(eq(v.at(i), c), eq(v.at(i), c - 32)) if 97 <= c <= 122 else eq(v.at(i), c) for i, c in enumerate(w.encode())])


def spec_boolean(t, job):
    yes = or_(*[word_is(whole(), w) for w in ("y", "yes", "t", "true", "on", "1")])
    no = or_(*[word_is(whole(), w) for w in ("n", "no", "f", "false", "off", "0")])
    return {"acc": or_(yes, no), "value": lambda v, me: [("true or false", iff(field(v), yes))]}


# ---- delegating validators ------------------------------------------------------------------------------------------------
def delegated(job, n):
    return job.std.ufn("OK_" + n, Str, I, I, B)(S, z3.IntVal(0), LEN(S)), job.std.ufn("VAL_" + n, Str, I, I, I)(S, z3.IntVal(0), LEN(S))


def opaque(v):
    if isinstance(v, Opq): return v.term
    raise Unsupported(f"parsed value {v}")


def spec_plain(n):
    def spec(t, job):
        c, x = delegated(job, n)
        return {"acc": c, "value": lambda v, me: [("what the parser produced", eq(opaque(field(v)), x))]}
    return spec


spec_url, spec_semver, spec_semver_req = spec_plain("Url"), spec_plain("Version"), spec_plain("VersionReq")


def spec_json(t, job):
    return spec_plain("json<" + K.short_type(t.body[len("(pub "):-2]) + ">")(t, job)


def spec_regex(t, job):
    p = ["regex:^[0-9a-fA-F]+$", "static:RE_POKER"][t.cfg[0]]
    return {"acc": job.std.ufn("MATCH:" + p, Str, I, I, B)(S, z3.IntVal(0), LEN(S)), "value": same_text}


def spec_http(t, job):
    c, u = delegated(job, "Url")
    U = job.std.ufn
    names = ["http", "https", "ftp"][:2 if t.kind == "http_url" else 3]
    K.url_facts(job.std)
    pre = [and_(lt(len(n), LEN(S)), word_is(View(S, 0, len(n)), n), eq(AT(S, z3.IntVal(len(n))), 58)) for n in names]
    hk, d = U("URL_HOSTKIND", I, I)(u), U("URL_DOMAIN", I, Str)(u)
    loc = ite(eq(hk, 1), is_localhost(d, 0, LEN(d)), ite(eq(hk, 2), job.th.LOC4(U("URL_V4", I, I)(u)), job.th.LOC6(U("URL_V6", I, I)(u))))

    def value(v, me):
        r = [("the URL", eq(opaque(named(v, "url")), u))]
        if t.kind == "http_url": return r + [("is_https", iff(named(v, "is_https"), pre[1]))]
        import exec as X
        p = named(v, "protocol")
        return r + [(f"protocol {n}", implies(pre[i], eq(p.discr, X.vidx("Protocol", n.upper())))) for i, n in enumerate(names)]
    return {"acc": and_(c, or_(*pre), policy(t.cfg[0], loc)), "value": value}


spec_http_url = spec_http_ftp_url = spec_http


def spec_phone(t, job):
    """One reading per country (None: international): parsed, valid and of that country."""
    ids = vtypes.PHONE[t.cfg[0]] or [None]
    oks, vals, good = [], [], []
    for c in ids:
        okf, val = K.phone_fns(job.std, c)
        a = (S, z3.IntVal(0), LEN(S))
        x = val(*a)
        oks.append(okf(*a)); vals.append(x)
        g = K.phone_valid(job.std)(x)
        good.append(and_(okf(*a), g, eq(K.phone_country(job.std)(x), K.country_id(c)) if c else True))
    if len(ids) < 2: return {"acc": good[0], "value": lambda v, me: [("what the parser produced", eq(opaque(field(v)), vals[0]))]}

    def value(v, me):
        mp = field(v)
        r = []
        for c, g, x in zip(ids, good, vals):
            has, val = mp.get(K.country_id(c))
            r += [(f"{c} is there", iff(has, g)), (f"value of {c}", implies(g, eq(opaque(val), x) if val is not None else False))]
        return r
    # whether one country's parse error rejects the text is not specified
    return {"acc": or_(*good), "value": value, "pre": [implies(or_(*good), and_(*oks))]}
