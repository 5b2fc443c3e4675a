"""Symbolic values. Machine integers are mathematical integers kept in range by explicit proof obligations or wrap terms;
texts are views [lo, hi) of a base text (a term of sort Str), so a slice of the input stays a slice of the input."""
import z3, functools

Str = z3.DeclareSort("Str")
I, B = z3.IntSort(), z3.BoolSort()
AT = z3.Function("AT", Str, I, I)       # byte
LEN = z3.Function("LEN", Str, I)
BND = z3.Function("BND", Str, I, B)     # UTF-8 character boundary
CH = z3.Function("CH", Str, I, I)       # character starting at a boundary
CW = z3.Function("CW", Str, I, I)       # its width


class Unsupported(Exception):
    pass


def isz(x):
    return isinstance(x, z3.ExprRef)


_simp = {}


def simp(e):
    if not isz(e):
        return e
    k = e.get_id()
    r = _simp.get(k)
    if r is None:
        s = z3.simplify(e, som=True)
        r = _simp[k] = (e, lit(s))
    return r[1]


def lit(s):
    if z3.is_int_value(s):
        return s.as_long()
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return s


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) and not isinstance(x, bool) else x


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def same(a, b):
    if isz(a) and isz(b):
        return a.eq(b)
    if isz(a) or isz(b):
        return False
    return a is b or (type(a) == type(b) and a == b)


def add(a, b):
    if not isz(a) and not isz(b):
        return a + b
    if not isz(a) and a == 0:
        return b
    if not isz(b) and b == 0:
        return a
    return simp(zi(a) + zi(b))


def sub(a, b):
    if not isz(a) and not isz(b):
        return a - b
    if not isz(b) and b == 0:
        return a
    return simp(zi(a) - zi(b))


def mul(a, b):
    if not isz(a) and not isz(b):
        return a * b
    return simp(zi(a) * zi(b))


def mod(a, k):
    if not isz(a):
        return a % k
    lo, hi = bounds(a)
    if lo is not None and hi is not None and 0 <= lo and hi < k:
        return a
    sp = linsplit(a, k)
    if sp is not None: return sp[1]
    return simp(zi(a) % k)


def div(a, k):
    if not isz(a):
        return a // k
    sp = linsplit(a, k)
    if sp is not None: return sp[0]
    return simp(zi(a) / k)


def linsplit(a, k):
    """(quotient, remainder) of a sum of digits by k, where the digits fall on either side of k."""
    if k <= 1 or not (z3.is_add(a) or z3.is_mul(a)): return None
    m, c = monos(a)
    if c < 0: return None
    q, r, lo, hi = {}, {}, c % k, c % k
    for i, (co, e) in m.items():
        if co % k == 0: q[i] = (co // k, e); continue
        l, h = bounds(e)
        if co < 0 or l is None or h is None or l < 0: return None
        r[i] = (co, e); lo += co * l; hi += co * h
    if hi >= k or not q and not r: return None
    f = lambda d, c0: simp(zi(lin(d, c0)))
    return f(q, c // k), f(r, c % k)


def cmp_(op, a, b):
    if not isz(a) and not isz(b):
        return {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op]
    if same(a, b):
        return op in ("Eq", "Le", "Ge")
    la, ha = bounds(a)
    lb, hb = bounds(b)
    if ha is not None and lb is not None:
        if ha < lb:
            return op in ("Ne", "Lt", "Le")
        if ha <= lb and op in ("Le", "Gt"):
            return op == "Le"
    if la is not None and hb is not None:
        if la > hb:
            return op in ("Ne", "Gt", "Ge")
        if la >= hb and op in ("Ge", "Lt"):
            return op == "Ge"
    a, b = zi(a), zi(b)
    e = {"Eq": lambda: a == b, "Ne": lambda: a != b, "Lt": lambda: a < b, "Le": lambda: a <= b, "Gt": lambda: a > b, "Ge": lambda: a >= b}[op]()
    return simp(e)


def eq(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)):
        return iff(a, b)
    if isz(a) and a.sort() == Str:
        return True if same(a, b) else a == b
    return cmp_("Eq", a, b)


def le(a, b): return cmp_("Le", a, b)
def lt(a, b): return cmp_("Lt", a, b)


def not_(a):
    if isinstance(a, bool):
        return not a
    return lit(z3.simplify(z3.Not(a)))


def and_(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def or_(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def implies(a, b): return or_(not_(a), b)


def iff(a, b):
    if isinstance(a, bool):
        return b if a else not_(b)
    if isinstance(b, bool):
        return a if b else not_(a)
    if a.eq(b):
        return True
    return a == b


def monos(e):
    """Linear form {key: (coef, term)}, const."""
    c, out = 0, {}

    def go(e, k):
        nonlocal c
        if z3.is_int_value(e):
            c += k * e.as_long()
        elif z3.is_add(e):
            for x in e.children():
                go(x, k)
        elif z3.is_sub(e):
            ch = e.children()
            go(ch[0], k)
            for x in ch[1:]:
                go(x, -k)
        elif z3.is_mul(e) and e.num_args() == 2 and z3.is_int_value(e.arg(0)):
            go(e.arg(1), k * e.arg(0).as_long())
        elif z3.is_app_of(e, z3.Z3_OP_UMINUS):
            go(e.arg(0), -k)
        else:
            o = out.get(e.get_id())
            out[e.get_id()] = (k + (o[0] if o else 0), e)
    go(zi(e), 1)
    return out, c


def lin(m, c):
    t = [z3.IntVal(k) * e if k != 1 else e for k, e in m.values() if k != 0]
    if c or not t:
        t.append(z3.IntVal(c))
    return t[0] if len(t) == 1 else z3.Sum(t)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if same(a, b):
        return a
    if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)):
        if isinstance(a, bool):
            return simp(or_(c, b)) if a else simp(and_(not_(c), b))
        if isinstance(b, bool):
            return simp(or_(not_(c), a)) if b else simp(and_(c, a))
        return z3.If(c, a, b)
    if isz(a) and a.sort() != I or isz(b) and b.sort() != I:
        return z3.If(c, a, b)
    if isz(a) and isz(b):
        # factor the common part of two sums, so that accumulators stay linear
        ma, ca = monos(a)
        mb, cb = monos(b)
        common = {k: v for k, v in ma.items() if k in mb and mb[k][0] == v[0]}
        if common and (len(common) > 0) and (len(ma) > 1 or len(mb) > 1):
            ra = lin({k: v for k, v in ma.items() if k not in common}, ca)
            rb = lin({k: v for k, v in mb.items() if k not in common}, cb)
            ra, rb = lit(ra), lit(rb)
            return simp(lin(common, 0) + zi(ite(c, ra, rb)))
    return z3.If(c, zi(a), zi(b))


# ---- intervals ---------------------------------------------------------------------------------------
VARB = {}      # name of a constant -> (lo, hi)
_bmemo = {}


def bounds(e):
    if isinstance(e, bool):
        return (None, None)
    if not isz(e):
        return (e, e)
    k = e.get_id()
    r = _bmemo.get(k)
    if r is None:
        r = _bmemo[k] = (e, _bounds(e))
    return r[1]


def _bounds(e):
    if z3.is_int_value(e):
        return (e.as_long(),) * 2
    d = e.decl()
    n = d.name()
    if d.kind() == z3.Z3_OP_UNINTERPRETED:
        if n == "AT": return (0, 255)
        if n == "LEN": return (0, 2 ** 63 - 1)
        if n == "CH": return (0, 0x10FFFF)
        if n == "CW": return (1, 4)
        return VARB.get(n, (None, None))
    if d.kind() == z3.Z3_OP_ITE:
        a, b = bounds(e.arg(1)), bounds(e.arg(2))
        return (None if None in (a[0], b[0]) else min(a[0], b[0]), None if None in (a[1], b[1]) else max(a[1], b[1]))
    if z3.is_add(e):
        bs = [bounds(x) for x in e.children()]
        return (None if any(b[0] is None for b in bs) else sum(b[0] for b in bs), None if any(b[1] is None for b in bs) else sum(b[1] for b in bs))
    if z3.is_mul(e) and e.num_args() == 2 and z3.is_int_value(e.arg(0)):
        c = e.arg(0).as_long()
        lo, hi = bounds(e.arg(1))
        if c < 0:
            lo, hi = hi, lo
        return (None if lo is None else c * lo, None if hi is None else c * hi)
    if d.kind() == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)):
        return (0, e.arg(1).as_long() - 1)
    return (None, None)


_fresh = [0]


def fresh(name, sort=I, lo=None, hi=None):
    _fresh[0] += 1
    n = f"{name}!{_fresh[0]}" if lo is None and hi is None else f"{name}[{lo},{hi}]!{_fresh[0]}"
    if lo is not None or hi is not None:
        VARB[n] = (lo, hi)
    return z3.Const(n, sort)


# ---- values --------------------------------------------------------------------------------------------
class V:
    pass


class Undef(V):
    def __repr__(self): return "undef"


UNDEF = Undef()


class Agg(V):
    names = None
    def __init__(self, fields, tag="", names=None):
        self.fields, self.tag = tuple(fields), tag
        if names is not None: self.names = names
    def __repr__(self): return f"{self.tag}{self.fields}"


UNIT = Agg(())


class Enum(V):
    def __init__(self, name, discr, pay): self.name, self.discr, self.pay = name, discr, pay
    def __repr__(self): return f"{self.name}#{self.discr}{self.pay}"


class Ref(V):
    def __init__(self, key, path): self.key, self.path = key, tuple(path)
    def __repr__(self): return f"&{self.key}{self.path}"


class VRef(V):
    """Reference to a value that cannot change."""
    def __init__(self, v): self.v = v
    def __repr__(self): return f"&({self.v})"


class View(V):
    """&str / &[u8] / str / [u8]: bytes [lo, hi) of a base text."""
    def __init__(self, s, lo, hi, kind="str"): self.s, self.lo, self.hi, self.kind = s, lo, hi, kind
    def len(self): return sub(self.hi, self.lo)
    def at(self, i): return AT(self.s, zi(add(self.lo, i)))
    def __repr__(self): return f"{self.kind}[{self.s}:{self.lo}..{self.hi}]"


class Owned(V):
    """String / Vec<u8> with known content."""
    def __init__(self, view): self.view = view
    def __repr__(self): return f"owned {self.view}"


class Opq(V):
    """A value of a foreign type, known only as a term."""
    def __init__(self, ty, term): self.ty, self.term = ty, term
    def __repr__(self): return f"{self.ty}:{self.term}"


class MapV(V):
    """A map with constant keys: key -> (whether it is there, value)."""
    def __init__(self, at): self.at = at
    def get(self, k): return self.at.get(k, (False, None))
    def __repr__(self): return f"map {self.at}"


class FnVal(V):
    def __init__(self, path, fields=()): self.path, self.fields = path, tuple(fields)
    def __repr__(self): return f"fn {self.path}"


class Seg(V):
    """Iterator over the bytes of consecutive segments of one base text."""
    def __init__(self, s, segs, mode="val"): self.s, self.segs, self.mode = s, tuple(segs), mode
    def rem(self):
        r = 0
        for a, b in self.segs: r = add(r, sub(b, a))
        return r
    def __repr__(self): return f"seg[{self.s}:{self.segs}]"


class CharIt(V):
    def __init__(self, s, lo, hi, idx=False, base=0): self.s, self.lo, self.hi, self.idx, self.base = s, lo, hi, idx, base
    def __repr__(self): return f"chars[{self.s}:{self.lo}..{self.hi}]"


class Adapt(V):
    """Iterator adaptor: take(n), enumerate(n), skip_while/take_while/filter/map(f), rev, peekable"""
    def __init__(self, kind, inner, arg): self.kind, self.inner, self.arg = kind, inner, arg
    def __repr__(self): return f"{self.kind}({self.inner},{self.arg})"


class RangeV(V):
    def __init__(self, kind, lo, hi): self.kind, self.lo, self.hi = kind, lo, hi
    def __repr__(self): return f"{self.kind}({self.lo},{self.hi})"


class NoMerge(Exception):
    pass


def merge(c, a, b):
    """Value that is a where c holds and b elsewhere."""
    if a is b:
        return a
    if isinstance(a, Undef): return b
    if isinstance(b, Undef): return a
    if not isinstance(a, V) and not isinstance(b, V):
        return ite(c, a, b)
    if type(a) is not type(b):
        raise NoMerge(f"{type(a).__name__}/{type(b).__name__}")
    if isinstance(a, Agg):
        if len(a.fields) != len(b.fields): raise NoMerge("agg")
        return Agg([merge(c, x, y) for x, y in zip(a.fields, b.fields)], a.tag, a.names)
    if isinstance(a, Enum):
        if a.name != b.name: raise NoMerge("enum")
        pay = dict(a.pay)
        for k, v in b.pay.items():
            pay[k] = tuple(merge(c, x, y) for x, y in zip(pay[k], v)) if k in pay else v
        return Enum(a.name, ite(c, a.discr, b.discr), pay)
    if isinstance(a, Ref):
        if a.key == b.key and a.path == b.path: return a
        raise NoMerge("ref")
    if isinstance(a, VRef): return VRef(merge(c, a.v, b.v))
    if isinstance(a, View):
        if a.kind != b.kind: raise NoMerge("view")
        return View(ite(c, a.s, b.s), ite(c, a.lo, b.lo), ite(c, a.hi, b.hi), a.kind)
    if isinstance(a, Owned): return Owned(merge(c, a.view, b.view))
    if isinstance(a, Opq):
        if a.ty != b.ty: raise NoMerge("opq")
        return Opq(a.ty, ite(c, a.term, b.term))
    if isinstance(a, MapV):
        d = {}
        for k in list(a.at) + [k for k in b.at if k not in a.at]:
            (ca, va), (cb, vb) = a.get(k), b.get(k)
            d[k] = (ite(c, ca, cb), vb if va is None else va if vb is None else merge(c, va, vb))
        return MapV(d)
    if isinstance(a, FnVal):
        if a.path == b.path and len(a.fields) == len(b.fields): return FnVal(a.path, [merge(c, x, y) for x, y in zip(a.fields, b.fields)])
        raise NoMerge("fn")
    if isinstance(a, Seg):
        if len(a.segs) != len(b.segs) or a.mode != b.mode: raise NoMerge("seg")
        return Seg(ite(c, a.s, b.s), [(ite(c, x[0], y[0]), ite(c, x[1], y[1])) for x, y in zip(a.segs, b.segs)], a.mode)
    if isinstance(a, CharIt):
        if a.idx != b.idx: raise NoMerge("chars")
        return CharIt(ite(c, a.s, b.s), ite(c, a.lo, b.lo), ite(c, a.hi, b.hi), a.idx, ite(c, a.base, b.base))
    if isinstance(a, Adapt):
        if a.kind != b.kind: raise NoMerge("adapt")
        x = merge(c, a.arg, b.arg) if a.arg is not None else None
        return Adapt(a.kind, merge(c, a.inner, b.inner), x)
    if isinstance(a, RangeV):
        if a.kind != b.kind: raise NoMerge("range")
        return RangeV(a.kind, merge(c, a.lo, b.lo), merge(c, a.hi, b.hi))
    raise NoMerge(type(a).__name__)


def leaves(v, path=()):
    """Integer and boolean parts of a value that a loop may change: (path, term)."""
    if isinstance(v, bool) or not isinstance(v, V):
        yield path, v
    elif isinstance(v, Agg):
        for i, x in enumerate(v.fields): yield from leaves(x, path + (i,))
    elif isinstance(v, Enum):
        yield path + ("d",), v.discr
        for k in v.pay:
            for i, x in enumerate(v.pay[k]): yield from leaves(x, path + (("p", k, i),))
    elif isinstance(v, View):
        yield path + ("lo",), v.lo
        yield path + ("hi",), v.hi
    elif isinstance(v, Owned): yield from leaves(v.view, path + ("o",))
    elif isinstance(v, VRef): yield from leaves(v.v, path + ("r",))
    elif isinstance(v, Seg):
        if len(v.segs) == 1:
            yield path + ("lo",), v.segs[0][0]
            yield path + ("hi",), v.segs[0][1]
    elif isinstance(v, CharIt):
        yield path + ("lo",), v.lo
        yield path + ("hi",), v.hi
    elif isinstance(v, Adapt):
        yield from leaves(v.inner, path + ("in",))
        if v.arg is not None: yield from leaves(v.arg, path + ("arg",))
    elif isinstance(v, RangeV):
        yield from leaves(v.lo, path + ("lo",))
        yield from leaves(v.hi, path + ("hi",))


def setleaf(v, path, x):
    if not path: return x
    p, r = path[0], path[1:]
    if isinstance(v, Agg):
        f = list(v.fields); f[p] = setleaf(f[p], r, x); return Agg(f, v.tag, v.names)
    if isinstance(v, Enum):
        if p == "d": return Enum(v.name, x, v.pay)
        pay = dict(v.pay); t = list(pay[p[1]]); t[p[2]] = setleaf(t[p[2]], r, x); pay[p[1]] = tuple(t)
        return Enum(v.name, v.discr, pay)
    if isinstance(v, View): return View(v.s, x if p == "lo" else v.lo, x if p == "hi" else v.hi, v.kind)
    if isinstance(v, Owned): return Owned(setleaf(v.view, r, x))
    if isinstance(v, VRef): return VRef(setleaf(v.v, r, x))
    if isinstance(v, Seg):
        lo, hi = v.segs[0]
        return Seg(v.s, [(x, hi) if p == "lo" else (lo, x)], v.mode)
    if isinstance(v, CharIt): return CharIt(v.s, x if p == "lo" else v.lo, x if p == "hi" else v.hi, v.idx, v.base)
    if isinstance(v, Adapt):
        if p == "in": return Adapt(v.kind, setleaf(v.inner, r, x), v.arg)
        return Adapt(v.kind, v.inner, setleaf(v.arg, r, x))
    if isinstance(v, RangeV):
        return RangeV(v.kind, setleaf(v.lo, r, x) if p == "lo" else v.lo, setleaf(v.hi, r, x) if p == "hi" else v.hi)
    raise Unsupported("setleaf")
