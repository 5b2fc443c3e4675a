"""Contracts assumed for the standard library and the foreign crates the generated code calls."""
import re, z3
from val import *
import vc as VC
import exec as X
from exec import none, some, opt, ok, err, res, path_last


def mask_range(a, b): return VC.mask_of(lambda i: a <= i <= b)


class Std:
    def __init__(self, th):
        self.th = th
        self.used = {}
        self.rules = []
        self.local_override = {}     # (Type, method) -> f(ex, st, fr, args)
        self.type_of_self = None
        for n in dir(self):
            f = getattr(self, n)
            if callable(f) and getattr(f, "_rx", None):
                for r in f._rx: self.rules.append((re.compile(r), f))
        self.U = {}

    # -- helpers
    def ufn(self, name, *sorts):
        if name not in self.U: self.U[name] = z3.Function(name, *sorts)
        return self.U[name]

    def deref(self, ex, st, v):
        while isinstance(v, (Ref, VRef)):
            v = ex.get(st, ("cell", v.key, v.path)) if isinstance(v, Ref) else v.v
        return v

    def view(self, ex, st, v):
        v = self.deref(ex, st, v)
        if isinstance(v, Owned): v = v.view
        if isinstance(v, Enum) and v.name == "Cow":
            vs = [self.view(ex, st, x[0]) for x in v.pay.values()]
            if len(vs) == 1: return vs[0]
            k = list(v.pay)
            return merge(eq(v.discr, X.vidx("Cow", k[0])), vs[0], vs[1])
        if isinstance(v, Agg) and v.tag == "array" and all(isinstance(x, int) for x in v.fields):
            b = bytes(v.fields)
            return View(self.th.const(b), 0, len(b), "[u8]")
        if not isinstance(v, View): raise Unsupported(f"text expected, got {v}")
        return v

    def call(self, ex, st, fr, callee, args):
        for rx, f in self.rules:
            m = rx.search(callee)
            if m:
                r = f(ex, st, fr, args, m)
                if r is NotImplemented: continue
                self.used[f.__name__] = self.used.get(f.__name__, 0) + 1
                if isinstance(r, list): return r
                return [(st, r)]
        return None

    def constant(self, ex, p):
        m = re.match(r"^\{(alloc\d+): &(.*)\}$", p)
        if m and len(ex.statics.get(m.group(1), ())) == 1: return FnVal("static:" + list(ex.statics[m.group(1)])[0])
        return None

    def local(self, ex, fr, callee, seg):
        m = re.match(r"^<(\w+) as .*>::(\w+)(?:::<.*>)?$", callee)
        if m and (m.group(1), m.group(2)) in ex.impls: return ex.fns[ex.impls[(m.group(1), m.group(2))]]
        if len(seg) == 2:
            ty, me = seg
            if (ty, me) in ex.impls: return ex.fns[ex.impls[(ty, me)]]
        k = path_last(callee)
        if k:
            c = [n for n in ex.lib if path_last(n)[-1] == k[-1] and "<impl" not in n and "#" not in n]
            if len(c) == 1: return ex.lib[c[0]]
        return None


def rule(*rx):
    def d(f):
        f._rx = rx
        return f
    return d


def _m(f):
    setattr(Std, f.__name__, f)
    return f


# ---- conversions, references -----------------------------------------------------------------------------
@_m
@rule(r" as AsRef<(str|\[u8\])>>::as_ref$", r" as Deref>::deref$", r"^(?:std::string::)?String::as_str$", r"^Vec::<u8>::as_slice$", r"^String::as_bytes$",
      r"core::str::<impl str>::as_bytes$", r" as Borrow<str>>::borrow$", r"^String::as_mut_str$")
def as_view(self, ex, st, fr, args, m):
    v = self.deref(ex, st, args[0])
    if isinstance(v, (Opq, Seg, CharIt, Adapt, FnVal)): return NotImplemented
    v = self.view(ex, st, v)
    k = "[u8]" if "[u8]" in m.string or "as_bytes" in m.string or "Vec" in m.string else "str"
    if "Deref" in m.string: k = v.kind
    return View(v.s, v.lo, v.hi, k)


@_m
@rule(r" as Into<(String|Vec<u8>)>>::into$", r"^<String as From<&str>>::from$", r"<impl \[u8\]>::to_vec$", r"^<str as ToOwned>::to_owned$", r"^<str as ToString>::to_string$",
      r"^<&?str as ToString>::to_string", r"^<String as ToString>::to_string", r"^<String as Clone>::clone$", r"^<String as ToOwned>", r"<impl str>::to_owned$", r"^<str as Into<String>>", r"^<&str as Into<String>>",
      r"^String::from$", r"Cow<'_, str>>?::into_owned$", r"::into_owned$", r"^String::into_bytes$", r"^<Vec<u8> as From<&\[u8\]>>::from$")
def to_owned(self, ex, st, fr, args, m):
    return Owned(self.view(ex, st, args[0]))


@_m
@rule(r"^<Cow<'_, str> as From<&'?_? ?str>>::from$", r"^<Cow<'_, str> as From<&str>>::from$")
def cow_from(self, ex, st, fr, args, m):
    return Enum("Cow", 0, {"Borrowed": (self.view(ex, st, args[0]),)})


@_m
@rule(r"^<Cow<'_, str> as From<String>>::from$")
def cow_from_s(self, ex, st, fr, args, m):
    return Enum("Cow", 1, {"Owned": (args[0],)})


@_m
@rule(r"^(String::from_utf8_unchecked|core::str::from_utf8_unchecked|from_utf8_unchecked)$")
def utf8_unchecked(self, ex, st, fr, args, m):
    # safety obligation: the bytes are ASCII (the only case in which this code may call it)
    v = self.view(ex, st, args[0])
    g = le(v.hi, self.th.first(VC.mask_of(lambda i: i >= 128), v.s, v.lo))
    st = ex.require(st, "utf8", fr, g, "from_utf8_unchecked on bytes that may not be UTF-8")
    if st is None: return []
    n = View(v.s, v.lo, v.hi, "str")
    return [(st, Owned(n) if isinstance(self.deref(ex, st, args[0]), Owned) else n)]


@_m
@rule(r"^<.* as Into<.*>>::into$", r"^<.* as From<.*>>::from$")
def widen(self, ex, st, fr, args, m):
    mm = re.match(r"^<(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128) as From<(u8|u16|u32|u64|bool|char|i8|i16|i32|i64)>>::from$", m.string)
    if mm:
        v = args[0]
        if isinstance(v, bool) or (isz(v) and z3.is_bool(v)): return ite(v, 1, 0)
        return v
    mm = re.match(r"^<(.*) as (?:From|Into)<(.*)>>", m.string)
    if mm and mm.group(1) == mm.group(2): return args[0]
    return NotImplemented


# ---- slices and strings ------------------------------------------------------------------------------------
@_m
@rule(r"<impl (\[u8\]|str)>::len$", r"^(?:std::string::)?String::len$", r"^Vec::<u8>::len$", r"^<.*Iter.* as ExactSizeIterator>::len$")
def len_(self, ex, st, fr, args, m):
    v = self.deref(ex, st, args[0])
    if isinstance(v, Seg): return v.rem()
    return self.view(ex, st, v).len()


@_m
@rule(r"<impl (\[u8\]|str)>::is_empty$", r"^String::is_empty$", r"^Vec::<u8>::is_empty$")
def is_empty(self, ex, st, fr, args, m):
    return eq(self.view(ex, st, args[0]).len(), 0)


@_m
@rule(r"<impl (\[u8\]|str)>::(first|last)$")
def first_(self, ex, st, fr, args, m):
    v = self.view(ex, st, args[0])
    n = v.len()
    return opt(lt(0, n), VRef(v.at(0) if m.group(2) == "first" else AT(v.s, zi(sub(v.hi, 1)))))


def bounds_of(v, r):
    n = v.len()
    if isinstance(r, Agg) and len(r.fields) in (2, 3) and r.tag.startswith("RangeInclusive"): r = RangeV("RangeInclusive", r.fields[0], r.fields[1])
    k = r.kind
    a = 0 if k in ("RangeTo", "RangeFull", "RangeToInclusive") else r.lo
    b = n if k in ("RangeFrom", "RangeFull") else (add(r.hi, 1) if k.endswith("Inclusive") else r.hi)
    return a, b, n


def bnd(v, i):
    """boundary of the text v at offset i"""
    a = add(v.lo, i)
    if same(a, v.lo) or same(a, v.hi): return True
    return or_(eq(a, v.lo), eq(a, v.hi), BND(v.s, zi(a)))


@_m
@rule(r" as (?:std::ops::)?Index<(?:std::ops::)?(Range\w*)(?:<usize>)?>>::index$", r" as (?:std::ops::)?Index<usize>>::index$")
def index(self, ex, st, fr, args, m):
    v = self.view(ex, st, args[0])
    if "Index<usize>" in m.string:
        st = ex.require(st, "panic", fr, and_(le(0, args[1]), lt(args[1], v.len())), "index out of bounds")
        return [(st, VRef(v.at(args[1])))] if st is not None else []
    a, b, n = bounds_of(v, args[1])
    g = and_(le(0, a), le(a, b), le(b, n))
    st = ex.require(st, "panic", fr, g, "slice out of bounds")
    if st is None: return []
    if v.kind == "str":
        st = ex.require(st, "panic", fr, and_(bnd(v, a), bnd(v, b)), "slice inside a character")
        if st is None: return []
    return [(st, View(v.s, add(v.lo, a), add(v.lo, b), v.kind))]


@_m
@rule(r"<impl (\[u8\]|str)>::get::<(?:std::ops::)?(usize|Range\w*).*>$", r"<impl (\[u8\]|str)>::get_unchecked::<(?:std::ops::)?(usize|Range\w*).*>$", r"^core::str::traits::get")
def get_(self, ex, st, fr, args, m):
    v = self.view(ex, st, args[0])
    un = "get_unchecked" in m.string
    if m.group(2) == "usize":
        g = and_(le(0, args[1]), lt(args[1], v.len()))
        r = VRef(v.at(args[1]))
    else:
        a, b, n = bounds_of(v, args[1])
        g = and_(le(0, a), le(a, b), le(b, n))
        if v.kind == "str": g = and_(g, bnd(v, a), bnd(v, b))
        r = View(v.s, add(v.lo, a), add(v.lo, b), v.kind)
    if un:
        st = ex.require(st, "panic", fr, g, "get_unchecked out of bounds")
        return [(st, r)] if st is not None else []
    return opt(g, r)


@_m
@rule(r"<impl (\[u8\]|str)>::split_at$")
def split_at(self, ex, st, fr, args, m):
    v = self.view(ex, st, args[0])
    g = le(args[1], v.len())
    if v.kind == "str": g = and_(g, bnd(v, args[1]))
    st = ex.require(st, "panic", fr, g, "split_at out of bounds")
    if st is None: return []
    p = add(v.lo, args[1])
    return [(st, Agg((View(v.s, v.lo, p, v.kind), View(v.s, p, v.hi, v.kind))))]


@_m
@rule(r"<impl (str|\[u8\])>::split_(first|last)$")
def split_first(self, ex, st, fr, args, m):
    v = self.view(ex, st, args[0])
    if m.group(2) == "first": r = Agg((VRef(v.at(0)), View(v.s, add(v.lo, 1), v.hi, v.kind)))
    else: r = Agg((VRef(AT(v.s, zi(sub(v.hi, 1)))), View(v.s, v.lo, sub(v.hi, 1), v.kind)))
    return opt(lt(0, v.len()), r)


@_m
@rule(r"<impl str>::is_char_boundary$")
def is_cb(self, ex, st, fr, args, m):
    v = self.view(ex, st, args[0])
    return and_(le(args[1], v.len()), bnd(v, args[1]))


@_m
@rule(r"core::slice::<impl \[u8\]>::iter$", r"<impl str>::bytes$", r"^<&\[u8\] as IntoIterator>::into_iter$", r"^<&'?\w* ?\[u8\] as IntoIterator>::into_iter$", r"^<&Vec<u8> as IntoIterator>::into_iter$")
def iter_(self, ex, st, fr, args, m):
    v = self.view(ex, st, args[0])
    return Seg(v.s, [(v.lo, v.hi)], "val" if "bytes" in m.string else "ref")


@_m
@rule(r"<impl str>::chars$", r"<impl str>::char_indices$")
def chars(self, ex, st, fr, args, m):
    v = self.view(ex, st, args[0])
    s2 = st.assume(zb(BND(v.s, zi(v.lo)))) if not (isinstance(v.lo, int) and v.lo == 0) else st
    s2 = s2.assume(zb(BND(v.s, zi(v.hi))))
    return [(s2, CharIt(v.s, v.lo, v.hi, "indices" in m.string, v.lo))]


@_m
@rule(r" as IntoIterator>::into_iter$", r" as Iterator>::by_ref$", r"::fuse$")
def into_iter(self, ex, st, fr, args, m):
    return args[0]


@_m
@rule(r" as Iterator>::(copied|cloned)(?:::<.*>)?$")
def copied(self, ex, st, fr, args, m):
    v = args[0]
    if isinstance(v, Seg): return Seg(v.s, v.segs, "val")
    if isinstance(v, Adapt) and v.kind in ("take", "skip_while", "take_while", "rev", "filter"):
        return Adapt(v.kind, copied(self, ex, st, fr, [v.inner], m), v.arg) if v.kind in ("take", "rev") else NotImplemented
    return NotImplemented


@_m
@rule(r" as Iterator>::chain(?:::<.*>)?$")
def chain(self, ex, st, fr, args, m):
    a, b = args
    if isinstance(b, View): b = Seg(b.s, [(b.lo, b.hi)], "ref")
    if isinstance(a, Seg) and isinstance(b, Seg) and a.mode == b.mode and same(a.s, b.s): return Seg(a.s, a.segs + b.segs, a.mode)
    raise Unsupported("chain")


@_m
@rule(r" as (?:Double\w*)?Iterator>::(take|skip_while|take_while|rev|enumerate|peekable|filter|map|skip)(?:::<.*>)?$")
def adapt(self, ex, st, fr, args, m):
    k = m.group(1)
    it = args[0]
    if k == "skip" and isinstance(it, Seg) and len(it.segs) == 1:
        lo, hi = it.segs[0]
        return Seg(it.s, [(ite(le(add(lo, args[1]), hi), add(lo, args[1]), hi), hi)], it.mode)
    if k == "enumerate": return Adapt(k, it, 0)
    return Adapt(k, it, args[1] if len(args) > 1 else None)


def it_next(self, ex, st, fr, it, back=False):
    """[(state, has (bool), item, iterator afterwards)]"""
    if isinstance(it, Seg):
        segs = list(it.segs)
        order = range(len(segs)) if not back else range(len(segs) - 1, -1, -1)
        # leading segments that are plainly empty
        new, idx, has = list(segs), None, False
        conds = []
        for k in order:
            lo, hi = segs[k]
            c = lt(lo, hi)
            if c is False: continue
            conds.append((k, c))
            if c is True: break
        if not conds: return [(st, False, None, it)]
        taken = False
        item = None
        for k, c in conds:
            lo, hi = segs[k]
            here = and_(not_(taken), c)
            p = sub(hi, 1) if back else lo
            item = p if item is None else ite(taken, item, p)
            new[k] = (ite(here, add(lo, 1), lo), hi) if not back else (lo, ite(here, sub(hi, 1), hi))
            taken = or_(taken, c)
        b = AT(it.s, zi(item))
        nx = Seg(it.s, new, it.mode)
        return [(st, taken, VRef(b) if it.mode == "ref" else b, nx)]
    if isinstance(it, CharIt):
        if back: raise Unsupported("chars from the back")
        has = lt(it.lo, it.hi)
        c, w = CH(it.s, zi(it.lo)), CW(it.s, zi(it.lo))
        nx = add(it.lo, w)
        # the view ends at a boundary, so the character lies inside it
        s2 = st.assume(implies(has, and_(le(nx, it.hi), BND(it.s, zi(nx)))))
        if s2 is None: return []
        item = Agg((sub(it.lo, it.base), c)) if it.idx else c
        return [(s2, has, item, CharIt(it.s, ite(has, nx, it.lo), it.hi, it.idx, it.base))]
    if isinstance(it, Adapt):
        if it.kind == "take" and not back:
            out = []
            for s, has, item, nx in it_next(self, ex, st, fr, it.inner):
                z = lt(0, it.arg)
                out.append((s, and_(z, has), item, Adapt("take", merge(z, nx, it.inner), ite(z, sub(it.arg, 1), it.arg))))
            return out
        if it.kind == "enumerate" and not back:
            return [(s, h, Agg((it.arg, item)) if item is not None else None, Adapt("enumerate", nx, ite(h, add(it.arg, 1), it.arg))) for s, h, item, nx in it_next(self, ex, st, fr, it.inner)]
        if it.kind == "rev":
            return [(s, h, item, Adapt("rev", nx, None)) for s, h, item, nx in it_next(self, ex, st, fr, it.inner, not back)]
        if it.kind == "map":
            out = []
            for s, h, item, nx in it_next(self, ex, st, fr, it.inner, back):
                if h is False: out.append((s, False, None, Adapt("map", nx, it.arg))); continue
                for s2, v in ex.call_value(s, fr, it.arg, [item]): out.append((s2, h, v, Adapt("map", nx, it.arg)))
            return out
    if isinstance(it, RangeV) and it.kind == "Range" and not back:
        h = lt(it.lo, it.hi)
        return [(st, h, it.lo, RangeV("Range", ite(h, add(it.lo, 1), it.lo), it.hi))]
    raise Unsupported(f"next of {it}")


@_m
@rule(r" as (?:Double\w*)?Iterator>::(next|next_back)$")
def next_(self, ex, st, fr, args, m):
    r = args[0]
    if not isinstance(r, Ref): raise Unsupported("next")
    it = ex.get(st, ("cell", r.key, r.path))
    while isinstance(it, Ref):      # by_ref
        r = it
        it = ex.get(st, ("cell", r.key, r.path))
    out = []
    for s, has, item, nx in it_next(self, ex, st, fr, it, m.group(1) == "next_back"):
        s = s.copy()
        ex.put(s, ("cell", r.key, r.path), nx)
        out.append((s, none() if has is False else opt(has, item)))
    return out


def closure_mask(self, ex, st, fr, f, mode, byref):
    """The set of bytes for which the closure holds."""
    x = fresh("byte", I, 0, 255)
    arg = VRef(x) if mode == "ref" else x
    if byref: arg = VRef(arg)
    sc, ex.collecting = ex.collecting, False
    try:
        outs = ex.call_value(X.St((), dict(st.mem)), fr, f, [arg])
    finally:
        ex.collecting = sc
    m = 0
    for i in range(256):
        vals = []
        for s, v in outs:
            pc = [lit(z3.simplify(z3.substitute(c, (x, z3.IntVal(i))))) for c in s.pc]
            if any(c is False for c in pc): continue
            if any(c is not True for c in pc): raise Unsupported("predicate depends on more than the byte")
            vv = v if isinstance(v, bool) else lit(z3.simplify(z3.substitute(v, (x, z3.IntVal(i)))))
            if not isinstance(vv, bool): raise Unsupported("predicate depends on more than the byte")
            vals.append(vv)
        if len(vals) != 1: raise Unsupported("predicate")
        if vals[0]: m |= 1 << i
    return m


def reify(self, ex, st, fr, it):
    """An iterator as (text, lo, hi, mode) with adaptors folded in."""
    if isinstance(it, Seg) and len(it.segs) == 1: return it.s, it.segs[0][0], it.segs[0][1], it.mode
    if isinstance(it, Adapt) and it.kind == "take":
        s, lo, hi, mode = reify(self, ex, st, fr, it.inner)
        e = add(lo, it.arg)
        return s, lo, ite(lt(e, hi), e, hi), mode
    if isinstance(it, Adapt) and it.kind in ("skip_while", "take_while"):
        s, lo, hi, mode = reify(self, ex, st, fr, it.inner)
        m = closure_mask(self, ex, st, fr, it.arg, mode, True)
        f = self.th.first(VC.FULL ^ m, s, lo)
        p = ite(lt(f, hi), f, hi)
        return (s, p, hi, mode) if it.kind == "skip_while" else (s, lo, p, mode)
    raise Unsupported(f"search in {it}")


@_m
@rule(r" as (?:\w+)?Iterator>::(position|rposition|any|all|find|count|last)(?:::<.*>)?$")
def search(self, ex, st, fr, args, m):
    k = m.group(1)
    it = self.deref(ex, st, args[0])
    if isinstance(it, CharIt) and k == "count": raise Unsupported("count of chars")
    s, lo, hi, mode = reify(self, ex, st, fr, it)
    if k == "count": return sub(hi, lo)
    mask = closure_mask(self, ex, st, fr, args[1], mode, k == "find")
    if k == "all": mask = VC.FULL ^ mask
    if k == "rposition":
        l = self.th.last(mask, s, hi)
        return opt(le(lo, l), sub(l, lo))
    f = self.th.first(mask, s, lo)
    found = lt(f, hi)
    if isinstance(args[0], Ref):
        st = st.copy()
        if isinstance(it, Seg): ex.put(st, ("cell", args[0].key, args[0].path), Seg(s, [(ite(found, add(f, 1), hi), hi)], it.mode))
        else: ex.put(st, ("cell", args[0].key, args[0].path), UNDEF)
    if k == "position": return [(st, opt(found, sub(f, lo)))]
    if k == "any": return [(st, found)]
    if k == "all": return [(st, not_(found))]
    if k == "find":
        b = AT(s, f)
        return [(st, opt(found, VRef(b) if mode == "ref" else b))]
    raise Unsupported(k)


def pattern(self, ex, st, fr, p, ty):
    """A pattern as a byte mask (one-byte patterns) or constant text."""
    p = self.deref(ex, st, p)
    if isinstance(p, int): 
        if p < 128: return ("mask", 1 << p)
    if isinstance(p, Agg) and p.tag == "array" and all(isinstance(x, int) and x < 128 for x in p.fields):
        mk = 0
        for x in p.fields: mk |= 1 << x
        return ("mask", mk)
    if isinstance(p, View) and isinstance(p.lo, int) and isinstance(p.hi, int):
        for b, t in self.th.consts.items():
            if t.eq(p.s):
                b = b[p.lo:p.hi]
                return ("text", b) if len(b) != 1 else ("mask", 1 << b[0])
    raise Unsupported(f"pattern {p}")


@_m
@rule(r"<impl (?:str|\[u8\])>::(starts_with|ends_with|contains|find|rfind|split_once|rsplit_once|strip_prefix|strip_suffix|trim_start_matches|trim_end_matches)(?:::<(.*)>)?$")
def pat(self, ex, st, fr, args, m):
    k = m.group(1)
    v = self.view(ex, st, args[0])
    th = self.th
    isslice = "<impl [u8]>" in m.string
    if isslice and k == "contains":
        kind, p = ("mask", 1 << self.deref(ex, st, args[1])) if isinstance(self.deref(ex, st, args[1]), int) else (None, None)
        if kind is None: raise Unsupported("contains")
    elif isslice:
        a = self.deref(ex, st, args[1])
        if isinstance(a, Agg): a = self.view(ex, st, a)
        kind, p = pattern(self, ex, st, fr, a, "")
        if kind == "mask": kind, p = "text", bytes([p.bit_length() - 1])
    else: kind, p = pattern(self, ex, st, fr, args[1], m.group(2))
    n = v.len()
    if kind == "text" or k in ("starts_with", "ends_with", "strip_prefix", "strip_suffix"):
        if kind == "mask":
            L = 1
            hit = lambda off: VC.inmask(p, AT(v.s, zi(add(v.lo, off))))
        else:
            L = len(p)
            hit = lambda off: and_(*[eq(AT(v.s, zi(add(v.lo, add(off, i)))), c) for i, c in enumerate(p)])
        if k in ("starts_with", "strip_prefix"):
            g = and_(le(L, n), hit(0))
            return g if k == "starts_with" else opt(g, View(v.s, add(v.lo, L), v.hi, v.kind))
        if k in ("ends_with", "strip_suffix"):
            g = and_(le(L, n), hit(sub(n, L)))
            return g if k == "ends_with" else opt(g, View(v.s, v.lo, sub(v.hi, L), v.kind))
        raise Unsupported(k)
    if k == "trim_end_matches" or k == "trim_start_matches":
        if k == "trim_start_matches":
            f = th.first(VC.FULL ^ p, v.s, v.lo)
            return View(v.s, ite(lt(f, v.hi), f, v.hi), v.hi, v.kind)
        l = th.last(VC.FULL ^ p, v.s, v.hi)
        return View(v.s, v.lo, ite(le(v.lo, l), add(l, 1), v.lo), v.kind)
    if k in ("find", "contains", "split_once"):
        f = th.first(p, v.s, v.lo)
        g = lt(f, v.hi)
        if k == "contains": return g
        if k == "find": return opt(g, sub(f, v.lo))
    else:
        f = th.last(p, v.s, v.hi)
        g = le(v.lo, f)
        if k == "rfind": return opt(g, sub(f, v.lo))
    return opt(g, Agg((View(v.s, v.lo, f, v.kind), View(v.s, add(f, 1), v.hi, v.kind))))


def text_eq(self, ex, st, a, b, fold=False):
    """Equality of a text with a constant text."""
    for x, y in ((a, b), (b, a)):
        if isinstance(y.lo, int) and isinstance(y.hi, int):
            for c, t in self.th.consts.items():
                if t.eq(y.s):
                    c = c[y.lo:y.hi]
                    def one(i, ch):
                        t = AT(x.s, zi(add(x.lo, i)))
                        if fold and chr(ch).isalpha() and ch < 128: return or_(eq(t, ch & ~32), eq(t, ch | 32))
                        return eq(t, ch)
                    return and_(eq(x.len(), len(c)), *[one(i, ch) for i, ch in enumerate(c)])
    if same(a.s, b.s) and same(a.lo, b.lo) and same(a.hi, b.hi): return True
    raise Unsupported("comparison of two texts")


@_m
@rule(r"<impl (?:str|\[u8\])>::eq_ignore_ascii_case$")
def eq_ic(self, ex, st, fr, args, m):
    return text_eq(self, ex, st, self.view(ex, st, args[0]), self.view(ex, st, args[1]), True)


@_m
@rule(r"^<(&?str|&?String|&?\[u8\]|&?&?\[u8; \d+\]) as PartialEq(<.*>)?>::(eq|ne)$")
def str_eq(self, ex, st, fr, args, m):
    e = text_eq(self, ex, st, self.view(ex, st, args[0]), self.view(ex, st, args[1]))
    return e if m.group(3) == "eq" else not_(e)


@_m
@rule(r"^<(&?)(u8|u16|u32|u64|usize|char|bool) as Partial(?:Eq|Ord)(<.*>)?>::(eq|ne|lt|le|gt|ge)$")
def int_eq(self, ex, st, fr, args, m):
    a, b = self.deref(ex, st, args[0]), self.deref(ex, st, args[1])
    return ex.binop(st, fr, m.group(4).capitalize(), a, b, m.group(2))


# ---- bytes and characters -----------------------------------------------------------------------------------
def _u8pred(n):
    return {
        "is_ascii_digit": lambda b: 48 <= b <= 57, "is_ascii_hexdigit": lambda b: chr(b) in "0123456789abcdefABCDEF" if b < 128 else False,
        "is_ascii_alphabetic": lambda b: 65 <= b <= 90 or 97 <= b <= 122, "is_ascii_alphanumeric": lambda b: 48 <= b <= 57 or 65 <= b <= 90 or 97 <= b <= 122,
        "is_ascii_uppercase": lambda b: 65 <= b <= 90, "is_ascii_lowercase": lambda b: 97 <= b <= 122, "is_ascii": lambda b: b < 128,
        "is_ascii_control": lambda b: b < 32 or b == 127, "is_ascii_whitespace": lambda b: b in (9, 10, 12, 13, 32),
        "is_ascii_punctuation": lambda b: 33 <= b <= 47 or 58 <= b <= 64 or 91 <= b <= 96 or 123 <= b <= 126, "is_ascii_graphic": lambda b: 33 <= b <= 126,
    }[n]


@_m
@rule(r"<impl (u8|char)>::(is_ascii\w*)$")
def ascii_pred(self, ex, st, fr, args, m):
    b = self.deref(ex, st, args[0])
    if isinstance(b, View): raise Unsupported("is_ascii of a slice")
    mk = VC.mask_of(_u8pred(m.group(2)))
    if m.group(1) == "u8": return VC.inmask(mk, b)
    return and_(lt(b, 128), VC.inmask(mk, b))


@_m
@rule(r"<impl (?:u8|char)>::to_ascii_(lower|upper)case$")
def ascii_case(self, ex, st, fr, args, m):
    b = self.deref(ex, st, args[0])
    lo = m.group(1) == "lower"
    a, z = (65, 90) if lo else (97, 122)
    return ite(and_(le(a, b), le(b, z)), add(b, 32 if lo else -32), b)


WS = [(9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)]


def is_ws(c): return or_(*[and_(le(a, c), le(c, b)) for a, b in WS])


@_m
@rule(r"<impl char>::(is_whitespace|len_utf8|is_control|is_alphabetic|is_alphanumeric)$")
def char_pred(self, ex, st, fr, args, m):
    c = self.deref(ex, st, args[0])
    if m.group(1) == "is_whitespace": return is_ws(c)
    if m.group(1) == "len_utf8": return ite(lt(c, 0x80), 1, ite(lt(c, 0x800), 2, ite(lt(c, 0x10000), 3, 4)))
    if m.group(1) == "is_control": return or_(lt(c, 32), and_(le(127, c), le(c, 0x9f)))
    raise Unsupported(m.group(1))


# ---- integers --------------------------------------------------------------------------------------------------
@_m
@rule(r"core::num::<impl (u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)>::(saturating_sub|saturating_add|wrapping_sub|wrapping_add|checked_sub|checked_add|checked_mul|to_le_bytes|to_be_bytes|min|max|abs_diff|wrapping_shl|pow)$")
def intop(self, ex, st, fr, args, m):
    t, k = m.group(1), m.group(2)
    a = args[0]
    b = args[1] if len(args) > 1 else None
    sg, w = X.P.INT_T[t]
    if k == "saturating_sub" and not sg: return ite(le(b, a), sub(a, b), 0)
    if k == "saturating_add" and not sg: return ite(le(add(a, b), 2 ** w - 1), add(a, b), 2 ** w - 1)
    if k in ("wrapping_sub", "wrapping_add"): return ex.wrap(sub(a, b) if k.endswith("sub") else add(a, b), t)
    if k.startswith("checked_"):
        r = {"sub": sub, "add": add, "mul": mul}[k[8:]](a, b)
        return opt(ex.inrange(r, t), r)
    if k in ("to_le_bytes", "to_be_bytes"):
        bs = [digit(self, a, 256, i) for i in range(w // 8)]
        return Agg(bs if k == "to_le_bytes" else bs[::-1], "array")
    raise Unsupported(k)


def digit(self, a, base, i):
    return mod(div(a, base ** i), base)


@_m
@rule(r"^(?:std::cmp::|core::cmp::)?(?:<\w+ as Ord>::|Ord::)?(min|max)(?:::<\w+>)?$", r"^<(?:usize|u8|u16|u32|u64|isize|i32) as Ord>::(min|max)$")
def minmax(self, ex, st, fr, args, m):
    a, b = args
    return ite(le(a, b), a, b) if m.group(1) == "min" else ite(le(a, b), b, a)


@_m
@rule(r"RangeInclusive::<(\w+)>::contains::<\w+>$", r"Range(?:Inclusive|To|From|ToInclusive)?::<(\w+)>::contains")
def range_contains(self, ex, st, fr, args, m):
    r = self.deref(ex, st, args[0])
    x = self.deref(ex, st, args[1])
    if "RangeInclusive" in m.string:
        f = (r.lo, r.hi) if isinstance(r, RangeV) else r.fields
        return and_(le(f[0], x), le(x, f[1]))
    if isinstance(r, RangeV) and r.kind == "Range": return and_(le(r.lo, x), lt(x, r.hi))
    raise Unsupported("contains")


@_m
@rule(r"RangeInclusive::<\w+>::new$")
def ri_new(self, ex, st, fr, args, m):
    return RangeV("RangeInclusive", args[0], args[1])


# ---- Option, Result, ? ---------------------------------------------------------------------------------------
def fields_or(v, var, n=1):
    p = v.pay.get(var)
    return p[0] if p else UNDEF


def pick(v, which):
    return fields_or(v, which)


@_m
@rule(r" as (?:std::ops::)?Try>::branch$")
def try_branch(self, ex, st, fr, args, m):
    v = args[0]
    if v.name == "Result":
        return Enum("ControlFlow", v.discr, {**({"Continue": v.pay["Ok"]} if "Ok" in v.pay else {}), **({"Break": (Enum("Result", 1, {"Err": v.pay["Err"]}),)} if "Err" in v.pay else {})})
    if v.name == "Option":
        return Enum("ControlFlow", ite(eq(v.discr, 1), 0, 1), {**({"Continue": v.pay["Some"]} if "Some" in v.pay else {}), "Break": (none(),)})
    raise Unsupported("?")


@_m
@rule(r" as FromResidual<.*>>::from_residual$")
def from_res(self, ex, st, fr, args, m):
    v = args[0]
    if v.name == "Result":
        t = re.match(r"^<(?:std::result::)?Result<.*, (\w+)> as FromResidual<(?:std::result::)?Result<Infallible, (\w+)>>>", m.string)
        if t and t.group(1) != t.group(2): return err(Opq("converted", z3.IntVal(0)))
        return Enum("Result", 1, {"Err": v.pay.get("Err", (UNDEF,))})
    return none()


@_m
@rule(r"(Option|Result)::<.*>::(is_none|is_some|is_ok|is_err)$")
def is_x(self, ex, st, fr, args, m):
    v = self.deref(ex, st, args[0])
    k = m.group(2)
    return eq(v.discr, {"is_none": 0, "is_some": 1, "is_ok": 0, "is_err": 1}[k])


@_m
@rule(r"(Option|Result)::<.*>::(unwrap|expect)$", r"(Option|Result)::<.*>::(unwrap_unchecked)$")
def unwrap(self, ex, st, fr, args, m):
    v = args[0]
    good, var = (1, "Some") if v.name == "Option" else (0, "Ok")
    st = ex.require(st, "panic", fr, eq(v.discr, good), m.group(2) + " on a missing value")
    return [(st, pick(v, var))] if st is not None else []


@_m
@rule(r"(Option|Result)::<.*>::(unwrap_or)$")
def unwrap_or(self, ex, st, fr, args, m):
    v = args[0]
    good, var = (1, "Some") if v.name == "Option" else (0, "Ok")
    p = pick(v, var)
    if isinstance(p, Undef): return args[1]
    return merge(eq(v.discr, good), p, args[1])


def both(ex, st, cond, f, g):
    out = []
    a = st.assume(cond)
    if a is not None: out += f(a.copy())
    b = st.assume(not_(cond))
    if b is not None: out += g(b.copy())
    return out


@_m
@rule(r"(Option|Result)::<.*>::(map|map_err|and_then|unwrap_or_else|ok_or|ok_or_else|ok|err|or_else|map_or|is_some_and|is_ok_and|is_none_or|filter|copied|cloned|as_ref|as_deref|as_mut|flatten|map_or_else|then)(?:::<.*>)?$")
def combin(self, ex, st, fr, args, m):
    k = m.group(2)
    v = args[0]
    if k in ("as_ref", "as_deref", "as_mut"):
        v = self.deref(ex, st, v)
        if k == "as_deref": return Enum(v.name, v.discr, {n: tuple(self.view(ex, st, x) for x in p) if n == "Some" else p for n, p in v.pay.items()})
        return Enum(v.name, v.discr, {n: tuple(VRef(x) for x in p) for n, p in v.pay.items()})
    goodi, good, bad = (1, "Some", "None") if v.name == "Option" else (0, "Ok", "Err")
    g = eq(v.discr, goodi)
    x = pick(v, good)
    opt_ = v.name == "Option"
    mk = (lambda y: some(y)) if opt_ else (lambda y: ok(y))
    badv = (lambda: none()) if opt_ else (lambda: Enum("Result", 1, {"Err": v.pay.get("Err", (UNDEF,))}))
    call = lambda s, f, a: ex.call_value(s, fr, f, a)
    if k in ("copied", "cloned"): return Enum(v.name, v.discr, {n: tuple(self.deref(ex, st, q) for q in p) for n, p in v.pay.items()})
    if k == "ok": return Enum("Option", ite(g, 1, 0), {"Some": v.pay["Ok"]} if "Ok" in v.pay else {})
    if k == "err": return Enum("Option", ite(g, 0, 1), {"Some": v.pay["Err"]} if "Err" in v.pay else {})
    if k == "ok_or": return Enum("Result", ite(g, 0, 1), {**({"Ok": v.pay["Some"]} if "Some" in v.pay else {}), "Err": (args[1],)})
    if k == "map": return both(ex, st, g, lambda s: [(s2, mk(y)) for s2, y in call(s, args[1], [x])], lambda s: [(s, badv())])
    if k == "map_err":
        return both(ex, st, g, lambda s: [(s, ok(x))], lambda s: [(s2, err(y)) for s2, y in call(s, args[1], [pick(v, "Err")])])
    if k == "and_then": return both(ex, st, g, lambda s: call(s, args[1], [x]), lambda s: [(s, badv())])
    if k == "unwrap_or_else": return both(ex, st, g, lambda s: [(s, x)], lambda s: call(s, args[1], [] if opt_ else [pick(v, "Err")]))
    if k == "ok_or_else": return both(ex, st, g, lambda s: [(s, ok(x))], lambda s: [(s2, err(y)) for s2, y in call(s, args[1], [])])
    if k == "or_else": return both(ex, st, g, lambda s: [(s, mk(x))], lambda s: call(s, args[1], [] if opt_ else [pick(v, "Err")]))
    if k == "map_or": return both(ex, st, g, lambda s: call(s, args[2], [x]), lambda s: [(s, args[1])])
    if k in ("is_some_and", "is_ok_and"): return both(ex, st, g, lambda s: call(s, args[1], [x]), lambda s: [(s, False)])
    if k == "is_none_or": return both(ex, st, g, lambda s: call(s, args[1], [x]), lambda s: [(s, True)])
    raise Unsupported(k)


@_m
@rule(r"<impl bool>::(then|then_some)(?:::<.*>)?$")
def bool_then(self, ex, st, fr, args, m):
    if m.group(1) == "then_some": return opt(args[0], args[1])
    return both(ex, st, args[0], lambda s: [(s2, some(y)) for s2, y in ex.call_value(s, fr, args[1], [])], lambda s: [(s, none())])


@_m
@rule(r"^(?:core::panicking::|std::rt::|std::)?(panic\w*|unreachable\w*|begin_panic|panic_fmt|assert_failed\w*|slice_\w+_fail\w*)(?:::<.*>)?$", r"::panicking::panic")
def panics(self, ex, st, fr, args, m):
    ex.require(st, "panic", fr, False, "panic reached")
    return []


@_m
@rule(r"^must_use::<", r"^(?:std::hint::|core::hint::)?black_box")
def ident(self, ex, st, fr, args, m):
    return args[0]


@_m
@rule(r"^(?:std::mem::|core::mem::)?(take|replace|swap)::<")
def memop(self, ex, st, fr, args, m):
    if m.group(1) == "replace":
        r = args[0]
        old = ex.get(st, ("cell", r.key, r.path))
        st = st.copy(); ex.put(st, ("cell", r.key, r.path), args[1])
        return [(st, old)]
    raise Unsupported(m.group(0))


@_m
@rule(r"^<.* as Clone>::clone$")
def clone(self, ex, st, fr, args, m):
    return self.deref(ex, st, args[0])


@_m
@rule(r"^<(?:std::sync::)?(?:LazyLock|Lazy|once_cell::sync::Lazy)<.*> as Deref>::deref$", r"^LazyLock::<.*>::force$")
def lazy(self, ex, st, fr, args, m):
    v = self.deref(ex, st, args[0])
    if not (isinstance(v, FnVal) and v.path.startswith("static:")): raise Unsupported("lazy")
    return VRef(FnVal(v.path))
