"""Contracts of core::fmt and of String building: the text made is the concatenation of its pieces.

The template bytes of fmt::Arguments are decoded as rustc emits them (0 = end, 1..127 = literal of that length, 0x80 = literal
with a 16-bit length, 0xC0.. = a placeholder: bit 0 flags u32, bit 1 width u16, bit 2 precision u16, bit 3 argument index)."""
import re, z3
from val import *
import vc as VC
import exec as X
from exec import ok, err, path_last
from stdc import Std, rule, _m
import contracts as K

DIG = VC.mask_chars("0123456789")


class Piece:
    """A part of a built text: known character codes (chars: list of int/term) or a view of another text."""
    def __init__(self, view=None, chars=None):
        self.view, self.chars = view, chars

    def len(self): return self.view.len() if self.view is not None else len(self.chars)

    def key(self):
        f = lambda x: ("z", x.get_id()) if isz(x) else x
        return ("v", self.view.s.get_id(), f(self.view.lo), f(self.view.hi)) if self.view is not None else ("c", tuple(f(x) for x in self.chars))


def lit(b): return Piece(chars=list(b))


def cat(th, pieces):
    """The text that is the concatenation of the pieces, as a view."""
    flat = []
    for p in pieces:
        if p.view is not None:
            s = p.view.s
            hit = th.cats.get(s.get_id())
            if hit and isinstance(p.view.lo, int) and p.view.lo == 0 and same(p.view.hi, LEN(s)): flat += hit[1]; continue
            cb = [b for b, t in th.consts.items() if t.eq(s)]
            if cb and isinstance(p.view.lo, int) and isinstance(p.view.hi, int): flat.append(lit(cb[0][p.view.lo:p.view.hi])); continue
        flat.append(p)
    out = []
    for p in flat:
        if p.chars is not None and not p.chars: continue
        if out and p.chars is not None and out[-1].chars is not None: out[-1] = Piece(chars=out[-1].chars + p.chars)
        else: out.append(p)
    if not out: return View(th.const(b""), 0, 0, "str")
    if len(out) == 1 and out[0].view is not None: return out[0].view
    if len(out) == 1 and all(isinstance(c, int) for c in out[0].chars):
        return View(th.const(bytes(out[0].chars)), 0, len(out[0].chars), "str")
    key = tuple(p.key() for p in out)
    t = th.catkeys.get(key)
    if t is None:
        t = z3.Const(f"cat:{len(th.catkeys)}", Str)
        th.catkeys[key] = t
        th.cats[t.get_id()] = (t, out)
    return View(t, 0, LEN(t), "str")


def cat_facts(th, t, pieces):
    """LEN and the characters at known places."""
    off, r = 0, []
    for p in pieces:
        if p.chars is not None:
            for k, c in enumerate(p.chars): r.append(AT(t, zi(add(off, k))) == c)
        off = add(off, p.len())
    return [LEN(t) == zi(off)] + r


def cat_at(th, t, pieces, a):
    i, off, r = a.arg(1), 0, []
    for p in pieces:
        n = p.len()
        if p.view is not None:
            r.append(zb(implies(and_(le(off, i), lt(i, add(off, n))), eq(a, AT(p.view.s, zi(add(p.view.lo, sub(i, off))))))))
        else:
            for k, c in enumerate(p.chars): r.append(zb(implies(eq(i, add(off, k)), eq(a, c))))
        off = add(off, n)
    return [x for x in r if not isinstance(x, bool)]


def cat_char(th, t, pieces, i):
    """CH, CW, BND at i."""
    off, r = 0, []
    c, w, b = CH(t, i), CW(t, i), BND(t, i)
    for p in pieces:
        n = p.len()
        r.append(zb(implies(eq(i, off), b)))
        if p.view is not None:
            j = zi(add(p.view.lo, sub(i, off)))
            r.append(zb(implies(and_(le(off, i), lt(i, add(off, n))), and_(c == CH(p.view.s, j), w == CW(p.view.s, j), b == BND(p.view.s, j)))))
        else:
            r.append(zb(implies(and_(le(off, i), lt(i, add(off, n))), and_(b, eq(c, AT(t, i)), w == 1))))
        off = add(off, n)
    return [x for x in r if not isinstance(x, bool)]


def cat_fn(th, t, pieces, f):
    """A function of the text [lo, hi) has the value it has on an equal text."""
    s, lo, hi = f.children()[:3]
    off, r = 0, []
    for p in pieces:
        n = p.len()
        if p.view is not None:
            r.append(zb(implies(and_(eq(lo, off), eq(hi, add(off, n))), f == f.decl()(p.view.s, zi(p.view.lo), zi(p.view.hi)))))
        off = add(off, n)
    return [x for x in r if not isinstance(x, bool)]


def cat_first(th, m, v, t):
    """The first character of a kind, when the first piece v has one."""
    u = th.first(m, v.s, v.lo)
    return [x for x in [zb(implies(and_(eq(t.arg(1), 0), lt(u, v.hi)), eq(t, sub(u, v.lo))))] if not isinstance(x, bool)]


# ---- core::fmt ---------------------------------------------------------------------------------------------------
@_m
@rule(r"^core::fmt::rt::Argument::<'_>::new_(display|lower_hex|upper_hex|debug)::<(.*)>$")
def fmt_arg(self, ex, st, fr, args, m):
    v = self.deref(ex, st, args[0])
    return Agg([v], f"fmt:{m.group(1)}:{m.group(2).lstrip('&')}")


@_m
@rule(r"^Arguments::<'_>::new::<\d+, \d+>$", r"^Arguments::<'_>::from_str\w*$", r"^Arguments::<'_>::new_const")
def fmt_args(self, ex, st, fr, args, m):
    if "::new::" in m.string:
        return Agg([self.view(ex, st, args[0]), self.deref(ex, st, args[1])], "fmt:args")
    return Agg([self.view(ex, st, args[0]), UNIT], "fmt:lit")


def template(b):
    """[bytes | (flags, width, precision, index)]"""
    out, i, nxt = [], 0, 0
    while i < len(b):
        c = b[i]; i += 1
        if c == 0: return out
        if c < 0x80: out.append(b[i:i + c]); i += c
        elif c == 0x80:
            n = b[i] | b[i + 1] << 8
            out.append(b[i + 2:i + 2 + n]); i += 2 + n
        elif c >= 0xC0:
            fl = w = pr = None
            if c & 1: fl = int.from_bytes(b[i:i + 4], "little"); i += 4
            if c & 2: w = int.from_bytes(b[i:i + 2], "little"); i += 2
            if c & 4: pr = int.from_bytes(b[i:i + 2], "little"); i += 2
            if c & 8: nxt = int.from_bytes(b[i:i + 2], "little"); i += 2
            if c & 0x30: raise Unsupported("format width from an argument")
            out.append((fl, w, pr, nxt)); nxt += 1
        else: raise Unsupported("format template")
    return out


def hexdigit(e, up):
    if isinstance(e, int): return ord("0123456789ABCDEF"[e] if up else "0123456789abcdef"[e])
    return zi(ite(le(e, 9), add(e, 48), add(e, 55 if up else 87)))


def piece_of(self, ex, st, a, spec):
    fl, w, pr, _ = spec
    _, how, ty = a.tag.split(":", 2)
    v = self.deref(ex, st, a.fields[0])
    while isinstance(v, Owned): v = v.view
    th = self.th
    if how in ("lower_hex", "upper_hex"):
        if fl is None or w is None: raise Unsupported("hexadecimal without a width")
        if not fl >> 24 & 1: raise Unsupported("hexadecimal without zero padding")
        if isz(v): v = simp(v)
        if not ex.valid(st, and_(le(0, v), lt(v, 16 ** w))): raise Unsupported("a number wider than its field")
        return Piece(chars=[hexdigit(mod(div(v, 16 ** (w - 1 - k)), 16), how == "upper_hex") for k in range(w)])
    if how != "display" or fl is not None and (fl & 0x1FFFFF) not in (0, 0x20) or w is not None or pr is not None: raise Unsupported("format specification")
    if isinstance(v, View): return Piece(view=v)
    if isinstance(v, Opq):
        f = self.ufn("DISPLAY_" + v.ty, v.term.sort(), Str)
        t = f(v.term)
        display_facts(self, v.ty)
        return Piece(view=View(t, 0, LEN(t), "str"))
    if ty == "char" and not isz(v) and v < 128: return lit(bytes([v]))
    if ty == "u16":
        f = self.ufn("DISPLAY_u16", I, Str)
        t = f(zi(v))
        display_facts(self, "u16")
        return Piece(view=View(t, 0, LEN(t), "str"))
    raise Unsupported(f"format of {ty}")


def display_facts(self, ty):
    """What the parser of the same type reads back from the displayed text."""
    th, n = self.th, "DISPLAY_" + ty
    if n in th.uf: return
    mask, lo, hi = {"Ipv4Addr": (K.V4MASK, 7, 15), "Ipv6Addr": (VC.mask_chars("0123456789abcdef:."), 2, 45), "u16": (DIG, 1, 5)}.get(ty, (None, 0, None))
    f = self.ufn(n, I, Str)
    def facts(x):
        t = f(x)
        r = [LEN(t) >= lo] + ([LEN(t) <= hi] if hi else [])
        if ty in th.F:
            okf, val = th.F[ty]
            e = okf(t, z3.IntVal(0), LEN(t)), val(t, z3.IntVal(0), LEN(t)) == x
            if ty == "u16": return r + [z3.Implies(z3.And(x >= 0, x <= 65535), z3.And(*e))]
            return r + list(e)
        return r
    th.uf[n] = facts
    if mask is not None: th.outset[n] = (lambda x: z3.BoolVal(True), mask)


def build(self, ex, st, a):
    a = self.deref(ex, st, a)
    if a.tag == "fmt:lit": return [Piece(view=a.fields[0])]
    if a.tag != "fmt:args": raise Unsupported("format arguments")
    b = self.bytes_of(a.fields[0])
    out = []
    for x in template(b):
        if isinstance(x, bytes): out.append(lit(x))
        else: out.append(piece_of(self, ex, st, self.deref(ex, st, a.fields[1].fields[x[3]]), x))
    return out


@_m
@rule(r"^(?:alloc::fmt::|std::fmt::)?format$")
def fmt_format(self, ex, st, fr, args, m):
    return Owned(cat(self.th, build(self, ex, st, args[0])))


@_m
@rule(r"^String::(?:with_capacity|new)$", r"^<String as Default>::default$")
def string_new(self, ex, st, fr, args, m):
    return Owned(View(self.th.const(b""), 0, 0, "str"))


def append(self, ex, st, r, ps):
    if not isinstance(r, Ref): raise Unsupported("append to a borrowed string")
    v = self.view(ex, st, r)
    st = st.copy()
    ex.put(st, ("cell", r.key, r.path), Owned(cat(self.th, [Piece(view=v)] + ps)))
    return st


@_m
@rule(r"^String::(push|push_str)$")
def string_push(self, ex, st, fr, args, m):
    if m.group(1) == "push":
        c = args[1]
        if isz(c) or c >= 128: raise Unsupported("push of a computed character")
        p = lit(bytes([c]))
    else: p = Piece(view=self.view(ex, st, args[1]))
    return [(append(self, ex, st, args[0], [p]), UNIT)]


@_m
@rule(r"^<String as (?:std::fmt::|core::fmt::)?Write>::(write_fmt|write_str|write_char)$")
def string_write(self, ex, st, fr, args, m):
    if m.group(1) == "write_fmt": ps = build(self, ex, st, args[1])
    elif m.group(1) == "write_str": ps = [Piece(view=self.view(ex, st, args[1]))]
    else:
        if isz(args[1]) or args[1] >= 128: raise Unsupported("push of a computed character")
        ps = [lit(bytes([args[1]]))]
    return [(append(self, ex, st, args[0], ps), ok(UNIT))]
