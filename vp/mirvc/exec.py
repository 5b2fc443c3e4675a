"""Symbolic execution of MIR with state merging; loops by unrolling when the trip count is fixed, by inferred and
checked invariants otherwise. Every panic site is a proof obligation."""
import re, z3, time
from val import *
import parse as P

VARIANTS = {
    "Option": ["None", "Some"], "Result": ["Ok", "Err"], "ControlFlow": ["Continue", "Break"], "Cow": ["Borrowed", "Owned"],
    "Host": ["Domain", "IPv4", "IPv6"], "IpAddr": ["V4", "V6"], "Protocol": ["HTTP", "HTTPS", "FTP"],
    "UHost": ["Domain", "Ipv4", "Ipv6"],
}
_err = {}


def err_id(name):
    return _err.setdefault(name, len(_err))


def vidx(en, var):
    if en in VARIANTS: return VARIANTS[en].index(var)
    return err_id(f"{en}::{var}")


def none(): return Enum("Option", 0, {})
def some(v): return Enum("Option", 1, {"Some": (v,)})
def opt(c, v): return Enum("Option", ite(c, 1, 0), {"Some": (v,)})
def ok(v): return Enum("Result", 0, {"Ok": (v,)})
def err(v): return Enum("Result", 1, {"Err": (v,)})
def res(c, v, e): return Enum("Result", ite(c, 0, 1), {"Ok": (v,), "Err": (e,)})


def path_last(p):
    """Last two segments of a path, generics dropped."""
    out, i = [], 0
    cur = ""
    while i < len(p):
        if p[i] in "<([{":
            j = P.match_close(p, i)
            if p[i] == "{": cur += p[i:j + 1]
            i = j + 1
            continue
        if p.startswith("::", i):
            out.append(cur); cur = ""; i += 2
            continue
        cur += p[i]; i += 1
    out.append(cur)
    return [x.strip() for x in out if x.strip() != ""]


class St:
    __slots__ = ("pc", "mem", "pcids")

    def __init__(self, pc=(), mem=None, pcids=None):
        self.pc, self.mem = tuple(pc), mem if mem is not None else {}
        self.pcids = pcids if pcids is not None else frozenset(c.get_id() for c in self.pc)

    def copy(self):
        return St(self.pc, dict(self.mem), self.pcids)

    def assume(self, c):
        """New state under c, or None when c is plainly impossible."""
        if isinstance(c, bool):
            return self if c else None
        if c.get_id() in self.pcids: return self
        n = not_(c)
        if isinstance(n, bool):
            return self if not n else None
        if n.get_id() in self.pcids: return None
        if z3.is_and(c):
            st = self
            for x in c.children():
                st = st.assume(x)
                if st is None: return None
            return st
        return St(self.pc + (c,), dict(self.mem), self.pcids | {c.get_id()})


def merge2(a, b):
    k = 0
    while k < len(a.pc) and k < len(b.pc) and a.pc[k].eq(b.pc[k]): k += 1
    ra, rb = a.pc[k:], b.pc[k:]
    # conjuncts that both have anyway
    ia, ib = {x.get_id() for x in ra}, {x.get_id() for x in rb}
    both = [x for x in ra if x.get_id() in ib]
    ra = [x for x in ra if x.get_id() not in ib]
    rb = [x for x in rb if x.get_id() not in ia]
    ca, cb = and_(*ra), and_(*rb)
    mem = {}
    for key, va in a.mem.items():
        vb = b.mem.get(key)
        if vb is None: continue
        mem[key] = merge(ca, va, vb) if va is not vb else va
    o = or_(ca, cb)
    pc = list(a.pc[:k]) + both
    if isz(o):
        nb = not_(cb)
        if isz(nb) and isz(ca) and nb.eq(ca): pass
        else:
            if len(ra) > 1 or len(rb) > 1 :
                # factor "x and rest | not x"
                if ra and rb and isz(not_(ra[0])) and not_(ra[0]).eq(rb[0]):
                    o = and_(implies(ra[0], and_(*ra[1:])), implies(rb[0], and_(*rb[1:])))
            elif z3.is_or(o):
                pass
            if isz(o): pc.append(o)
    elif o is False:
        return None
    return St(pc, mem)


def merge_all(sts):
    out = []
    for s in sts:
        done = False
        for i, o in enumerate(out):
            try:
                m = merge2(o, s)
            except NoMerge:
                continue
            out[i] = m; done = True
            break
        if not done: out.append(s)
    return out


class Frame:
    n = 0

    def __init__(self, f):
        Frame.n += 1
        self.fid, self.f = Frame.n, f


class Obl:
    def __init__(self, kind, where, pc, goal, msg):
        self.kind, self.where, self.pc, self.goal, self.msg = kind, where, pc, goal, msg


class Cfg:
    """RPO and natural loops of a function."""
    def __init__(self, f):
        self.f = f
        self.stm = {}
        for b, ss in f.blocks.items():
            if b in f.cleanup: continue
            self.stm[b] = [(P.stmt(s), s, v) for s, v in ss]
        self.succ = {b: self.successors(b) for b in self.stm}
        order, seen = [], set()
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for x in it:
                if x not in seen and x in self.stm:
                    seen.add(x); stack.append((x, iter(self.succ[x])))
                    break
            else:
                order.append(b); stack.pop()
        self.rpo = order[::-1]
        self.idx = {b: i for i, b in enumerate(self.rpo)}
        # dominators
        pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for x in self.succ[b]:
                if x in pred: pred[x].append(b)
        dom = {b: None for b in self.rpo}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [dom[p] for p in pred[b] if dom[p] is not None]
                n = set.intersection(*ps) | {b} if ps else None
                if n != dom[b]: dom[b] = n; ch = True
        self.loops = {}
        for b in self.rpo:
            for x in self.succ[b]:
                if x in dom[b]:      # back edge
                    body = self.loops.setdefault(x, {x})
                    st = [b]
                    while st:
                        y = st.pop()
                        if y not in body:
                            body.add(y); st.extend(pred[y])
        for b in self.rpo:
            for x in self.succ[b]:
                if x in self.idx and self.idx[x] <= self.idx[b] and x not in dom[b]:
                    raise Unsupported("irreducible loop")

    def successors(self, b):
        t = self.stm[b][-1][0]
        if t[0] == "goto": return [t[1]]
        if t[0] == "switch": return [x for _, x in t[2]] + ([t[3]] if t[3] is not None else [])
        if t[0] == "assert": return [t[4]]
        if t[0] == "call": return [t[4]] if t[4] is not None else []
        return []


class Exec:
    def __init__(self, fns, consts, theory, std, main_fn=None):
        self.fns, self.consts, self.th, self.std = fns, consts, theory, std
        self.cfgs = {}
        self.obls = []
        self.collecting = True
        self.inv_report = []
        self.short = {}
        for k in fns:
            self.short.setdefault(tuple(path_last(self.norm(k))[-2:]), []).append(k)
        self.deadline = None
        self.contracts_used = {}
        self.inlined = {}
        self.depth = 0
        self.loop_depth = 0
        self.sums, self.nosum, self.reported = {}, {}, set()
        self.lib, self.statics, self.visit = {}, {}, {}
        self.cmemo = {}
        self.in_case = False

    # ---- lookup
    @staticmethod
    def norm(k):
        return k

    def cfg(self, f):
        c = self.cfgs.get(id(f))
        if c is None: c = self.cfgs[id(f)] = Cfg(f)
        return c

    # ---- places
    def resolve(self, st, fr, pl):
        loc, projs = pl
        base = ("cell", (fr.fid, loc), ())
        for p in projs:
            if p[0] == "deref":
                v = self.get(st, base)
                if isinstance(v, Ref): base = ("cell", v.key, v.path)
                elif isinstance(v, VRef): base = ("val", v.v)
                else: base = ("val", v)
            elif p[0] == "field":
                base = self.ext(base, ("f", p[1]))
            elif p[0] == "variant":
                base = self.ext(base, ("v", p[1]))
            elif p[0] == "index":
                base = self.ext(base, ("i", self.get(st, ("cell", (fr.fid, p[1]), ()))))
            elif p[0] == "cindex":
                base = self.ext(base, ("c", p[1], p[2]))
            elif p[0] == "sub":
                base = self.ext(base, ("s", p[1], p[2], p[3]))
        return base

    def ext(self, base, e):
        if base[0] == "cell": return ("cell", base[1], base[2] + (e,))
        if e[0] == "v" and not isinstance(base[1], Undef):
            if not isinstance(base[1], Enum): raise Unsupported(f"variant of {base[1]}")
            p = base[1].pay.get(e[1])
            return ("val", UNDEF if p is None else Agg(list(p), "variant"))
        return ("val", self.walk(base[1], (e,)))

    def get(self, st, base):
        if base[0] == "val": return base[1]
        v = st.mem.get(base[1], UNDEF)
        return self.walk(v, base[2])

    def walk(self, v, path):
        i = 0
        while i < len(path):
            e = path[i]
            if isinstance(v, Undef): return UNDEF
            if e[0] == "v":
                if not isinstance(v, Enum): raise Unsupported(f"variant of {v}")
                f = path[i + 1]
                pay = v.pay.get(e[1])
                if pay is None: return UNDEF
                v = pay[f[1]]
                i += 2
                continue
            if e[0] == "f":
                if isinstance(v, Agg): v = v.fields[e[1]]
                elif isinstance(v, FnVal): v = v.fields[e[1]]
                elif isinstance(v, RangeV): v = (v.lo, v.hi)[e[1]]
                else: raise Unsupported(f"field of {v}")
            elif e[0] == "i":
                if isinstance(v, View): v = v.at(e[1])
                elif isinstance(v, Agg):
                    if isz(e[1]):
                        r = v.fields[-1]
                        for k in range(len(v.fields) - 2, -1, -1): r = merge(eq(e[1], k), v.fields[k], r)
                        v = r
                    else: v = v.fields[e[1]]
                else: raise Unsupported(f"index of {v}")
            elif e[0] == "c":
                if isinstance(v, View): v = AT(v.s, zi(sub(v.hi, e[1]))) if e[2] else v.at(e[1])
                elif isinstance(v, Agg): v = v.fields[-e[1]] if e[2] else v.fields[e[1]]
                else: raise Unsupported(f"index of {v}")
            elif e[0] == "s":
                if isinstance(v, View): v = View(v.s, add(v.lo, e[1]), sub(v.hi, e[2]) if e[3] else add(v.lo, e[2]), v.kind)
                else: raise Unsupported(f"subslice of {v}")
            i += 1
        return v

    def put(self, st, base, x):
        if base[0] != "cell": raise Unsupported("write through a shared reference")
        key, path = base[1], base[2]
        if not path:
            st.mem[key] = x
            return
        st.mem[key] = self.upd(st.mem.get(key, UNDEF), path, x)

    def upd(self, v, path, x):
        if not path: return x
        e = path[0]
        if e[0] == "f":
            if isinstance(v, Undef): v = Agg([UNDEF] * (e[1] + 1))
            if isinstance(v, Agg):
                f = list(v.fields)
                while len(f) <= e[1]: f.append(UNDEF)
                f[e[1]] = self.upd(f[e[1]], path[1:], x)
                return Agg(f, v.tag, v.names)
        if e[0] == "v" and isinstance(v, Enum):
            f = path[1]
            pay = dict(v.pay)
            t = list(pay.get(e[1], ()))
            while len(t) <= f[1]: t.append(UNDEF)
            t[f[1]] = self.upd(t[f[1]], path[2:], x)
            pay[e[1]] = tuple(t)
            return Enum(v.name, v.discr, pay)
        if e[0] == "i" and isinstance(v, Agg) and not isz(e[1]):
            f = list(v.fields)
            f[e[1]] = self.upd(f[e[1]], path[1:], x)
            return Agg(f, v.tag, v.names)
        raise Unsupported(f"write {path} in {v}")

    # ---- operands, rvalues
    def const(self, fr, c):
        k = c[0]
        if k in ("int", "bool", "char"): return c[1]
        if k == "unit": return UNIT
        if k == "str": return View(self.th.const(c[1]), 0, len(c[1]), "str")
        if k == "bytes": return VRef(View(self.th.const(c[1]), 0, len(c[1]), "[u8]"))
        p = c[1]
        m = re.search(r"promoted\[\d+\]$", p)
        if m:
            for n, f in self.consts.items():
                if n.endswith(m.group(0)) and (n.startswith(fr.f.name + "::promoted") or path_last(n)[-2:] == path_last(p)[-2:]):
                    if n.startswith(fr.f.name + "::"):
                        r = self.run_const(f)
                        return r
            raise Unsupported("promoted " + p)
        for n, f in self.consts.items():
            if n == p or path_last(n)[-2:] == path_last(p)[-2:]: return self.run_const(f)
        r = self.std.constant(self, p)
        if r is not None: return r
        seg = path_last(p)
        if len(seg) >= 2 and (seg[-2] in VARIANTS or seg[-2].endswith("Error")): return Enum(seg[-2], vidx(seg[-2], seg[-1]), {})
        return FnVal(p)

    def run_const(self, f):
        if id(f) in self.cmemo: return self.cmemo[id(f)]
        fr = Frame(f)
        out = self.region(self.cfg(f), fr, 0, [St()], set(self.cfg(f).stm), None).get("return", [])
        if len(out) != 1: raise Unsupported("constant " + f.name)
        s = out[0]
        v = s.mem.get((fr.fid, 0), UNIT)
        # references to the constant's own cells become references to values
        def fix(v):
            if isinstance(v, Ref): return VRef(fix(self.get(s, ("cell", v.key, v.path))))
            if isinstance(v, Agg): return Agg([fix(x) for x in v.fields], v.tag)
            return v
        if len(self.cmemo) > 4000: self.cmemo.clear()
        r = self.cmemo[id(f)] = fix(v)
        return r

    def operand(self, st, fr, o):
        if o[0] == "const": return self.const(fr, o[1])
        v = self.get(st, self.resolve(st, fr, o[1]))
        if isinstance(v, Undef): raise Unsupported(f"read of an undefined place {o[1]} in {fr.f.name}")
        return v

    def ptype(self, fr, pl):
        loc, projs = pl
        t = fr.f.types.get(loc, "")
        for p in projs:
            if p[0] == "field": t = p[2]
            elif p[0] == "deref": t = re.sub(r"^&('\w+ )?(mut )?", "", t)
            elif p[0] in ("index", "cindex"):
                m = re.match(r"^\[(\w+)", t); t = m.group(1) if m else ""
        return t

    def otype(self, fr, o):
        if o[0] == "const":
            c = o[1]
            return c[2] if c[0] == "int" else {"bool": "bool", "char": "char"}.get(c[0], "")
        return self.ptype(fr, o[1])

    def wrap(self, v, t):
        sg, w = P.INT_T[t]
        if not sg: return mod(v, 2 ** w)
        lo, hi = bounds(v)
        if lo is not None and hi is not None and -2 ** (w - 1) <= lo and hi < 2 ** (w - 1): return v
        return sub(mod(add(v, 2 ** (w - 1)), 2 ** w), 2 ** (w - 1))

    def inrange(self, v, t):
        sg, w = P.INT_T[t]
        lo, hi = (-2 ** (w - 1), 2 ** (w - 1) - 1) if sg else (0, 2 ** w - 1)
        return and_(le(lo, v), le(v, hi))

    def valid(self, st, goal):
        if isinstance(goal, bool): return goal
        return self.th.check(st.pc, goal)[0] == "proved"

    def binop(self, st, fr, op, a, b, t):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if isinstance(a, V) or isinstance(b, V):
                if isinstance(a, Agg) and isinstance(b, Agg) and not a.fields and not b.fields: return op in ("Eq", "Le", "Ge")
                raise Unsupported(f"{op} on {a}")
            if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a):
                if op == "Eq": return iff(a, b)
                if op == "Ne": return not_(iff(a, b))
                a, b = ite(a, 1, 0), ite(b, 1, 0)
            return cmp_(op, a, b)
        if op in ("BitAnd", "BitOr", "BitXor") and (isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a))):
            if op == "BitAnd": return simp(and_(a, b)) if isz(and_(a, b)) else and_(a, b)
            if op == "BitOr": return or_(a, b)
            return not_(iff(a, b))
        if op in ("Add", "AddUnchecked"): r = add(a, b)
        elif op in ("Sub", "SubUnchecked"): r = sub(a, b)
        elif op == "Mul": r = mul(a, b)
        elif op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            r = {"A": add, "S": sub, "M": mul}[op[0]](a, b)
            return Agg((r, not_(self.inrange(r, t))))
        elif op in ("Div", "Rem"):
            if not isinstance(b, int) or b <= 0: raise Unsupported(op)
            lo, _ = bounds(a)
            if lo is None or lo < 0: raise Unsupported(op + " of a signed value")
            return div(a, b) if op == "Div" else mod(a, b)
        elif op in ("Shl", "ShlUnchecked"):
            if not isinstance(b, int): raise Unsupported("shift")
            r = mul(a, 2 ** b)
        elif op in ("Shr", "ShrUnchecked"):
            if not isinstance(b, int): raise Unsupported("shift")
            return div(a, 2 ** b)
        elif op == "BitAnd":
            if isinstance(a, int) and isinstance(b, int): return a & b
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int) and b >= 0:
                if b == 0: return 0
                if b & (b + 1) == 0: return mod(a, b + 1)
                k = (b & -b).bit_length() - 1
                if (b >> k) & ((b >> k) + 1) == 0: return mul(mod(div(a, 2 ** k), (b >> k) + 1), 2 ** k)
            raise Unsupported("BitAnd")
        elif op in ("BitOr", "BitXor"):
            if isinstance(a, int) and isinstance(b, int): return a | b if op == "BitOr" else a ^ b
            r = self.disjoint_or(st, a, b)
            if r is None: r = self.disjoint_or(st, b, a)
            if r is None: raise Unsupported(op)
            return r
        else: raise Unsupported(op)
        return self.wrap(r, t)

    def disjoint_or(self, st, a, b):
        """a | b where a is a multiple of 2^k and 0 <= b < 2^k."""
        m, c = monos(a) if isz(a) else ({}, a)
        k = None
        for co in [x[0] for x in m.values()] + ([c] if c else []):
            t = (co & -co).bit_length() - 1 if co else 0
            k = t if k is None else min(k, t)
        if k is None:                   # a == 0
            lo, hi = bounds(b)
            if lo is not None and hi is not None and 0 <= lo: return b
            for w in (16, 256):
                if self.valid(st, and_(le(0, b), lt(b, w))):
                    n = fresh("bits", I, 0, w - 1)
                    self.th_defs(st, n, b)
                    return n
            return b
        if k == 0: return None
        lo, hi = bounds(b)
        if not (lo is not None and hi is not None and 0 <= lo and hi < 2 ** k):
            if not self.valid(st, and_(le(0, b), lt(b, 2 ** k))): return None
            n = fresh("bits", I, 0, 2 ** k - 1)
            self.th_defs(st, n, b)
            b = n
        return add(a, b)

    def th_defs(self, st, n, e):
        # a new name: the definition is a fact of the whole run
        self.defs = getattr(self, "defs", {})
        n_ = n.decl().name()
        self.defs[n_] = (n, e)
        st.pc = st.pc + (n == e,)
        st.pcids = st.pcids | {(n == e).get_id()}

    def rvalue(self, st, fr, r, dst, raw):
        k = r[0]
        if k == "use": return self.operand(st, fr, r[1])
        if k in ("ref", "refmut"):
            b = self.resolve(st, fr, r[1])
            if b[0] == "cell":
                v = self.get(st, b)
                if isinstance(v, View) and r[1][1] and r[1][1][-1][0] in ("deref", "sub"): return v      # reborrow of a slice
                return Ref(b[1], b[2])
            v = b[1]
            if isinstance(v, View): return v
            return VRef(v)
        if k == "bin":
            return self.binop(st, fr, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), self.otype(fr, r[2]) or self.otype(fr, r[3]))
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if isinstance(v, bool) or z3.is_bool(v): return not_(v)
                sg, w = P.INT_T[self.otype(fr, r[2])]
                return sub(-1, v) if sg else sub(2 ** w - 1, v)
            return sub(0, v)
        if k in ("meta", "len"):
            v = self.operand(st, fr, r[1]) if k == "meta" else self.get(st, self.resolve(st, fr, r[1]))
            if isinstance(v, (VRef,)): v = v.v
            if isinstance(v, Ref): v = self.get(st, ("cell", v.key, v.path))
            if isinstance(v, View): return v.len()
            if isinstance(v, Agg): return len(v.fields)
            raise Unsupported("length of " + str(v))
        if k == "discr":
            v = self.get(st, self.resolve(st, fr, r[1]))
            if isinstance(v, Enum): return v.discr
            raise Unsupported("discriminant of " + str(v))
        if k == "cast":
            v = self.operand(st, fr, r[1])
            kind, t = r[3], r[2]
            if kind == "IntToInt":
                if isinstance(v, bool) or (isz(v) and z3.is_bool(v)): return ite(v, 1, 0)
                if t == "char": return v
                return self.wrap(v, t)
            if kind == "Transmute" and isinstance(v, (View, Opq)): return v
            if kind.startswith("PointerCoercion(Unsize") :
                if isinstance(v, Ref): v = VRef(self.get(st, ("cell", v.key, v.path)))
                if isinstance(v, VRef) and isinstance(v.v, View): return v.v
                return v
            if kind.startswith("PointerCoercion"): return v
            raise Unsupported("cast " + kind)
        if k == "tuple": return Agg([self.operand(st, fr, x) for x in r[1]])
        if k == "array": return Agg([self.operand(st, fr, x) for x in r[1]], "array")
        if k == "repeat":
            m = re.match(r"^(?:const )?(\d+)(_usize)?$", r[2])
            if not m: raise Unsupported("repeat")
            return Agg([self.operand(st, fr, r[1])] * int(m.group(1)), "array")
        if k == "closure":
            path = fr.f.closure_of.get(dst[0]) if not dst[1] else None
            return FnVal("closure:" + (path or "?") , [self.operand(st, fr, x) for _, x in r[2]])
        if k == "struct":
            seg = path_last(r[1])
            fields = [self.operand(st, fr, x) for _, x in r[2]]
            if seg[-1] in ("Range", "RangeFrom", "RangeTo", "RangeInclusive", "RangeToInclusive"):
                if seg[-1] == "Range": return RangeV("Range", fields[0], fields[1])
                if seg[-1] == "RangeFrom": return RangeV("RangeFrom", fields[0], 0)
                if seg[-1] == "RangeTo": return RangeV("RangeTo", 0, fields[0])
                if seg[-1] == "RangeToInclusive": return RangeV("RangeToInclusive", 0, fields[0])
            return Agg(fields, seg[-1], [n for n, _ in r[2]])
        if k == "ctor":
            seg = path_last(r[1])
            args = [self.operand(st, fr, x) for x in r[2]]
            last = seg[-1]
            en = seg[-2] if len(seg) > 1 else None
            if en == "Host" and last in ("Ipv4", "Ipv6"): en = "UHost"
            if en is None and args:
                t = path_last(self.ptype(fr, dst))
                if t and t[-1] in VARIANTS and last in VARIANTS[t[-1]]: en = t[-1]
                elif t and t[-1].endswith("Error") and t[-1] != last: en = t[-1]
            if en in VARIANTS and last in VARIANTS[en]:
                return Enum(en, vidx(en, last), {last: tuple(args)} if args else {})
            if en and en.endswith("Error"): return Enum(en, vidx(en, last), {last: tuple(args)} if args else {})
            if last == "RangeFull": return RangeV("RangeFull", 0, 0)
            if not args:
                t = path_last(self.ptype(fr, dst))
                if t and t[-1].endswith("Error"): return Enum(t[-1], vidx(t[-1], last), {})
                if t and t[-1] in VARIANTS and last in VARIANTS[t[-1]]: return Enum(t[-1], vidx(t[-1], last), {})
            return Agg(args, last)
        raise Unsupported("rvalue " + k)

    # ---- obligations
    def require(self, st, kind, fr, goal, msg):
        """goal must hold here; afterwards it is assumed."""
        if goal is True: return st
        if self.collecting:
            self.obls.append(Obl(kind, fr.f.name if fr else "", st.pc, goal, msg))
        return st.assume(goal)

    # ---- execution
    def run(self, f, args, st):
        """All results of calling f: [(state, value)], frame removed."""
        if self.depth > 40: raise Unsupported("recursion")
        self.depth += 1
        try:
            fr = Frame(f)
            st = st.copy()
            for (n, _), v in zip(f.args, args): st.mem[(fr.fid, n)] = v
            c = self.cfg(f)
            ex = self.region(c, fr, 0, [st], set(c.stm), None)
            out = []
            for s in ex.get("return", []):
                v = s.mem.get((fr.fid, 0), UNIT)
                mem = {k: x for k, x in s.mem.items() if k[0] != fr.fid}
                out.append((St(s.pc, mem, s.pcids), v))
            return out
        finally:
            self.depth -= 1

    def run1(self, f, args, st):
        """Like run, with the results merged as far as possible."""
        outs = self.run(f, args, st)
        key = ("ret", Frame.n)
        sts = []
        for s, v in outs:
            s = s.copy(); s.mem[key] = v
            sts.append(s)
        r = []
        for s in merge_all(sts):
            v = s.mem.pop(key)
            r.append((s, v))
        return r

    def region(self, c, fr, entry, sts, blocks, header):
        """Runs the blocks from entry; edges back to header are collected under 'latch', edges out of blocks under their target."""
        pend = {entry: list(sts)}
        exits = {}
        skip_header = header is not None
        order = [b for b in c.rpo if b in blocks]
        for b in order:
            ss = pend.pop(b, None)
            if not ss: continue
            if self.deadline and time.time() > self.deadline: raise Unsupported("time")
            if b in c.loops and not (b == header):
                for s in merge_all(ss):
                    for t, xs in self.loop(c, fr, b, s).items():
                        if t in blocks and t != header: pend.setdefault(t, []).extend(xs)
                        else: exits.setdefault("latch" if t == header else t, []).extend(xs)
                continue
            for s in (merge_all(ss) if len(ss) > 1 else ss):
                for t, s2 in self.block(c, fr, b, s):
                    if t == header and header is not None: exits.setdefault("latch", []).append(s2)
                    elif t in blocks and t != "return": pend.setdefault(t, []).append(s2)
                    else: exits.setdefault(t, []).append(s2)
        return exits

    def block(self, c, fr, b, st):
        st = st.copy()
        for s, raw, vraw in c.stm[b]:
            k = s[0]
            if k == "nop": continue
            if k == "dead":
                st.mem.pop((fr.fid, s[1]), None)
                continue
            if k == "assign":
                if s[2][0] == "nop": continue
                v = self.rvalue(st, fr, s[2], s[1], raw)
                self.put(st, self.resolve(st, fr, s[1]), v)
                continue
            if k == "setdiscr":
                continue
            if k == "goto": return [(s[1], st)]
            if k == "return": return [("return", st)]
            if k in ("unreachable",):
                if self.collecting: self.obls.append(Obl("unreachable", fr.f.name, st.pc, False, "unreachable code reached"))
                return []
            if k == "resume": return []
            if k == "switch":
                v = self.operand(st, fr, s[1])
                out, rest = [], st
                if isinstance(v, bool) or (isz(v) and z3.is_bool(v)):
                    for val, t in s[2]:
                        cnd = v if val == 1 else not_(v)
                        x = rest.assume(cnd)
                        if x is not None: out.append((t, x.copy()))
                        rest = rest.assume(not_(cnd))
                        if rest is None: break
                else:
                    for val, t in s[2]:
                        cnd = eq(v, val)
                        x = rest.assume(cnd)
                        if x is not None: out.append((t, x.copy()))
                        rest = rest.assume(not_(cnd))
                        if rest is None: break
                if rest is not None and s[3] is not None:
                    tt = c.stm.get(s[3])
                    if tt and tt[-1][0][0] == "unreachable" and all(q[0][0] in ("nop", "dead") for q in tt[:-1]): pass   # exhaustive match on an enum
                    else: out.append((s[3], rest.copy()))
                return out
            if k == "assert":
                v = self.operand(st, fr, s[1])
                g = not_(v) if s[2] else v
                st2 = self.require(st, "panic", fr, g, s[3])
                return [(s[4], st2)] if st2 is not None else []
            if k == "call":
                out = []
                for s2, v in self.call(st, fr, s[2], [self.operand(st, fr, a) for a in s[3]], s, vraw):
                    if s[4] is None: continue
                    s2 = s2.copy()
                    self.put(s2, self.resolve(s2, fr, s[1]), v)
                    out.append((s[4], s2))
                return out
            raise Unsupported("statement " + raw[:100])
        raise Unsupported("block without end")

    def call(self, st, fr, callee, args, s, vraw):
        r = self.std.call(self, st, fr, callee, args)
        if r is not None: return r
        f = self.find_local(fr, callee)
        if f is not None:
            return self.summary(f, args, st)
        raise Unsupported("call " + callee)

    def argkey(self, v):
        if isinstance(v, bool) or not isinstance(v, V): return ("z", v.get_id(), v) if isz(v) else ("c", v)
        if isinstance(v, Undef): return ("u",)
        if isinstance(v, (Agg, FnVal)): return (type(v).__name__, getattr(v, "tag", None) or getattr(v, "path", ""), tuple(self.argkey(x) for x in v.fields))
        if isinstance(v, Enum): return ("E", v.name, self.argkey(v.discr), tuple((k, tuple(self.argkey(x) for x in v.pay[k])) for k in sorted(v.pay)))
        if isinstance(v, VRef): return ("r", self.argkey(v.v))
        if isinstance(v, View): return ("v", v.s.get_id(), self.argkey(v.lo), self.argkey(v.hi), v.kind)
        if isinstance(v, Owned): return ("o", self.argkey(v.view))
        if isinstance(v, MapV): return ("m", tuple((k, self.argkey(c), self.argkey(x)) for k, (c, x) in sorted(v.at.items())))
        if isinstance(v, Opq): return ("q", v.ty, self.argkey(v.term))
        raise Unsupported("argument")

    def frozen(self, st, v):
        """The value without references into the caller's memory, or None."""
        if isinstance(v, Ref): return VRef(self.frozen(st, self.get(st, ("cell", v.key, v.path))))
        if isinstance(v, VRef): return VRef(self.frozen(st, v.v))
        if isinstance(v, Agg):
            return Agg([self.frozen(st, x) for x in v.fields], v.tag, v.names)
        if isinstance(v, FnVal): return FnVal(v.path, [self.frozen(st, x) for x in v.fields])
        if isinstance(v, Enum): return Enum(v.name, v.discr, {k: tuple(self.frozen(st, x) for x in p) for k, p in v.pay.items()})
        if isinstance(v, MapV): return MapV({k: (c, self.frozen(st, x)) for k, (c, x) in v.at.items()})
        if isinstance(v, (View, Owned, Opq, Undef)) or not isinstance(v, V): return v
        raise Unsupported("argument")

    def summary(self, f, args, st):
        """Calls f. A function that cannot write through its arguments is executed once per distinct arguments, without the
        caller's knowledge, and its exact summary (with its own obligations proved there) is used at every call."""
        if not any("&mut" in t for _, t in f.args) and len(f.blocks) > 6 and not (self.in_case and self.depth <= 1):
            try:
                fa = [self.frozen(st, v) for v in args]
                key = (id(f), tuple(self.argkey(v) for v in fa))
                hash(key)
            except Unsupported:
                key = None
            if key is not None and key not in self.nosum:
                if key not in self.sums:
                    saved, col = self.obls, self.collecting
                    self.obls, self.collecting = [], True
                    try:
                        outs = self.run1(f, fa, St())
                        outs = [(s, self.frozen(s, v)) for s, v in outs]
                        mine = self.obls
                        if not self.toplevel_only(mine): raise Unsupported("precondition")
                        self.sums[key] = (outs, mine, fa)
                    except Unsupported:
                        self.nosum[key] = fa
                    finally:
                        self.obls, self.collecting = saved, col
                if key in self.sums:
                    outs, mine, _ = self.sums[key]
                    if self.collecting and key not in self.reported:
                        self.reported.add(key)
                        self.obls.extend(mine)
                    r = []
                    for s, v in outs:
                        x = st
                        for c in s.pc:
                            x = x.assume(c) if x is not None else None
                        if x is not None: r.append((x.copy(), v))
                    self.inlined[f.name] = self.inlined.get(f.name, 0) + 1
                    return r
        self.inlined[f.name] = self.inlined.get(f.name, 0) + 1
        return self.run1(f, args, st)

    def toplevel_only(self, obls):
        for o in obls:
            if o.goal is None: continue
            if getattr(o, "verdict", None) is None: o.verdict = self.th.check(o.pc, o.goal)[0]
            if o.verdict != "proved": return False
        return True

    def find_local(self, fr, callee):
        seg = tuple(path_last(callee)[-2:])
        c = [k for k in self.fns if k == callee]
        if c: return self.fns[c[0]]
        # Type::method -> <impl at L>::method, in the impls of that type
        r = self.std.local(self, fr, callee, seg)
        return r

    def call_value(self, st, fr, f, args):
        """Calls a closure or a function item."""
        if isinstance(f, Ref): f = self.get(st, ("cell", f.key, f.path))
        if isinstance(f, VRef): f = f.v
        if isinstance(f, FnVal) and f.path.startswith("closure:"):
            cp = f.path[8:]
            cand = [k for k in self.fns if re.sub(r"#\d+$", "", k) and (k == cp or self.closure_match(fr, k, cp))]
            if len(cand) != 1: raise Unsupported(f"closure {cp} {len(cand)}")
            g = self.fns[cand[0]]
            a0 = Agg(f.fields, "closure")
            self.inlined[g.name] = self.inlined.get(g.name, 0) + 1
            env = VRef(a0) if g.args[0][1].startswith("&") else a0
            return self.run1(g, [env] + list(args), st)
        if isinstance(f, FnVal): return self.call(st, fr, f.path, list(args), None, None)
        raise Unsupported(f"call of {f}")

    def closure_match(self, fr, k, cp):
        a, b = path_last(k), path_last(cp)
        if not a or not b: return False
        if not k.startswith(fr.f.name + "::{closure"): return False
        return a[-1] == b[-1]

    # ---- loops
    def loop(self, c, fr, h, st):
        body = c.loops[h]
        r = self.try_unroll(c, fr, h, st, body)
        if r is not None: return r
        return self.invariant_loop(c, fr, h, st, body)

    def trip(self, c, fr, h, st, body):
        """Number of remaining iterator elements if a byte iterator drives the loop, else None. Makes constant segments explicit."""
        best = None
        for key, v in list(st.mem.items()):
            if key[0] != fr.fid: continue
            it, wrapk = v, []
            while isinstance(it, Adapt) and it.kind in ("enumerate", "rev", "peekable"):
                it = it.inner
            if isinstance(it, Seg) and it is v:
                used = any(f"_{key[1]}" in raw and "&mut" in raw for b in body for _, raw, _ in c.stm[b])
                if not used: continue
                segs, tot = [], 0
                for lo, hi in it.segs:
                    n = sub(hi, lo)
                    if isz(n):
                        n = self.unique(st, n)
                        if n is None or n > 64: return None
                    segs.append((lo, add(lo, n)))
                    tot += n
                if tot > 64: return None
                best = (key, Seg(it.s, segs, it.mode), tot)
        return best

    def unique(self, st, e):
        """The only value e can have here, if any."""
        for k in range(0, 65) if False else ():
            pass
        v, m = self.th.check(st.pc, z3.BoolVal(False))
        if v != "refuted": return None
        x = m.eval(e, model_completion=True)
        if not z3.is_int_value(x): return None
        n = x.as_long()
        if n < 0: return None
        return n if self.th.check(st.pc, e == n)[0] == "proved" else None

    def try_unroll(self, c, fr, h, st, body):
        t = self.trip(c, fr, h, st, body)
        limit = 8
        if t is not None:
            key, v, n = t
            st = st.copy(); st.mem[key] = v
            limit = n + 2
        saved = len(self.obls)
        exits, cur = {}, [st]
        for it in range(limit):
            nxt = []
            for s in cur:
                ex = self.region(c, fr, h, [s], body, h)
                for k, xs in ex.items():
                    if k == "latch": nxt.extend(xs)
                    else: exits.setdefault(k, []).extend(xs)
            nxt = merge_all(nxt)
            if t is None or it >= limit - 2:
                nxt = [s for s in nxt if self.th.check(s.pc, False)[0] != "proved"]
            if not nxt: return exits
            cur = nxt
            if t is None and it == 0 and not self.bounded_hint(c, fr, st, nxt): break
        del self.obls[saved:]
        return None

    def bounded_hint(self, c, fr, st, nxt):
        """Worth unrolling: some integer compared with a constant bound of at most 8 in this state is driving the loop."""
        for s in nxt:
            for key, v in s.mem.items():
                if key[0] != fr.fid: continue
                if isinstance(v, int) and not isinstance(v, bool) and st.mem.get(key) != v and v <= 8:
                    # an index starting small: unroll only if the state bounds some length by a small number
                    for k2, v2 in st.mem.items():
                        if k2[0] == fr.fid and isz(v2) and z3.is_int(v2):
                            lo, hi = bounds(v2)
                            if (hi is not None and hi <= 8): return True
        return False

    def invariant_loop(self, c, fr, h, st, body):
        import inv
        return inv.run_loop(self, c, fr, h, st, body)
