"""Generate the Kani proof crate for the integer validators (C03).

Every harness is loop-free and quantifies over the complete domain of the entry point it calls
(a full symbolic i8..i128 / u8..u128), so an accepted harness is a proof, not a bounded check.
"""
from itertools import product

SIGNED = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}
UNSIGNED = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}


def lims(ty):
    if ty in SIGNED:
        b = SIGNED[ty]
        return -(1 << (b - 1)), (1 << (b - 1)) - 1
    return 0, (1 << UNSIGNED[ty]) - 1


def shapes(ty):
    """(name, attribute text, spec) with spec = (kind, min|None, max|None, inclusive)."""
    lo, hi = lims(ty)
    signed = ty in SIGNED
    a = lo // 2 - 3 if signed else 7
    b = hi // 2 + 5
    out = []

    def add(name, kind, mn, mx, incl=None):
        if kind == "Unlimited":
            out.append((name, "range(Unlimited)", (kind, None, None, True)))
            return
        ps = []
        if mn is not None:
            ps.append(f"min = {mn}")
        if mx is not None:
            ps.append(f"max = {mx}")
        if incl is not None:
            ps.append(f"inclusive = {'true' if incl else 'false'}")
        out.append((name, f"range({kind}({', '.join(ps)}))", (kind, mn, mx, True if incl is None else incl)))

    out.append(("dflt", "", ("Unlimited", None, None, True)))
    add("unlim", "Unlimited", None, None)
    for k in ("Inside", "Outside"):
        add(k + "_mm", k, a, b)
        add(k + "_mm_t", k, a, b, True)
        add(k + "_mm_f", k, a, b, False)
        add(k + "_min", k, a, None)
        add(k + "_min_f", k, a, None, False)
        add(k + "_max", k, None, b)
        add(k + "_max_f", k, None, b, False)
        add(k + "_eq", k, b, b)
        add(k + "_eq_f", k, b, b + 1, False)
        add(k + "_two", k, b, b + 1)
        add(k + "_edge", k, lo, hi)
        add(k + "_edge_f", k, lo, hi, False)
        add(k + "_eqlo", k, lo, lo)
        add(k + "_eqhi", k, hi, hi)
        add(k + "_zero", k, 0, 0 if signed else 1, signed)
        if signed:
            add(k + "_neg", k, lo + 1, -2)
            add(k + "_negf", k, -3, 0, False)
    return out


def spec_body(sp, lo, hi, wty):
    kind, mn, mx, incl = sp
    s = f"    if v > ({hi}{wty}) {{ return V::Large; }}\n"
    if lo < 0:
        s += f"    if v < ({lo}{wty}) {{ return V::Small; }}\n"
    if kind == "Inside":
        if mn is not None:
            s += f"    if v < ({mn}{wty}) {{ return V::Small; }}\n"
        if mx is not None:
            s += f"    if v {'>' if incl else '>='} ({mx}{wty}) {{ return V::Large; }}\n"
    elif kind == "Outside":
        c = []
        if mn is not None:
            c.append(f"v >= ({mn}{wty})")
        if mx is not None:
            c.append(f"v {'<=' if incl else '<'} ({mx}{wty})")
        s += f"    if {' && '.join(c)} {{ return V::Forb; }}\n"
    s += "    V::Ok\n"
    return s


QUICK = {'dflt', 'unlim', 'Inside_mm', 'Inside_mm_f', 'Inside_min', 'Inside_max_f', 'Inside_eq', 'Inside_eq_f', 'Inside_edge', 'Inside_max', 'Inside_eqlo', 'Inside_negf',
         'Outside_mm', 'Outside_mm_f', 'Outside_min_f', 'Outside_max', 'Outside_max_f', 'Outside_eq', 'Outside_eq_f', 'Outside_edge_f', 'Outside_zero'}


def gen(types=None, quick=False):
    o = ["""#![allow(unused, non_camel_case_types, unused_comparisons)]
use validators::prelude::*; use validators::errors::*;
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum V { Ok, Small, Large, Forb, Other }
pub fn cs<T>(r: &Result<T, SignedIntegerError>) -> V { match r { Ok(_) => V::Ok, Err(SignedIntegerError::TooSmall) => V::Small, Err(SignedIntegerError::TooLarge) => V::Large, Err(SignedIntegerError::Forbidden) => V::Forb, Err(_) => V::Other } }
pub fn cu<T>(r: &Result<T, UnsignedIntegerError>) -> V { match r { Ok(_) => V::Ok, Err(UnsignedIntegerError::TooSmall) => V::Small, Err(UnsignedIntegerError::TooLarge) => V::Large, Err(UnsignedIntegerError::Forbidden) => V::Forb, Err(_) => V::Other } }
#[cfg(kani)] macro_rules! any { ($t:ty) => { kani::any::<$t>() } }
"""]
    harn = []
    for ty in list(SIGNED) + list(UNSIGNED):
        signed = ty in SIGNED
        lo, hi = lims(ty)
        wty = "i128" if signed else "u128"
        if types and ty not in types:
            continue
        for name, attr, sp in shapes(ty):
            if quick and name not in QUICK:
                continue
            T = f"T_{ty}_{name}"
            vname = "signed_integer" if signed else "unsigned_integer"
            o.append(f"#[derive(Validator)]\n#[validator({vname}{'(' + attr + ')' if attr else ''})]\npub struct {T}(pub {ty});")
            o.append(f"pub fn spec_{ty}_{name}(v: {wty}) -> V {{\n{spec_body(sp, lo, hi, wty)}}}")
            h = f"int_{ty}_{name}"
            cls = "cs" if signed else "cu"
            tr = "ValidateSignedInteger" if signed else "ValidateUnsignedInteger"
            body = []
            for w in (SIGNED if signed else UNSIGNED):
                body.append(f"""    {{
        let v: {w} = kani::any();
        let want = spec_{ty}_{name}(v as {wty});
        let r = <{T} as {tr}>::parse_{w}(v);
        assert!({cls}(&r) == want, "parse_{w} verdict");
        if let Ok(x) = &r {{ assert!(x.0 as {wty} == v as {wty}, "parse_{w} value preserved"); }}
        assert!({cls}(&<{T} as {tr}>::validate_{w}(v)) == want, "validate_{w} verdict");
""" + (f"""        kani::cover!(want == V::Ok, "some value accepted");
""" if w.endswith("128") else "") + ("""        kani::cover!(want != V::Ok, "some value rejected");
""" if w.endswith("128") and not (ty.endswith("128") and (sp[0] == "Unlimited" or (sp[0] == "Inside" and sp[1] == lo and sp[2] == hi and sp[3]))) else "") + "    }")
            o.append(f"#[cfg(kani)]\n#[kani::proof]\nfn {h}() {{\n" + "\n".join(body) + "\n}")
            harn.append(h)
    return "\n".join(o) + "\n", harn
