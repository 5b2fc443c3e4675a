"""Kani proof crates for the finite-domain parts: floats, booleans, locality, lengths, bit/byte sizes.

All harnesses are loop-free over the complete domain of the entry point (or have loops bounded by the data type),
so acceptance is a proof.
"""

FE = """#![allow(unused, non_camel_case_types)]
use validators::prelude::*; use validators::errors::*;
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum V { Ok, Small, Large, Forb, NaNMust, NaNDis, Other }
"""


def float_crate(quick):
    o = [FE, """
pub fn cn<T>(r: &Result<T, NumberError>) -> V { match r { Ok(_) => V::Ok, Err(NumberError::TooSmall) => V::Small, Err(NumberError::TooLarge) => V::Large, Err(NumberError::Forbidden) => V::Forb, Err(NumberError::NaNMust) => V::NaNMust, Err(NumberError::NaNDisallow) => V::NaNDis, Err(_) => V::Other } }
"""]
    harn = []
    shapes = [("unl", None, None, None, None)]
    for k in ("Inside", "Outside"):
        shapes += [(k + "_mm", k, -1.5, 2.25, None), (k + "_mmt", k, -1.5, 2.25, True), (k + "_mmf", k, -1.5, 2.25, False),
                   (k + "_min", k, 0.5, None, None), (k + "_minf", k, 0.5, None, False),
                   (k + "_max", k, None, -0.5, None), (k + "_maxf", k, None, -0.5, False),
                   (k + "_eq", k, 3.5, 3.5, None), (k + "_zero", k, 0.0, 1.0, None), (k + "_stepf", k, 1.0, 2.0, False), (k + "_big", k, -1e30, 1e30, False)]
    for ty in ("f64", "f32"):
        oth = "f32" if ty == "f64" else "f64"
        for nan in ("", "Allow", "Must", "Disallow"):
            for name, kind, mn, mx, incl in shapes:
                attrs = []
                if kind:
                    ps = []
                    if mn is not None: ps.append(f"min = {mn!r}")
                    if mx is not None: ps.append(f"max = {mx!r}")
                    if incl is not None: ps.append(f"inclusive = {str(incl).lower()}")
                    attrs.append(f"range({kind}({', '.join(ps)}))")
                elif nan:
                    attrs.append("range(Unlimited)")
                if nan:
                    attrs.append(f"nan({nan})")
                if nan == "Must" and kind:
                    attrs.append("conflict(Allow)")
                T = f"T_{ty}_{name}_{nan or 'D'}"
                a = f"({', '.join(attrs)})" if attrs else ""
                o.append(f"#[derive(Validator)]\n#[validator(number{a})]\npub struct {T}(pub {ty});")
                inc = True if incl is None else incl
                s = ""
                if kind == "Inside":
                    if mn is not None: s += f"    if v < ({mn!r} as {ty}) {{ w = V::Small; }}\n"
                    if mx is not None: s += f"    if v {'>' if inc else '>='} ({mx!r} as {ty}) {{ w = V::Large; }}\n"
                elif kind == "Outside":
                    c = []
                    if mn is not None: c.append(f"v >= ({mn!r} as {ty})")
                    if mx is not None: c.append(f"v {'<=' if inc else '<'} ({mx!r} as {ty})")
                    s += f"    if {' && '.join(c)} {{ w = V::Forb; }}\n"
                n = {"": "true", "Allow": "true", "Must": "true", "Disallow": "g == V::NaNDis"}[nan]
                if nan != "Disallow":
                    n = "g == V::Ok"
                must = "\n    if w == V::Ok { return g == V::NaNMust; } else { return g == w || g == V::NaNMust; }" if nan == "Must" else ""
                o.append(f"""#[allow(unused_mut)]
pub fn ok_{T}(v: {ty}, g: V) -> bool {{
    if v.is_nan() {{ return {n}; }}
    let mut w = V::Ok;
{s}{must}
    g == w
}}""")
                h = f"num_{T[2:]}"
                cov = ""
                o.append(f"""#[cfg(kani)]
#[kani::proof]
fn {h}() {{
    {{
        let v: {ty} = kani::any();
        let r = <{T} as ValidateNumber>::parse_{ty}(v);
        let g = cn(&r);
        assert!(ok_{T}(v, g), "parse_{ty} verdict");
        if let Ok(x) = &r {{ assert!(x.0.to_bits() == v.to_bits() || (x.0.is_nan() && v.is_nan()), "parse_{ty} value preserved"); }}
        assert!(cn(&<{T} as ValidateNumber>::validate_{ty}(v)) == g, "validate_{ty} agrees with parse_{ty}");
    }}
    {{
        let v: {oth} = kani::any();
        let g = cn(&<{T} as ValidateNumber>::parse_{oth}(v));
        let x = v as {ty};
        assert!(ok_{T}(x, g), "parse_{oth} verdict");
        if let Ok(y) = <{T} as ValidateNumber>::parse_{oth}(v) {{ assert!(y.0.to_bits() == x.to_bits() || (x.is_nan() && y.0.is_nan()), "parse_{oth} value"); }}
        assert!(cn(&<{T} as ValidateNumber>::validate_{oth}(v)) == g, "validate_{oth} agrees");
        kani::cover!(g == V::Ok, "some value accepted");
    }}
}}""")
                harn.append(h)
    return "\n".join(o) + "\n", harn


BOOL = """#![allow(unused)]
use validators::prelude::*;
#[derive(Validator)]
#[validator(boolean)]
pub struct B(pub bool);
pub fn v<E>(r: Result<B, E>) -> Option<bool> { match r { Ok(B(b)) => Some(b), Err(_) => None } }
"""


def bool_crate():
    o = [BOOL]
    harn = []

    def h(name, ty, call, val, want):
        harn.append(name)
        o.append(f"""#[cfg(kani)]
#[kani::proof]
fn {name}() {{
    let x: {ty} = kani::any();
    let want: Option<bool> = {want};
    assert!(v({call.format('x')}) == want, "{name}: parse verdict and value");
    assert!({val.format('x')}.is_ok() == want.is_some(), "{name}: validate agrees");
    kani::cover!(want.is_some());
}}""")

    h("boolean_char", "char", "<B as ValidateChar>::parse_char({})", "<B as ValidateChar>::validate_char({})",
      "match x { 't'|'T'|'1'|'y'|'Y' => Some(true), 'f'|'F'|'0'|'n'|'N' => Some(false), _ => None }")
    for w in ("i8", "i16", "i32", "i64", "isize", "i128"):
        h(f"boolean_{w}", w, f"<B as ValidateSignedInteger>::parse_{w}({{}})", f"<B as ValidateSignedInteger>::validate_{w}({{}})",
          "if x == 1 { Some(true) } else if x == 0 { Some(false) } else { None }")
    for w in ("u8", "u16", "u32", "u64", "usize", "u128"):
        h(f"boolean_{w}", w, f"<B as ValidateUnsignedInteger>::parse_{w}({{}})", f"<B as ValidateUnsignedInteger>::validate_{w}({{}})",
          "if x == 1 { Some(true) } else if x == 0 { Some(false) } else { None }")
    h("boolean_bool", "bool", "<B as ValidateBoolean>::parse_bool({})", "<B as ValidateBoolean>::validate_bool({})", "Some(x)")
    return "\n".join(o), harn


LOCAL = """#![allow(unused)]
use std::net::*;
pub fn v4_local(a: u32) -> bool {
    (a >> 24) == 10 || (a >> 20) == 0xAC1 || (a >> 16) == 0xC0A8          // private
        || (a >> 24) == 127                                               // loopback
        || (a >> 16) == 0xA9FE                                            // link local
        || a == 0xFFFF_FFFF                                               // broadcast
        || (a >> 8) == 0xC0_0002 || (a >> 8) == 0xC6_3364 || (a >> 8) == 0xCB_0071 // documentation
        || a == 0                                                         // unspecified
}
pub fn v6_local(a: u128) -> bool {
    if (a >> 120) == 0xFF { return (a >> 112) & 0xF != 0xE; }             // multicast, all scopes but global
    a == 0 || a == 1                                                      // unspecified, loopback
        || (a >> 118) == (0xFE80 >> 6) || (a >> 118) == (0xFEC0 >> 6)     // link local, site local
        || (a >> 121) == (0xFC00 >> 9)                                    // unique local
        || (a >> 96) == 0x2001_0DB8                                       // documentation
        || (((a >> 32) == 0 || (a >> 32) == 0xFFFF) && v4_local(a as u32)) // IPv4-compatible / IPv4-mapped
}
#[cfg(kani)]
#[kani::proof]
fn local_ipv4() {
    let a: u32 = kani::any();
    let w = v4_local(a);
    assert!(validators::functions::is_local_ipv4(Ipv4Addr::from(a)) == w, "is_local_ipv4 contract");
    kani::cover!(w); kani::cover!(!w);
}
#[cfg(kani)]
#[kani::proof]
fn local_ipv6() {
    let a: u128 = kani::any();
    let w = v6_local(a);
    assert!(validators::functions::is_local_ipv6(Ipv6Addr::from(a)) == w, "is_local_ipv6 contract");
    kani::cover!(w && (a >> 120) == 0xFF); kani::cover!(w && (a >> 32) == 0xFFFF); kani::cover!(!w);
}
#[cfg(kani)]
#[kani::proof]
fn local_ip() {
    let a: u32 = kani::any();
    let b: u128 = kani::any();
    assert!(validators::functions::is_local_ip(IpAddr::V4(Ipv4Addr::from(a))) == v4_local(a), "is_local_ip v4 contract");
    assert!(validators::functions::is_local_ip(IpAddr::V6(Ipv6Addr::from(b))) == v6_local(b), "is_local_ip v6 contract");
    kani::cover!(v4_local(a)); kani::cover!(v6_local(b));
}
"""
LOCAL_H = ["local_ipv4", "local_ipv6", "local_ip"]


def length_crate():
    o = ["""#![allow(unused, non_camel_case_types)]
use validators::prelude::*; use validators::errors::*;
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum V { Ok, Small, Large }
pub fn c<T>(r: &Result<T, LengthError>) -> V { match r { Ok(_) => V::Ok, Err(LengthError::TooSmall) => V::Small, Err(LengthError::TooLarge) => V::Large } }
/// A collection whose length is any usize: the generated checks only see `CollectionLength::len`.
pub struct Any(pub usize);
impl CollectionLength for Any { fn len(&self) -> usize { self.0 } }
"""]
    harn = []
    M = (1 << 64) - 1
    shapes = [("mm", 3, 100), ("eq", 7, 7), ("min", 5, None), ("max", None, 9), ("z", 0, 0), ("one", 0, 1), ("adj", 8, 9),
              ("min0", 0, None), ("max0", None, 0), ("big", 1 << 32, 1 << 40), ("minb", (1 << 63) + 1, None), ("maxb", None, (1 << 63) + 1)]
    for name, mn, mx in shapes:
        ps = []
        if mn is not None: ps.append(f"min = {mn}")
        if mx is not None: ps.append(f"max = {mx}")
        s = ""
        if mn: s += f"    if n < {mn}usize {{ return V::Small; }}\n"
        if mx is not None: s += f"    if n > {mx}usize {{ return V::Large; }}\n"
        for ty, mk, get in (("Any", "Any(n)", "x.0.0"), ("Vec<()>", "{ let mut q: Vec<()> = Vec::new(); unsafe { q.set_len(n) }; q }", "x.0.len()")):
            T = f"L_{name}_{'A' if ty == 'Any' else 'V'}"
            o.append(f"#[derive(Validator)]\n#[validator(length({', '.join(ps)}))]\npub struct {T}(pub {ty});")
            o.append(f"pub fn spec_{T}(n: usize) -> V {{\n{s}    V::Ok\n}}")
            h = f"len_{T[2:]}"
            harn.append(h)
            o.append(f"""#[cfg(kani)]
#[kani::proof]
fn {h}() {{
    let n: usize = kani::any();
    let want = spec_{T}(n);
    let q: {ty} = {mk};
    assert!(c(&<{T} as ValidateLength<{ty}>>::validate_collection(&q)) == want, "validate_collection verdict");
    let r = <{T} as ValidateLength<{ty}>>::parse_collection(q);
    assert!(c(&r) == want, "parse_collection verdict");
    if let Ok(x) = &r {{ assert!({get} == n, "collection preserved"); }}
    kani::cover!(want == V::Ok, "some length accepted");
    std::mem::forget(r);
}}""")
    return "\n".join(o) + "\n", harn


def unit_crate():
    o = ["""#![allow(unused, non_camel_case_types)]
use validators::prelude::*; use validators::errors::*; use validators::byte_unit::{Bit, Byte};
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum V { Ok, Small, Large, Other }
pub fn c_bit<T>(r: &Result<T, BitError>) -> V { match r { Ok(_) => V::Ok, Err(BitError::TooSmall) => V::Small, Err(BitError::TooLarge) => V::Large, Err(_) => V::Other } }
pub fn c_byte<T>(r: &Result<T, ByteError>) -> V { match r { Ok(_) => V::Ok, Err(ByteError::TooSmall) => V::Small, Err(ByteError::TooLarge) => V::Large, Err(_) => V::Other } }
"""]
    harn = []
    M = (1 << 64) - 1
    # the range parameters become Bit/Byte comparisons against u128 literals
    shapes = [("d", None, None, None), ("mm", 10, 100, None), ("mmf", 10, 100, False), ("mmt", 10, 100, True), ("eq", 7, 7, None),
              ("eqf", 7, 8, False), ("min", 1 << 33, None, None), ("minf", 1 << 33, None, False), ("max", None, 9, None), ("maxf", None, 9, False),
              ("adj", 7, 8, None), ("edge", 0, M, None), ("edgef", 1, M, False)]
    for kind in ("bit", "byte"):
        K = kind.capitalize()
        for name, mn, mx, incl in shapes:
            ps = []
            if mn is not None: ps.append(f"min = {mn}")
            if mx is not None: ps.append(f"max = {mx}")
            if incl is not None: ps.append(f"inclusive = {str(incl).lower()}")
            T = f"U_{kind}_{name}"
            o.append(f"#[derive(Validator)]\n#[validator({kind}{'(range(' + ', '.join(ps) + '))' if ps else ''})]\npub struct {T}(pub {K});")
            s = ""
            if mn: s += f"    if n < {mn} {{ return V::Small; }}\n"
            if mx is not None: s += f"    if n {'>=' if incl is False else '>'} {mx} {{ return V::Large; }}\n"
            o.append(f"pub fn spec_{T}(n: u128) -> V {{\n    if n > {M} {{ return V::Large; }}\n{s}    V::Ok\n}}")
            h = f"unit_{kind}_{name}"
            harn.append(h)
            body = ""
            for w in ("u8", "u16", "u32", "u64", "usize", "u128"):
                body += f"""    {{
        let n: {w} = kani::any();
        let want = spec_{T}(n as u128);
        let r = <{T} as ValidateUnsignedInteger>::parse_{w}(n);
        assert!(c_{kind}(&r) == want, "parse_{w} verdict");
        if let Ok(x) = &r {{ assert!(x.0.as_u128() == n as u128, "parse_{w} size preserved"); }}
        assert!(c_{kind}(&<{T} as ValidateUnsignedInteger>::validate_{w}(n)) == want, "validate_{w} verdict");
        {'kani::cover!(want == V::Ok, "accepted"); kani::cover!(want != V::Ok, "rejected");' if w == "u128" else ''}
    }}
"""
            o.append(f"#[cfg(kani)]\n#[kani::proof]\nfn {h}() {{\n{body}}}")
    return "\n".join(o) + "\n", harn
