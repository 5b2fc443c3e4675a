"""Kani proof crate for C20: deserialisation and serialisation of the finite-domain kinds (numbers, booleans, sizes, lengths).

The generated Deserialize/Serialize implementations are run on a serializer and deserializer that hold one primitive;
each harness quantifies over the complete domain of that primitive.
"""
import kani_gen_int as gi

W = ["i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128", "f32", "f64", "bool", "char"]
PRE = """#![allow(unused, non_camel_case_types)]
use validators::prelude::*; use validators::errors::*; use validators::byte_unit::{Bit, Byte};
use serde::{de::{self, Deserialize, Deserializer, Visitor, IntoDeserializer}, ser::{self, Serialize, Serializer, Impossible}};
#[derive(Debug)] pub struct E;
impl std::fmt::Display for E { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for E {}
impl de::Error for E { fn custom<T: std::fmt::Display>(_: T) -> E { E } }
impl ser::Error for E { fn custom<T: std::fmt::Display>(_: T) -> E { E } }
#[derive(Clone, Copy, PartialEq)]
pub enum P { %s }
pub struct D<const H: bool>(pub P);
impl<'de, const H: bool> Deserializer<'de> for D<H> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { match self.0 { %s } }
    fn is_human_readable(&self) -> bool { H }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
pub struct S<const H: bool>;
impl<const H: bool> Serializer for S<H> {
    type Ok = P; type Error = E;
    type SerializeSeq = Impossible<P, E>; type SerializeTuple = Impossible<P, E>; type SerializeTupleStruct = Impossible<P, E>;
    type SerializeTupleVariant = Impossible<P, E>; type SerializeMap = Impossible<P, E>; type SerializeStruct = Impossible<P, E>; type SerializeStructVariant = Impossible<P, E>;
%s
    fn serialize_str(self, _: &str) -> Result<P, E> { Err(E) }
    fn serialize_bytes(self, _: &[u8]) -> Result<P, E> { Err(E) }
    fn serialize_none(self) -> Result<P, E> { Err(E) }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<P, E> { Err(E) }
    fn serialize_unit(self) -> Result<P, E> { Err(E) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<P, E> { Err(E) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<P, E> { Err(E) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<P, E> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<P, E> { Err(E) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, E> { Err(E) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> { Err(E) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> { Err(E) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> { Err(E) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> { Err(E) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> { Err(E) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> { Err(E) }
    fn is_human_readable(&self) -> bool { H }
}
pub fn de<T: for<'a> Deserialize<'a>>(p: P) -> Option<T> { T::deserialize(D::<true>(p)).ok() }
pub fn deb<T: for<'a> Deserialize<'a>>(p: P) -> Option<T> { T::deserialize(D::<false>(p)).ok() }
/// A collection whose length is any u64 and whose serialised form is that number.
pub struct Any(pub u64);
impl CollectionLength for Any { fn len(&self) -> usize { self.0 as usize } }
impl<'a> Deserialize<'a> for Any { fn deserialize<X: Deserializer<'a>>(d: X) -> Result<Any, X::Error> { u64::deserialize(d).map(Any) } }
impl Serialize for Any { fn serialize<X: Serializer>(&self, s: X) -> Result<X::Ok, X::Error> { s.serialize_u64(self.0) } }
""" % (", ".join(f"{w.upper()}({w})" for w in W), ", ".join(f"P::{w.upper()}(x) => v.visit_{w}(x)" for w in W),
       "\n".join(f"    fn serialize_{w}(self, v: {w}) -> Result<P, E> {{ Ok(P::{w.upper()}(v)) }}" for w in W))


def crate(quick):
    o, harn = [PRE], []

    def proof(h, body):
        harn.append(h)
        o.append(f"#[cfg(kani)]\n#[kani::proof]\nfn {h}() {{\n{body}}}")

    def block(T, w, call, eq, de="de", cov=False):
        return f"""    {{
        let x: {w} = kani::any();
        let want: Option<{T}> = {call}.ok();
        let got: Option<{T}> = {de}(P::{w.upper()}(x));
        assert!(got.is_some() == want.is_some(), "a {w} is deserialised exactly when it parses");
        if let (Some(a), Some(b)) = (&got, &want) {{ assert!({eq}, "deserialising a {w} gives the value that parsing gives"); }}
{"        kani::cover!(want.is_some());" if cov else ""}
    }}
"""

    def round_(T, w, mk, eq, h="true", de="de"):
        return f"""    {{
        let x: {w} = kani::any();
        if let Some(b) = {mk} {{
            let p = b.serialize(S::<{h}>);
            assert!(p.is_ok(), "serialises to a primitive");
            if let Ok(p) = p {{
                let got: Option<{T}> = {de}(p);
                assert!(got.is_some(), "what was serialised is deserialised");
                if let Some(a) = &got {{ assert!({eq}, "serialising and deserialising gives the same value"); }}
            }}
            kani::cover!(true);
        }}
    }}
"""

    eqi = "a.0 == b.0"
    eqf = "a.0.to_bits() == b.0.to_bits() || (a.0.is_nan() && b.0.is_nan())"
    pick = {"Inside_mm_f", "Outside_mm"} if quick else None
    for ty in list(gi.SIGNED) + list(gi.UNSIGNED):
        sg = ty in gi.SIGNED
        tr = "ValidateSignedInteger" if sg else "ValidateUnsignedInteger"
        for name, attr, sp in gi.shapes(ty):
            if pick and name not in pick: continue
            T = f"T_{ty}_{name}"
            o.append(f"#[derive(Validator)]\n#[validator({'signed' if sg else 'unsigned'}_integer{'(' + attr + ')' if attr else ''})]\npub struct {T}(pub {ty});")
            b = "".join(block(T, w, f"<{T} as {tr}>::parse_{w}(x)", eqi) for w in (gi.SIGNED if sg else gi.UNSIGNED)
                        if w in W and (not quick or w == ty or w.endswith("128") or (w.endswith("64") and ty == w.replace("64", "size")) or (w[1:], ty[1:]) in (("16", "8"), ("8", "16"))))
            if sg and (not quick or name == "Outside_mm"):
                b += block(T, "u64", f"<{T} as {tr}>::parse_i128(x as i128)", eqi)
            b += round_(T, ty, f"<{T} as {tr}>::parse_{ty}(x).ok()", eqi)
            proof(f"serde_{T[2:]}", b)
    fl = [("d", ""), ("ins", "(range(Inside(min = -1.5, max = 2.25)))"), ("out", "(range(Outside(min = 0.5, max = 3.5)), nan(Disallow))"), ("nan", "(range(Unlimited), nan(Disallow))")]
    for ty in ("f64", "f32"):
        for name, attr in fl:
            T = f"T_{ty}_{name}"
            o.append(f"#[derive(Validator)]\n#[validator(number{attr})]\npub struct {T}(pub {ty});")
            proof(f"serde_{T[2:]}", "".join(block(T, w, f"<{T} as ValidateNumber>::parse_{w}(x)", eqf) for w in ("f64", "f32"))
                  + round_(T, ty, f"<{T} as ValidateNumber>::parse_{ty}(x).ok()", eqf))
    o.append("#[derive(Validator)]\n#[validator(boolean)]\npub struct T_bool(pub bool);")
    b = block("T_bool", "bool", "<T_bool as ValidateBoolean>::parse_bool(x)", eqi) + block("T_bool", "char", "<T_bool as ValidateChar>::parse_char(x)", eqi)
    for w in W[:10]:
        b += block("T_bool", w, f"<T_bool as Validate{'Unsigned' if w[0] == 'u' else 'Signed'}Integer>::parse_{w}(x)", eqi)
    proof("serde_bool", b + round_("T_bool", "bool", "Some(T_bool(x))", eqi))
    for kind in ("byte",):      # Bit is deserialised by byte_unit itself, through its text parser: outside Kani's reach
        for name, attr in (("d", ""), ("mm", "(range(min = 10, max = 100))"), ("minf", "(range(min = 7, inclusive = false))")):
            T = f"T_{kind}_{name}"
            o.append(f"#[derive(Validator)]\n#[validator({kind}{attr})]\npub struct {T}(pub {kind.capitalize()});")
            b = "".join(block(T, w, f"<{T} as ValidateUnsignedInteger>::parse_{w}(x)", eqi, "deb") for w in ("u128",))
            proof(f"serde_{T[2:]}", b + round_(T, "u128", f"<{T} as ValidateUnsignedInteger>::parse_u128(x).ok()", eqi, "false", "deb"))
    for name, attr in (("mm", "min = 3, max = 100"), ("min", "min = 5"), ("max", "max = 9"), ("eq", "min = 7, max = 7")):
        T = f"T_len_{name}"
        o.append(f"#[derive(Validator)]\n#[validator(length({attr}))]\npub struct {T}(pub Any);")
        proof(f"serde_{T[2:]}", block(T, "u64", f"<{T} as ValidateLength<Any>>::parse_collection(Any(x))", "a.0.0 == b.0.0")
              + round_(T, "u64", f"<{T} as ValidateLength<Any>>::parse_collection(Any(x)).ok()", "a.0.0 == b.0.0"))
    return "\n".join(o) + "\n", harn
