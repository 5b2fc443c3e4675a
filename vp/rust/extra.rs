// Entry points that take numbers, booleans, characters and JSON values.
use crate::core::{guard, Entry, Mis, V};
use serde::de::{DeserializeOwned, IntoDeserializer};
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use validators::prelude::*;
type DErr = serde::de::value::Error;
pub struct Ctx { pub name: &'static str, pub attr: &'static str, pub kind: &'static str, pub seed: u64, pub n: u64, pub m: Vec<Mis> }
impl Ctx {
    fn add(&mut self, class: &'static str, input: String, what: String) {
        if self.m.iter().filter(|x| x.class == class).count() < 3 { self.m.push(Mis { class, name: self.name, attr: self.attr, input: input.into_bytes(), what }); }
    }
    fn cmp(&mut self, class: &'static str, input: &dyn Debug, what: &str, got: Result<Result<String, String>, String>, want: Result<Result<String, String>, String>) {
        self.n += 1;
        match (&got, &want) {
            (Err(p), _) | (_, Err(p)) => { let p = p.clone(); self.add("panic", format!("{input:?}"), format!("{what}: panicked: {p}")) }
            (Ok(Ok(a)), Ok(Ok(b))) if a == b => (),
            (Ok(Err(_)), Ok(Err(_))) => (),
            _ => self.add(class, format!("{input:?}"), format!("{what} gives {got:?}, expected {want:?}")),
        }
    }
}
fn r<T: V, E: Debug>(x: Result<T, E>) -> Result<String, String> { match x { Ok(v) => Ok(v.render()), Err(e) => Err(format!("{e:?}")) } }
fn u<E: Debug>(x: Result<(), E>, y: &Result<String, String>) -> Result<String, String> { match x { Ok(()) => y.clone().or(Ok("accepted".into())), Err(e) => Err(format!("{e:?}")) } }

pub fn points() -> Vec<i128> {
    let mut v = vec![];
    for e in [0u32, 2, 3, 4, 6, 7, 8, 15, 16, 24, 31, 32, 53, 63, 64, 100, 126] { for d in -2..=2i128 { v.push((1i128 << e) + d); v.push(-((1i128 << e) + d)); } }
    v.extend(-3..=12); v.extend([98, 99, 100, 101, 102, 4999, 5000, 5001, 7999, 8000, 8001, i128::MAX, i128::MIN, 0]);
    v.sort(); v.dedup();
    v
}
macro_rules! width { ($c:ident, $T:ty, $t:ty, $p:ident, $v:ident, $de:expr) => {
    for x in points() { if let Ok(x) = <$t>::try_from(x) {
        let want = guard(|| r(<$T>::$p(x)));
        let w2 = want.clone().unwrap_or(Err(String::new()));
        $c.cmp("entry", &x, stringify!($v), guard(|| u(<$T>::$v(x), &w2)), want.clone());
        if $de {
            let d: <$t as IntoDeserializer<'static, DErr>>::Deserializer = x.into_deserializer();
            $c.cmp("serde", &x, concat!("Deserialize from ", stringify!($t)), guard(|| r(<$T>::deserialize(d))), want.clone());
        }
    } }
} }
/// Serialised form of accepted values, read back.
fn back<T: V + Serialize + DeserializeOwned>(c: &mut Ctx, input: &dyn Debug, v: Option<T>) {
    if let Some(v) = v {
        let want = v.render();
        match serde_json::to_value(&v) {
            Err(e) if e.to_string().contains("out of range") => (), // beyond what serde_json carries
            Err(e) => c.add("serde", format!("{input:?}"), format!("does not serialise: {e}")),
            Ok(j) => { if j.is_null() { return; } let js = j.to_string(); let g = guard(|| r(serde_json::from_value::<T>(j))); c.cmp("serde", input, &format!("serialised form {js} read back"), g, Ok(Ok(want))) }
        }
    }
}
pub fn signed<T: V + ValidateSignedInteger + Serialize + DeserializeOwned>(c: &mut Ctx) where <T as ValidateSignedInteger>::Error: Debug {
    width!(c, T, i8, parse_i8, validate_i8, true); width!(c, T, i16, parse_i16, validate_i16, true); width!(c, T, i32, parse_i32, validate_i32, true);
    width!(c, T, i64, parse_i64, validate_i64, true); width!(c, T, i128, parse_i128, validate_i128, true); width!(c, T, isize, parse_isize, validate_isize, true);
    for x in points() { back(c, &x, T::parse_i128(x).ok()); }
    // an unsigned source is judged by its value
    for x in points() { if let Ok(y) = u64::try_from(x) {
        let d: serde::de::value::U64Deserializer<DErr> = y.into_deserializer();
        c.cmp("serde", &y, "Deserialize from u64", guard(|| r(T::deserialize(d))), guard(|| r(T::parse_i128(x))));
    } }
}
pub fn unsigned<T: V + ValidateUnsignedInteger + Serialize + DeserializeOwned>(c: &mut Ctx) where <T as ValidateUnsignedInteger>::Error: Debug {
    width!(c, T, u8, parse_u8, validate_u8, true); width!(c, T, u16, parse_u16, validate_u16, true); width!(c, T, u32, parse_u32, validate_u32, true);
    width!(c, T, u64, parse_u64, validate_u64, true); width!(c, T, u128, parse_u128, validate_u128, true); width!(c, T, usize, parse_usize, validate_usize, true);
    for x in points() { if let Ok(y) = u128::try_from(x) { back(c, &y, T::parse_u128(y).ok()); } }
}
pub fn sizes<T: V + ValidateUnsignedInteger + Serialize + DeserializeOwned>(c: &mut Ctx) where <T as ValidateUnsignedInteger>::Error: Debug {
    width!(c, T, u8, parse_u8, validate_u8, false); width!(c, T, u16, parse_u16, validate_u16, false); width!(c, T, u32, parse_u32, validate_u32, false);
    width!(c, T, u64, parse_u64, validate_u64, false);
    for x in points() { if let Ok(y) = u64::try_from(x) { back(c, &y, T::parse_u64(y).ok()); } }
}
pub fn floats<T: V + ValidateNumber + Serialize + DeserializeOwned>(c: &mut Ctx) where <T as ValidateNumber>::Error: Debug {
    for x in [0.0f64, -0.0, 1.0, 0.9999999, 1.0000001, 10.0, 9.999999, 10.000001, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE, 1e39, 3.4028235e38, 5e-324, 0.1] {
        let want = guard(|| r(T::parse_f64(x)));
        let w2 = want.clone().unwrap_or(Err(String::new()));
        c.cmp("entry", &x, "validate_f64", guard(|| u(T::validate_f64(x), &w2)), want.clone());
        let d: serde::de::value::F64Deserializer<DErr> = x.into_deserializer();
        c.cmp("serde", &x, "Deserialize from f64", guard(|| r(T::deserialize(d))), want);
        let y = x as f32;
        let want = guard(|| r(T::parse_f32(y)));
        let w2 = want.clone().unwrap_or(Err(String::new()));
        c.cmp("entry", &y, "validate_f32", guard(|| u(T::validate_f32(y), &w2)), want.clone());
        let d: serde::de::value::F32Deserializer<DErr> = y.into_deserializer();
        c.cmp("serde", &y, "Deserialize from f32", guard(|| r(T::deserialize(d))), want);
        back(c, &x, T::parse_f64(x).ok());
    }
}
pub fn boolean<T: V + ValidateChar + ValidateBoolean + ValidateSignedInteger + ValidateUnsignedInteger + Serialize + DeserializeOwned>(c: &mut Ctx)
where <T as ValidateString>::Error: Debug, <T as ValidateChar>::Error: Debug, <T as ValidateBoolean>::Error: Debug, <T as ValidateSignedInteger>::Error: Debug, <T as ValidateUnsignedInteger>::Error: Debug {
    signed::<T>(c);
    unsigned::<T>(c);
    for x in [true, false] {
        let want: Result<Result<String, String>, String> = Ok(Ok(x.to_string()));
        c.cmp("oracle", &x, "parse_bool", guard(|| r(T::parse_bool(x))), want.clone());
        c.cmp("oracle", &x, "validate_bool", guard(|| u(T::validate_bool(x), &Ok(x.to_string()))), want.clone());
        let d: serde::de::value::BoolDeserializer<DErr> = x.into_deserializer();
        c.cmp("serde", &x, "Deserialize from bool", guard(|| r(T::deserialize(d))), want);
        back(c, &x, T::parse_bool(x).ok());
    }
    for k in 0..0x11_0000u32 { if k > 0x3000 && k % 97 != 0 { continue; } if let Some(x) = char::from_u32(k) {
        let want = guard(|| r(T::parse_str(x.to_string())));
        c.cmp("oracle", &x, "parse_char", guard(|| r(T::parse_char(x))), want.clone());
        let w2 = want.clone().unwrap_or(Err(String::new()));
        c.cmp("oracle", &x, "validate_char", guard(|| u(T::validate_char(x), &w2)), want.clone());
        let d: serde::de::value::CharDeserializer<DErr> = x.into_deserializer();
        c.cmp("serde", &x, "Deserialize from char", guard(|| r(T::deserialize(d))), want);
    } }
}
#[cfg(feature = "jsons")]
pub fn json<T: V + ValidateSignedInteger + ValidateUnsignedInteger + ValidateNumber + ValidateBoolean + ValidateJsonValue + ToJsonString + DeserializeOwned + Serialize>(c: &mut Ctx)
where <T as ValidateString>::Error: Debug, <T as ValidateBoolean>::Error: Debug, <T as ValidateSignedInteger>::Error: Debug, <T as ValidateUnsignedInteger>::Error: Debug, <T as ValidateNumber>::Error: Debug, <T as ValidateJsonValue>::Error: Debug {
    macro_rules! w { ($t:ty, $p:ident, $v:ident) => {
        for x in points() { if let Ok(x) = <$t>::try_from(x) {
            // an integer is the JSON text that spells it
            let want = guard(|| r(T::parse_str(x.to_string())));
            if i64::try_from(x).is_err() && u64::try_from(x).is_err() { continue; }
            let w2 = want.clone().unwrap_or(Err(String::new()));
            c.cmp("oracle", &x, stringify!($p), guard(|| r(T::$p(x))), want.clone());
            c.cmp("entry", &x, stringify!($v), guard(|| u(T::$v(x), &w2)), want.clone());
        } }
    } }
    w!(i8, parse_i8, validate_i8); w!(i16, parse_i16, validate_i16); w!(i32, parse_i32, validate_i32); w!(i64, parse_i64, validate_i64); w!(i128, parse_i128, validate_i128); w!(isize, parse_isize, validate_isize);
    w!(u8, parse_u8, validate_u8); w!(u16, parse_u16, validate_u16); w!(u32, parse_u32, validate_u32); w!(u64, parse_u64, validate_u64); w!(u128, parse_u128, validate_u128); w!(usize, parse_usize, validate_usize);
    for x in [true, false] {
        let want = guard(|| r(T::parse_str(x.to_string())));
        let w2 = want.clone().unwrap_or(Err(String::new()));
        c.cmp("oracle", &x, "parse_bool", guard(|| r(T::parse_bool(x))), want.clone());
        c.cmp("entry", &x, "validate_bool", guard(|| u(T::validate_bool(x), &w2)), want.clone());
    }
    for x in [0.5f64, 1.5, -2.25, 1e300, 3.25] {
        let want = guard(|| r(T::parse_str(x.to_string())));
        let w2 = want.clone().unwrap_or(Err(String::new()));
        c.cmp("oracle", &x, "parse_f64", guard(|| r(T::parse_f64(x))), want.clone());
        c.cmp("entry", &x, "validate_f64", guard(|| u(T::validate_f64(x), &w2)), want.clone());
    }
    for t in crate::gens::seeds("json", &[]) {
        if let Ok(v) = serde_json::from_str::<serde_json::Value>(&t) {
            let want = guard(|| r(T::parse_str(v.to_string())));
            let w2 = want.clone().unwrap_or(Err(String::new()));
            c.cmp("oracle", &t, "parse_json_value", guard(|| r(T::parse_json_value(v.clone()))), want.clone());
            c.cmp("entry", &t, "validate_json_value", guard(|| u(T::validate_json_value(v.clone()), &w2)), want.clone());
            c.cmp("serde", &t, "Deserialize from a JSON value", guard(|| r(serde_json::from_value::<T>(v.clone()))), want.clone());
            if let Ok(p) = T::parse_json_value(v.clone()) {
                let want = Ok(Ok(p.render()));
                c.cmp("oracle", &t, "minified text parsed again", guard(|| r(T::parse_str(p.to_minified_json_string()))), want.clone());
                c.cmp("oracle", &t, "beautified text parsed again", guard(|| r(T::parse_str(p.to_beautified_json_string()))), want);
            }
        }
    }
}
pub fn run(_e: &[Entry], seed: u64, kinds: &[String]) -> (u64, Vec<Mis>) {
    let (mut n, mut m) = (0, vec![]);
    for (name, attr, kind, f) in crate::extras() {
        if !kinds.is_empty() && !kinds.iter().any(|k| k == kind) { continue; }
        let mut c = Ctx { name, attr, kind, seed, n: 0, m: vec![] };
        f(&mut c);
        n += c.n;
        m.append(&mut c.m);
    }
    (n, m)
}
