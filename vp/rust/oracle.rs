// Independent statements of what each validator has to accept and build. Written from the property texts,
// not from the code under test.
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
type W = Result<String, ()>;
const MUST: i64 = 0;
const ALLOW: i64 = 1;
const NO: i64 = 2;

pub fn plain(kind: &str) -> bool { matches!(kind, "text" | "line" | "base32" | "base64" | "base64_url" | "regex") }
/// Whether that serde entry exists for the kind as a plain string entry.
pub fn serde_applies(_kind: &str, _what: &str) -> bool { true }
/// Kinds whose serialised form is one their own deserialiser is meant to read back.
pub fn serde_back(kind: &str) -> bool { !kind.ends_with("_decoded") && kind != "json" && !(kind == "phone") && kind != "number" }

pub fn text_must_reparse(_kind: &str, _cfg: &[i64]) -> bool { true }

/// The value that the text form has to parse to: the value itself; the text form of a domain leaves the root dot out.
pub fn reparse_value(kind: &str, v: &Result<String, String>) -> Result<String, String> {
    match v {
        Ok(v) if kind == "domain" => {
            let f: Vec<&str> = v.split('|').collect();
            Ok(format!("{}|{}|{}|{}|false|{}", f[0].strip_suffix('.').unwrap_or(f[0]), f[1], f[2], f[3], f[5]))
        }
        v => v.clone(),
    }
}

pub fn text_form(kind: &str, cfg: &[i64], value: &str) -> Option<String> {
    let groups: &[usize] = match kind { "mac_address" => &[2, 2, 2, 2, 2, 2], "uuid" => &[8, 4, 4, 4, 12], _ => return None };
    let n: u128 = value.parse().unwrap();
    let total: usize = groups.iter().sum();
    let digits = if cfg[0] == 2 { format!("{n:0total$x}") } else { format!("{n:0total$X}") };
    let mut out = String::new();
    let mut at = 0;
    for (i, g) in groups.iter().enumerate() {
        if i > 0 && cfg[1] != NO { out.push(cfg[2] as u8 as char); }
        out.push_str(&digits[at..at + g]);
        at += g;
    }
    Some(out)
}

pub fn oracle(kind: &str, cfg: &[i64], s: &str) -> Option<W> {
    Some(match kind {
        "base32" | "base64" | "base64_url" => basen(kind, cfg[0], s).map(|_| s.to_string()),
        "base32_decoded" | "base64_decoded" | "base64_url_decoded" => {
            let k = &kind[..kind.len() - 8];
            basen(k, cfg[0], s).and_then(|d| decode(k, d)).map(|b| crate::core::hex(&b))
        }
        "text" | "line" => text(kind == "line", cfg, s),
        "mac_address" => hexgroups(&[2, 2, 2, 2, 2, 2], cfg, s),
        "uuid" => hexgroups(&[8, 4, 4, 4, 12], cfg, s),
        "boolean" => match s.to_ascii_lowercase().as_str() {
            "y" | "yes" | "t" | "true" | "on" | "1" => Ok("true".into()),
            "n" | "no" | "f" | "false" | "off" | "0" => Ok("false".into()),
            _ => Err(()),
        },
        "ip" | "ipv4" | "ipv6" => ip(kind, cfg, s),
        "host" => host(cfg, s),
        "domain" => domain(cfg, s),
        "email" => email(cfg, s),
        "signed_integer" | "unsigned_integer" => integer(kind, cfg, s),
        "number" => number(cfg, s),
        #[cfg(feature = "bitbyte")]
        "bit" | "byte" => bitbyte(kind, cfg, s),
        #[cfg(feature = "weburl")]
        "http_url" | "http_ftp_url" => return http(kind, cfg, s),
        #[cfg(feature = "weburl")]
        "url" => validators_prelude::url::Url::parse(s).map(|u| u.to_string()).map_err(|_| ()),
        #[cfg(feature = "semvers")]
        "semver" => s.parse::<validators_prelude::semver::Version>().map(|v| format!("{v:?}")).map_err(|_| ()),
        #[cfg(feature = "semvers")]
        "semver_req" => s.parse::<validators_prelude::semver::VersionReq>().map(|v| format!("{v:?}")).map_err(|_| ()),
        "regex" => {
            let hexs = !s.is_empty() && s.bytes().all(|b| b.is_ascii_hexdigit());
            let poker = s == "10" || (s.len() == 1 && "AJQK123456789".contains(s));
            if if cfg[0] == 0 { hexs } else { poker } { Ok(s.into()) } else { Err(()) }
        }
        "json" => return json(cfg[0], s),
        #[cfg(feature = "phones")]
        "phone" => return phone(cfg[0], s),
        _ => return None,
    })
}
#[allow(unused_imports)]
use validators::prelude::*;

// ---- base-N -------------------------------------------------------------------------------------------
fn alphabet(kind: &str) -> &'static [u8] {
    match kind {
        "base32" => b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567",
        "base64" => b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/",
        _ => b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_",
    }
}
/// The data characters, when the text is well formed under the padding rule.
fn basen<'a>(kind: &str, padding: i64, s: &'a str) -> Result<&'a [u8], ()> {
    let b = s.as_bytes();
    if b.is_empty() { return Err(()); }
    let data = b.iter().position(|&c| c == b'=').unwrap_or(b.len());
    let (d, pad) = b.split_at(data);
    let (block, bits) = if kind == "base32" { (8, 5) } else { (4, 6) };
    if !d.iter().all(|c| alphabet(kind).contains(c)) || !pad.iter().all(|&c| c == b'=') { return Err(()); }
    // a byte string of n bytes is written with ceil(8n/bits) characters
    let rem = d.len() % block;
    if !(0..block).any(|n| (8 * n).div_ceil(bits) == rem) { return Err(()); }
    let full = (block - rem) % block;
    let ok = match padding { MUST => pad.len() == full, NO => pad.is_empty(), _ => pad.is_empty() || pad.len() == full };
    if ok { Ok(d) } else { Err(()) }
}
fn decode(kind: &str, d: &[u8]) -> Result<Vec<u8>, ()> {
    let bits = if kind == "base32" { 5 } else { 6 };
    let mut out = vec![];
    let (mut acc, mut n) = (0u32, 0);
    for c in d {
        acc = (acc << bits | alphabet(kind).iter().position(|x| x == c).unwrap() as u32) & 0xffff;
        n += bits;
        if n >= 8 { n -= 8; out.push((acc >> n) as u8); }
    }
    if acc & ((1 << n) - 1) != 0 { return Err(()); }   // not canonical
    Ok(out)
}

// ---- text / line ----------------------------------------------------------------------------------------
fn text(line: bool, cfg: &[i64], s: &str) -> W {
    for c in s.chars() {
        if c.is_ascii_control() && !(c == '\t' || (!line && (c == '\n' || c == '\r' || c == '\u{b}'))) { return Err(()); }
    }
    let n = |x: &str| if cfg[0] == 1 { x.len() as i64 } else { x.chars().count() as i64 };
    if (cfg[1] >= 0 && n(s) < cfg[1]) || (cfg[2] >= 0 && n(s.trim()) < cfg[2]) || (cfg[3] >= 0 && n(s) > cfg[3]) { return Err(()); }
    Ok(s.to_string())
}

// ---- MAC / UUID -----------------------------------------------------------------------------------------
fn hexgroups(groups: &[usize], cfg: &[i64], s: &str) -> W {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v: u128 = 0;
    for (k, g) in groups.iter().enumerate() {
        if k > 0 && cfg[1] != NO {
            if b.get(i) == Some(&(cfg[2] as u8)) { i += 1; } else if cfg[1] == MUST { return Err(()); }
        }
        for _ in 0..*g {
            let c = *b.get(i).ok_or(())?;
            let ok = c.is_ascii_digit() || (cfg[0] != 2 && (b'A'..=b'F').contains(&c)) || (cfg[0] != 1 && (b'a'..=b'f').contains(&c));
            if !ok { return Err(()); }
            v = v * 16 + (c as char).to_digit(16).unwrap() as u128;
            i += 1;
        }
    }
    if i == b.len() { Ok(v.to_string()) } else { Err(()) }
}

// ---- addresses ------------------------------------------------------------------------------------------
pub fn local4(a: Ipv4Addr) -> bool {
    let o = a.octets();
    o[0] == 10 || (o[0] == 172 && o[1] / 16 == 1) || (o[0] == 192 && o[1] == 168) || o[0] == 127 || (o[0] == 169 && o[1] == 254)
        || o == [255; 4] || (o[0] == 192 && o[1] == 0 && o[2] == 2) || (o[0] == 198 && o[1] == 51 && o[2] == 100)
        || (o[0] == 203 && o[1] == 0 && o[2] == 113) || o == [0; 4]
}
pub fn local6(a: Ipv6Addr) -> bool {
    let x = u128::from(a);
    let top = |n: u32| x >> (128 - n);
    if top(8) == 0xff { return (x >> 112) & 0xf != 14; }
    x <= 1 || top(10) == 0x3fa || top(10) == 0x3fb || top(7) == 0x7e || top(32) == 0x2001_0db8
        || ((x >> 32 == 0 || x >> 32 == 0xffff) && local4(Ipv4Addr::from(x as u32)))
}
fn local_name(d: &str) -> bool { d.strip_suffix('.').unwrap_or(d).eq_ignore_ascii_case("localhost") }
fn two_labels(d: &str) -> bool { d.strip_suffix('.').unwrap_or(d).contains('.') }
fn policy(cfg: i64, v: bool) -> Result<(), ()> { if (cfg == MUST && !v) || (cfg == NO && v) { Err(()) } else { Ok(()) } }

/// (address text, port) of a bracketed or bare IPv6 text, (text, port) split at the last colon otherwise.
fn split_port(s: &str) -> (&str, Option<&str>) { match s.rfind(':') { Some(i) => (&s[..i], Some(&s[i + 1..])), None => (s, None) } }
fn port(cfg: i64, p: Option<&str>) -> Result<Option<u16>, ()> {
    match p { None => if cfg == MUST { Err(()) } else { Ok(None) }, Some(_) if cfg == NO => Err(()), Some(t) => t.parse().map(Some).map_err(|_| ()) }
}
fn bracketed(s: &str) -> Option<(&str, Option<&str>)> {
    let t = s.strip_prefix('[')?;
    if let Some(a) = t.strip_suffix(']') { return Some((a, None)); }
    let i = t.rfind(':')?;
    let a = t[..i].strip_suffix(']')?;
    Some((a, Some(&t[i + 1..])))
}
fn ip(kind: &str, cfg: &[i64], s: &str) -> W {
    let (a, p): (IpAddr, Option<u16>) = if kind != "ipv4" && s.starts_with('[') {
        let (a, p) = bracketed(s).ok_or(())?;
        (a.parse::<Ipv6Addr>().map_err(|_| ())?.into(), port(cfg[1], p)?)
    } else if kind != "ipv4" && s.parse::<Ipv6Addr>().is_ok() {
        (s.parse::<Ipv6Addr>().unwrap().into(), port(cfg[1], None)?)
    } else if kind == "ipv6" {
        return Err(());
    } else {
        let (a, p) = split_port(s);
        (a.parse::<Ipv4Addr>().map_err(|_| ())?.into(), port(cfg[1], p)?)
    };
    policy(cfg[0], match a { IpAddr::V4(x) => local4(x), IpAddr::V6(x) => local6(x) })?;
    Ok(format!("{a:?}|{p:?}"))
}
#[cfg(feature = "idn")]
fn idna(d: &str) -> Result<String, ()> {
    validators_prelude::idna::Config::default().use_std3_ascii_rules(true).verify_dns_length(true).check_hyphens(true).to_ascii(d).map_err(|_| ())
}
#[cfg(not(feature = "idn"))]
fn idna(_: &str) -> Result<String, ()> { unreachable!() }

enum H { D(String), A4(Ipv4Addr), A6(Ipv6Addr) }
impl H {
    fn local(&self) -> bool { match self { H::D(d) => local_name(d), H::A4(a) => local4(*a), H::A6(a) => local6(*a) } }
    fn show(&self) -> String { match self { H::D(d) => format!("Domain({d:?})"), H::A4(a) => format!("IPv4({a:?})"), H::A6(a) => format!("IPv6({a:?})") } }
    /// IP addresses have no labels to require, and are not single-label names.
    fn labels(&self, cfg: i64, is_local: bool) -> Result<(), ()> {
        match self { H::D(_) if is_local => Ok(()), H::D(d) => policy(cfg, two_labels(d)), _ => if cfg == NO { Err(()) } else { Ok(()) } }
    }
}
fn host(cfg: &[i64], s: &str) -> W {
    let (l, pc, lab) = (cfg[0], cfg[1], cfg[2]);
    let (h, p) = if s.starts_with('[') {
        let (a, p) = bracketed(s).ok_or(())?;
        (H::A6(a.parse().map_err(|_| ())?), port(pc, p)?)
    } else if let Ok(a) = s.parse::<Ipv6Addr>() {
        (H::A6(a), port(pc, None)?)
    } else {
        let (d, p) = split_port(s);
        let p = port(pc, p)?;
        if let Ok(a) = d.parse::<Ipv4Addr>() { (H::A4(a), p) } else {
            let a = idna(d)?;
            if a.ends_with('.') || a.parse::<Ipv4Addr>().is_ok() { return Err(()); }
            (H::D(a), p)
        }
    };
    let is = h.local();
    h.labels(lab, is)?;
    policy(l, is)?;
    Ok(format!("{}|{p:?}|{}", h.show(), if l == ALLOW && lab != ALLOW { is.to_string() } else { "-".into() }))
}
fn domain(cfg: &[i64], s: &str) -> W {
    let (v4, l, pc, lab) = (cfg[0], cfg[1], cfg[2], cfg[3]);
    let (d, p) = split_port(s);
    let p = port(pc, p)?;
    let v = |x: &str| x.strip_suffix('.').unwrap_or(x).parse::<Ipv4Addr>().ok();
    let (stored, is4, is) = if let Some(a) = v(d) {
        if v4 == NO || lab == NO { return Err(()); }
        (d.to_string(), true, local4(a))
    } else {
        if v4 == MUST { return Err(()); }
        let a = idna(d)?;
        // a name that only becomes an IPv4 address by IDNA mapping is neither
        if v(&a).is_some() && !(v4 == ALLOW && l == ALLOW && lab == ALLOW) { return Err(()); }
        let is = local_name(&a);
        if !is { policy(lab, two_labels(&a))?; }
        (a, false, is)
    };
    policy(l, is)?;
    let isl = l == ALLOW && lab != ALLOW;
    let f = |c: bool, b: bool| if c { b.to_string() } else { "-".into() };
    Ok(format!("{stored}|{p:?}|{}|{}|{}|{}", f(isl && v4 == ALLOW, is4), f(isl, is), stored.ends_with('.'), stored.strip_suffix('.').unwrap_or(&stored)))
}

// ---- email ----------------------------------------------------------------------------------------------
fn atext(c: char, na: bool) -> bool {
    c.is_ascii_alphanumeric() || "!#$%&'*+-/=?^_`{|}~".contains(c) || (na && !c.is_ascii())
}
fn dot_atom(s: &str, na: bool) -> bool { !s.is_empty() && s.split('.').all(|p| !p.is_empty() && p.chars().all(|c| atext(c, na))) }
fn email(cfg: &[i64], s: &str) -> W {
    let (cm, ipc, l, lab, na) = (cfg[0], cfg[1], cfg[2], cfg[3], cfg[4] == ALLOW);
    if s.len() > 320 { return Err(()); }
    let comment = |t: &mut &str| -> Result<Option<String>, ()> {
        match t.strip_prefix('(') {
            None => Ok(None),
            Some(u) => {
                if cm == NO { return Err(()); }
                let (c, rest) = u.split_once(')').ok_or(())?;
                let c = c.to_string();
                *t = rest;
                Ok(Some(c))
            }
        }
    };
    let mut t = s;
    let c1 = comment(&mut t)?;
    let (local, need);
    if let Some(u) = t.strip_prefix('"') {
        let mut esc = false;
        let mut end = None;
        for (i, c) in u.char_indices() {
            if esc {
                if !(atext(c, na) || ". \t\\\"(),:;<>@[]".contains(c)) { return Err(()); }
                esc = false;
            } else if c == '"' { end = Some(i); break; }
            else if c == '\\' { esc = true; }
            else if !(atext(c, na) || ". \t".contains(c)) { return Err(()); }
        }
        let i = end.ok_or(())?;
        if i == 0 { return Err(()); }
        local = &u[..i];
        need = !dot_atom(local, true);
        t = &u[i + 1..];
    } else {
        let i = t.find(['@', '(']).ok_or(())?;
        local = &t[..i];
        if !dot_atom(local, na) { return Err(()); }
        need = false;
        t = &t[i..];
    }
    let c2 = comment(&mut t)?;
    let rest = t.strip_prefix('@').ok_or(())?;
    if s.len() - t.len() > 64 || rest.is_empty() || rest.len() > 255 { return Err(()); }
    t = rest;
    let c3 = comment(&mut t)?;
    let (h, grow) = if let Some(u) = t.strip_prefix('[') {
        let (a, r) = u.split_once(']').ok_or(())?;
        t = r;
        if let Some(x) = a.strip_prefix("IPv6:") {
            let v: Ipv6Addr = x.parse().map_err(|_| ())?;
            (H::A6(v), v.to_string().len() as i64 - x.len() as i64)
        } else { (H::A4(a.parse().map_err(|_| ())?), 0) }
    } else {
        let i = t.find('(').unwrap_or(t.len());
        let d = &t[..i];
        t = &t[i..];
        let a = idna(d)?;
        if a.ends_with('.') { return Err(()); }
        let g = a.len() as i64 - d.len() as i64;
        (H::D(a), g)
    };
    if rest.len() as i64 + grow.max(0) > 255 { return Err(()); }
    policy(ipc, !matches!(h, H::D(_)))?;
    let is = h.local();
    h.labels(lab, is)?;
    policy(l, is)?;
    let c4 = comment(&mut t)?;
    if !t.is_empty() { return Err(()); }
    let cs = if cm == ALLOW { format!("{c1:?};{c2:?};{c3:?};{c4:?}") } else { "-".into() };
    Ok(format!("{local}|{need}|{}|{cs}|{}", h.show(), if l == ALLOW && lab != ALLOW { is.to_string() } else { "-".into() }))
}

// ---- numbers --------------------------------------------------------------------------------------------
fn integer(kind: &str, cfg: &[i64], s: &str) -> W {
    let v: Option<i128> = if kind == "signed_integer" {
        match cfg[0] { 0 => s.parse::<i8>().ok().map(|x| x as i128), 1 => s.parse::<i16>().ok().map(|x| x as i128), 2 => s.parse::<i32>().ok().map(|x| x as i128),
            3 => s.parse::<i64>().ok().map(|x| x as i128), 4 => s.parse::<i128>().ok(), _ => s.parse::<isize>().ok().map(|x| x as i128) }
    } else {
        match cfg[0] - 6 { 0 => s.parse::<u8>().ok().map(|x| x as i128), 1 => s.parse::<u16>().ok().map(|x| x as i128), 2 => s.parse::<u32>().ok().map(|x| x as i128),
            3 => s.parse::<u64>().ok().map(|x| x as i128), 4 => s.parse::<u128>().ok().map(|x| x.min(i128::MAX as u128) as i128), _ => s.parse::<usize>().ok().map(|x| x as i128) }
    };
    let v = v.ok_or(())?;
    let (has_min, has_max) = (cfg[2] == 1 || cfg[2] == 2, cfg[2] == 1 || cfg[2] == 3);
    let above = !has_min || v >= cfg[3] as i128;
    let below = !has_max || if cfg[1] == 3 { v < cfg[4] as i128 } else { v <= cfg[4] as i128 };
    let ok = match cfg[1] { 0 => true, 2 => !(above && below), _ => above && below };
    if ok {
        if kind == "unsigned_integer" && cfg[0] == 10 { return Ok(s.parse::<u128>().unwrap().to_string()); }
        Ok(v.to_string())
    } else { Err(()) }
}
fn number(cfg: &[i64], s: &str) -> W {
    let (v, shown) = if cfg[0] == 0 { let f: f32 = s.parse().map_err(|_| ())?; (f as f64, format!("{f:?}")) } else { let f: f64 = s.parse().map_err(|_| ())?; (f, format!("{f:?}")) };
    policy(cfg[1], v.is_nan())?;
    let (has_min, has_max) = (cfg[3] == 1 || cfg[3] == 2, cfg[3] == 1 || cfg[3] == 3);
    let inside = (!has_min || v >= cfg[4] as f64) && (!has_max || v <= cfg[5] as f64);
    let ok = v.is_nan() || match cfg[2] { 0 => true, 2 => !inside, _ => inside };
    if ok { Ok(shown) } else { Err(()) }
}
#[cfg(feature = "bitbyte")]
fn bitbyte(kind: &str, cfg: &[i64], s: &str) -> W {
    let v: u64 = if kind == "bit" { validators::byte_unit::Bit::parse_str(s).map_err(|_| ())?.as_u64() }
        else { validators::byte_unit::Byte::parse_str(s, cfg[0] == 1).map_err(|_| ())?.as_u64() };
    if (cfg[1] & 1 == 1 && v < cfg[2] as u64) || (cfg[1] & 2 == 2 && v > cfg[3] as u64) { Err(()) } else { Ok(v.to_string()) }
}

// ---- delegating validators --------------------------------------------------------------------------------
#[cfg(feature = "weburl")]
fn http(kind: &str, cfg: &[i64], s: &str) -> Option<W> {
    let u = match validators_prelude::url::Url::parse(s) { Ok(u) => u, Err(_) => return Some(Err(())) };
    let names: &[&str] = if kind == "http_url" { &["http", "https"] } else { &["http", "https", "ftp"] };
    if !names.contains(&u.scheme()) { return Some(Err(())); }
    let is = match u.host() { Some(validators_prelude::url::Host::Domain(d)) => local_name(d), Some(validators_prelude::url::Host::Ipv4(a)) => local4(a),
        Some(validators_prelude::url::Host::Ipv6(a)) => local6(a), None => return Some(Err(())) };
    if policy(cfg[0], is).is_err() { return Some(Err(())); }
    // The URL standard strips control characters and blanks before it looks at the scheme; the validators want the scheme
    // at the very start of the text. No verdict is specified for such spellings except that nothing else is accepted.
    if !names.iter().any(|n| s.len() > n.len() && s.is_char_boundary(n.len()) && s[..n.len()].eq_ignore_ascii_case(n) && s.as_bytes()[n.len()] == b':') { return None; }
    Some(Ok(if kind == "http_url" { format!("{u}|{}", u.scheme() == "https") } else {
        format!("{u}|{}", match u.scheme() { "http" => "HTTP", "https" => "HTTPS", _ => "FTP" })
    }))
}
fn json(ty: i64, s: &str) -> Option<W> {
    fn p<T: serde::de::DeserializeOwned + std::fmt::Debug>(s: &str) -> W { serde_json::from_str::<T>(s).map(|v| format!("{v:?}")).map_err(|_| ()) }
    Some(match ty {
        0 => p::<String>(s), 1 => p::<f64>(s), 2 => p::<bool>(s), 3 => p::<Vec<u8>>(s), 4 => p::<std::collections::BTreeMap<String, i64>>(s),
        5 => p::<serde_json::Value>(s), 6 => p::<u64>(s), 7 => p::<i8>(s), _ => p::<Option<String>>(s),
    })
}
#[cfg(feature = "phones")]
fn phone(cfg: i64, s: &str) -> Option<W> {
    use validators_prelude::phonenumber as pn;
    use pn::country::Id;
    let ids: &[Option<Id>] = match cfg { 0 => &[None], 1 => &[Some(Id::TW)], 2 => &[Some(Id::TW), Some(Id::US)], 3 => &[Some(Id::US)], 4 => &[Some(Id::GB)], 5 => &[Some(Id::JP), Some(Id::CN)], _ => &[Some(Id::US), Some(Id::CA), Some(Id::GB)] };
    let mut out = vec![];
    let mut failed = false;
    for id in ids {
        match pn::parse(*id, s) {
            Err(_) => failed = true,
            Ok(n) => if n.is_valid() && (id.is_none() || n.country().id() == *id) {
                out.push(if ids.len() > 1 { format!("{:?}={:?}", id.unwrap(), n) } else { format!("{n:?}") });
            },
        }
    }
    if failed && ids.len() > 1 && !out.is_empty() { return None; }   // which country's parser may fail is not specified
    out.sort();
    Some(if out.is_empty() { Err(()) } else { Ok(out.join(";")) })
}
