// Differential engine: runs every entry point of a validator on one input and compares them with each
// other and with an independent oracle. Bounded by construction; never counted as proof.
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use serde::de::{DeserializeOwned, IntoDeserializer};
use serde::{Deserialize, Serialize};
use validators::prelude::*;

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }

pub trait V: ValidateString + Sized {
    fn render(&self) -> String;
    fn text(&self) -> Option<String>;
}
pub type R = Result<String, String>;
type DErr = serde::de::value::Error;

pub struct Entry {
    pub name: &'static str,
    pub attr: &'static str,
    pub kind: &'static str,
    pub cfg: &'static [i64],
    pub f: fn(&str) -> StrOut,
    pub b: Option<fn(&[u8]) -> BytesOut>,
}
pub struct StrOut {
    pub string: R, pub strr: R, pub valid: Result<(), String>,
    pub serde: Vec<(&'static str, R)>,
    pub text: Option<(String, R)>,          // the parsed value as text, and that text parsed again
    pub ser: Option<(String, Option<R>)>,   // serialised form, and that form deserialised again
}
pub struct BytesOut { pub vec: R, pub slice: R, pub valid: Result<(), String>, pub serde: Vec<(&'static str, R)> }

fn r<T: V, E: Debug>(x: Result<T, E>) -> R { match x { Ok(v) => Ok(v.render()), Err(e) => Err(format!("{e:?}")) } }

pub fn eval_str<T: V + DeserializeOwned + Serialize>(s: &str) -> StrOut
where <T as ValidateString>::Error: Debug, validators::Result<T, <T as ValidateString>::Error>: DeserializeOwned,
{
    let string = r(T::parse_string(String::from(s)));
    let val = T::parse_str(s);
    let valid = T::validate_str(s).map_err(|e| format!("{e:?}"));
    let mut serde_ = vec![];
    let d: serde::de::value::StrDeserializer<DErr> = s.into_deserializer();
    serde_.push(("Deserialize from &str", r(T::deserialize(d))));
    let d: serde::de::value::StringDeserializer<DErr> = String::from(s).into_deserializer();
    serde_.push(("Deserialize from String", r(T::deserialize(d))));
    let d: serde::de::value::StrDeserializer<DErr> = s.into_deserializer();
    serde_.push(("validators::Result Deserialize from &str", match validators::Result::<T, <T as ValidateString>::Error>::deserialize(d) {
        Ok(x) => r(x.into_std_result()), Err(e) => Err(format!("outer {e}")) }));
    let d: serde::de::value::StringDeserializer<DErr> = String::from(s).into_deserializer();
    serde_.push(("validators::Result Deserialize from String", match validators::Result::<T, <T as ValidateString>::Error>::deserialize(d) {
        Ok(x) => r(x.into_std_result()), Err(e) => Err(format!("outer {e}")) }));
    serde_.push(("validators::Result From<&str>", r(validators::Result::<T, <T as ValidateString>::Error>::from(s).into_std_result())));
    serde_.push(("validators::Result From<String>", r(validators::Result::<T, <T as ValidateString>::Error>::from(String::from(s)).into_std_result())));
    serde_.push(("validators::Result FromStr", match s.parse::<validators::Result<T, <T as ValidateString>::Error>>() {
        Ok(x) => r(x.into_std_result()), Err(e) => Err(format!("{e:?}")) }));
    let mut text = None;
    let mut ser = None;
    if let Ok(v) = &val {
        if let Some(t) = v.text() {
            let again = r(T::parse_str(&t));
            text = Some((t, again));
        }
        ser = Some(match serde_json::to_value(v) {
            Ok(j) => { let js = j.to_string(); (js, Some(r(serde_json::from_value::<T>(j)))) }
            // serde_json does not carry integers outside 64 bits
            Err(e) if e.to_string().contains("out of range") => ("null".into(), Some(Ok(v.render()))),
            Err(e) => (format!("error {e}"), None),
        });
    }
    let strr = match val { Ok(v) => Ok(v.render()), Err(e) => Err(format!("{e:?}")) };
    StrOut { string, strr, valid, serde: serde_, text, ser }
}

pub fn eval_bytes<T: V + ValidateBytes + DeserializeOwned>(s: &[u8]) -> BytesOut
where <T as ValidateString>::Error: Debug, <T as ValidateBytes>::Error: Debug,
{
    let vec = r(T::parse_vec_u8(s.to_vec()));
    let slice = r(T::parse_u8_slice(s));
    let valid = T::validate_u8_slice(s).map_err(|e| format!("{e:?}"));
    let mut serde_ = vec![];
    let d = serde::de::value::BytesDeserializer::<DErr>::new(s);
    serde_.push(("Deserialize from bytes", r(T::deserialize(d))));
    serde_.push(("validators::Result From<&[u8]>", r(validators::Result::<T, <T as ValidateBytes>::Error>::from(s).into_std_result())));
    serde_.push(("validators::Result From<Vec<u8>>", r(validators::Result::<T, <T as ValidateBytes>::Error>::from(s.to_vec()).into_std_result())));
    BytesOut { vec, slice, valid, serde: serde_ }
}

#[derive(Clone)]
pub struct Mis { pub class: &'static str, pub name: &'static str, pub attr: &'static str, pub input: Vec<u8>, pub what: String }

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "panic".into() }
    })
}
fn same(a: &R, b: &R) -> bool { match (a, b) { (Ok(x), Ok(y)) => x == y, (Err(_), Err(_)) => true, _ => false } }

// Every call is announced before it starts, so that a call that never returns, or that kills the process
// (stack overflow, abort), can be named together with its input.
pub struct Slot(pub std::sync::Mutex<Option<(std::time::Instant, &'static str, &'static str, Vec<u8>)>>);
pub static SLOTS: [Slot; 64] = [const { Slot(std::sync::Mutex::new(None)) }; 64];
static NEXT_SLOT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
thread_local! { static MY: usize = NEXT_SLOT.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 64; }
static TRACE: std::sync::OnceLock<Option<std::fs::File>> = std::sync::OnceLock::new();
fn announce(e: &Entry, input: &[u8]) {
    MY.with(|i| *SLOTS[*i].0.lock().unwrap() = Some((std::time::Instant::now(), e.name, e.attr, input.to_vec())));
    if let Some(f) = TRACE.get_or_init(|| std::env::var("VP_TRACE").ok().map(|p| std::fs::File::create(p).unwrap())) {
        use std::os::unix::fs::FileExt;
        let l = format!("{} {} {}\n", e.name, hex(input), hex(e.attr.as_bytes()));
        let _ = f.write_at(l.as_bytes(), 0);
    }
}
fn done() { MY.with(|i| *SLOTS[*i].0.lock().unwrap() = None); }
pub fn watchdog(limit: f64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(250));
        for s in SLOTS.iter() {
            let g = s.0.lock().unwrap();
            if let Some((t, n, a, i)) = &*g {
                if t.elapsed().as_secs_f64() > limit {
                    let m = Mis { class: "panic", name: n, attr: a, input: i.clone(), what: format!("an entry point did not return within {limit} s") };
                    println!("{{\"evaluations\":1,\"distinct_nontrivial\":0,\"entries\":1,\"samples\":[],\"mismatches\":[{}]}}", mis_json(&m));
                    std::process::exit(0);
                }
            }
        }
    });
}

pub fn check(e: &Entry, input: &[u8], out: &mut Vec<Mis>) -> bool {
    announce(e, input);
    let r = check0(e, input, out);
    done();
    r
}

/// All contracts on one input. Returns true when the input was accepted.
fn check0(e: &Entry, input: &[u8], out: &mut Vec<Mis>) -> bool {
    let mut add = |class: &'static str, what: String| out.push(Mis { class, name: e.name, attr: e.attr, input: input.to_vec(), what });
    let mut accepted = false;
    let mut strr: Option<R> = None;
    let st = std::str::from_utf8(input);
    if let Ok(s) = st {
        match guard(|| (e.f)(s)) {
            Err(p) => add("panic", format!("panicked: {p}")),
            Ok(o) => {
                accepted = o.strr.is_ok();
                if !same(&o.string, &o.strr) { add("entry", format!("parse_string gives {:?}, parse_str gives {:?}", o.string, o.strr)); }
                if o.valid.is_ok() != o.strr.is_ok() { add("entry", format!("validate_str gives {:?}, parse_str gives {:?}", o.valid, o.strr)); }
                if let (Err(a), Err(b)) = (&o.string, &o.strr) { if a != b { add("entry", format!("parse_string fails with {a}, parse_str with {b}")); } }
                if crate::oracle::plain(e.kind) {
                    if let Ok(v) = &o.strr { if v != s { add("entry", format!("text not returned unchanged: {v:?}")); } }
                    if let Ok(v) = &o.string { if v != s { add("entry", format!("parse_string: text not returned unchanged: {v:?}")); } }
                }
                if e.kind != "json" {
                    for (w, x) in &o.serde { if crate::oracle::serde_applies(e.kind, w) && !same(x, &o.strr) { add("serde", format!("{w} gives {x:?}, parse_str gives {:?}", o.strr)); } }
                } else {
                    for (w, x) in &o.serde { if w.starts_with("validators::Result From") && !same(x, &o.strr) { add("serde", format!("{w} gives {x:?}, parse_str gives {:?}", o.strr)); } }
                }
                if let Some(want) = crate::oracle::oracle(e.kind, e.cfg, s) {
                    match (&want, &o.strr) {
                        (Ok(w), Ok(g)) if w == g => (),
                        (Err(_), Err(_)) => (),
                        _ => add("oracle", format!("parse_str gives {:?}, the specification says {:?}", o.strr, want)),
                    }
                    match (&want, &o.string) {
                        (Ok(w), Ok(g)) if w == g => (),
                        (Err(_), Err(_)) => (),
                        _ => add("oracle", format!("parse_string gives {:?}, the specification says {:?}", o.string, want)),
                    }
                    if want.is_ok() != o.valid.is_ok() { add("oracle", format!("validate_str gives {:?}, the specification says {:?}", o.valid, want)); }
                }
                if let Some((t, again)) = &o.text {
                    if crate::oracle::text_must_reparse(e.kind, e.cfg) && !same(again, &crate::oracle::reparse_value(e.kind, &o.strr)) {
                        add("format", format!("formats as {t:?}, which parses to {again:?} instead of {:?}", o.strr));
                    }
                    if let Some(want) = crate::oracle::text_form(e.kind, e.cfg, o.strr.as_ref().unwrap()) {
                        if &want != t { add("format", format!("formats as {t:?}, the specification says {want:?}")); }
                    }
                }
                if let Some((form, again)) = &o.ser {
                    match again {
                        None => if crate::oracle::serde_back(e.kind) { add("serde", format!("does not serialise: {form}")) },
                        Some(a) => if crate::oracle::serde_back(e.kind) && crate::oracle::text_must_reparse(e.kind, e.cfg) && !same(a, &crate::oracle::reparse_value(e.kind, &o.strr)) {
                            add("serde", format!("serialises as {form}, which deserialises to {a:?} instead of {:?}", o.strr));
                        },
                    }
                }
                strr = Some(o.strr);
            }
        }
    }
    if let Some(b) = e.b {
        match guard(|| b(input)) {
            Err(p) => add("panic", format!("byte entry point panicked: {p}")),
            Ok(o) => {
                accepted |= o.slice.is_ok();
                if !same(&o.vec, &o.slice) { add("entry", format!("parse_vec_u8 gives {:?}, parse_u8_slice gives {:?}", o.vec, o.slice)); }
                if o.valid.is_ok() != o.slice.is_ok() { add("entry", format!("validate_u8_slice gives {:?}, parse_u8_slice gives {:?}", o.valid, o.slice)); }
                for (w, x) in &o.serde { if !same(x, &o.slice) { add("serde", format!("{w} gives {x:?}, parse_u8_slice gives {:?}", o.slice)); } }
                match (&st, &strr) {
                    (Err(_), _) => {
                        for (n, x) in [("parse_u8_slice", o.slice.is_ok()), ("parse_vec_u8", o.vec.is_ok()), ("validate_u8_slice", o.valid.is_ok())] {
                            if x { add("bytes", format!("{n} accepts bytes that are not UTF-8")); }
                        }
                    }
                    (Ok(_), Some(x)) => {
                        if !same(&o.slice, x) { add("bytes", format!("parse_u8_slice gives {:?}, parse_str of the same text gives {x:?}", o.slice)); }
                        if !same(&o.vec, x) { add("bytes", format!("parse_vec_u8 gives {:?}, parse_str of the same text gives {x:?}", o.vec)); }
                        if o.valid.is_ok() != x.is_ok() { add("bytes", format!("validate_u8_slice gives {:?}, parse_str of the same text gives {x:?}", o.valid)); }
                    }
                    _ => (),
                }
            }
        }
    }
    accepted
}

pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn js(s: &str) -> String { serde_json::to_string(s).unwrap() }

pub fn main_with(entries: Vec<Entry>) {
    std::panic::set_hook(Box::new(|_| ()));
    let args: Vec<String> = std::env::args().collect();
    watchdog(20.0);
    if args[1] == "probe" {
        // probe NAME HEX... : re-run exact inputs
        for e in entries.iter().filter(|e| e.name == args[2]) {
            for h in &args[3..] {
                let i = unhex(h);
                let mut m = vec![];
                let acc = check(e, &i, &mut m);
                let s = std::str::from_utf8(&i).ok();
                let o = s.map(|s| guard(|| (e.f)(s).strr));
                println!("{{\"accepted\":{acc},\"strr\":{},\"mismatches\":[{}]}}", js(&format!("{o:?}")),
                    m.iter().map(mis_json).collect::<Vec<_>>().join(","));
            }
        }
        return;
    }
    let per: usize = args[2].parse().unwrap();
    let seed: u64 = args[3].parse().unwrap();
    let cap: f64 = args[4].parse().unwrap();
    let threads: usize = if std::env::var("VP_TRACE").is_ok() { 1 } else { 0 };
    let threads = if threads == 1 { 1 } else { std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4) };
    let kinds: Vec<String> = args.get(5).map(|k| k.split(',').map(String::from).collect()).unwrap_or_default();
    let entries: Vec<Entry> = entries.into_iter().filter(|e| kinds.is_empty() || kinds.iter().any(|k| k == e.kind)).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let tot = std::sync::Mutex::new((0u64, 0u64, Vec::<Mis>::new(), Vec::<(String, String)>::new()));
    let t0 = std::time::Instant::now();
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= entries.len() { break; }
                let e = &entries[i];
                let left = (cap - t0.elapsed().as_secs_f64()).max(0.3);
                let remaining_rounds = ((entries.len() - i) as f64 / threads as f64).ceil().max(1.0);
                let slice = left / remaining_rounds;
                let t1 = std::time::Instant::now();
                let (mut n, mut acc, mut mm) = (0u64, std::collections::HashSet::new(), vec![]);
                let mut sample = vec![];
                let mut run = |inp: Vec<u8>, n: &mut u64, mm: &mut Vec<Mis>| {
                    *n += 1;
                    let a = check(e, &inp, mm);
                    if a {
                        use std::hash::{Hash, Hasher};
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        inp.hash(&mut h);
                        if acc.insert(h.finish()) && sample.len() < 2 { sample.push((e.attr.to_string(), String::from_utf8_lossy(&inp).into_owned())); }
                    }
                    a
                };
                for s in crate::gens::fixed(e.kind, e.cfg) { run(s, &mut n, &mut mm); if mm.len() > 20 { break; } }
                let mut g = crate::gens::Gen::new(seed ^ (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15), e.kind, e.cfg);
                let mut k = 0;
                while k < per && mm.len() <= 20 {
                    if k % 64 == 0 && t1.elapsed().as_secs_f64() > slice { break; }
                    let inp = g.next();
                    let a = run(inp.clone(), &mut n, &mut mm);
                    g.feedback(inp, a);
                    k += 1;
                }
                let mut t = tot.lock().unwrap();
                t.0 += n; t.1 += acc.len() as u64;
                // shrink the first mismatch of every class
                let mut seen = std::collections::HashSet::new();
                for m in mm { if seen.insert(m.class) { t.2.push(shrink(e, m)); } }
                if t.3.len() < 60 { t.3.extend(sample); }
            });
        }
    });
    let mut xm = crate::extra::run(&entries, seed, &kinds);
    let t = tot.into_inner().unwrap();
    let mut all = t.2;
    all.append(&mut xm.1);
    println!("{{\"evaluations\":{},\"distinct_nontrivial\":{},\"entries\":{},\"samples\":[{}],\"mismatches\":[{}]}}", t.0 + xm.0, t.1, entries.len(),
        t.3.iter().map(|(a, b)| format!("[{},{}]", js(a), js(b))).collect::<Vec<_>>().join(","),
        all.iter().map(mis_json).collect::<Vec<_>>().join(","));
}
fn mis_json(m: &Mis) -> String {
    format!("{{\"class\":{},\"name\":{},\"attr\":{},\"hex\":{},\"text\":{},\"what\":{}}}", js(m.class), js(m.name), js(m.attr), js(&hex(&m.input)),
        js(&String::from_utf8_lossy(&m.input)), js(&m.what))
}
fn shrink(e: &Entry, m: Mis) -> Mis {
    let mut best = m;
    let mut budget = 600;
    'o: loop {
        let v = best.input.clone();
        let mut size = (v.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= v.len() {
                if budget == 0 { return best; }
                budget -= 1;
                let mut w = v.clone();
                w.drain(i..i + size);
                let mut mm = vec![];
                check(e, &w, &mut mm);
                if let Some(x) = mm.into_iter().find(|x| x.class == best.class) { best = x; continue 'o; }
                i += size;
            }
            if size == 1 { break; }
            size /= 2;
        }
        return best;
    }
}
