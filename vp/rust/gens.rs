// Inputs: enumerations of short texts over each format's own alphabet, boundary lengths, structured random
// texts and mutations of accepted ones.
pub struct Rng(pub u64);
impl Rng {
    pub fn n(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 }
    pub fn below(&mut self, k: usize) -> usize { if k == 0 { 0 } else { ((self.n() >> 11) % k as u64) as usize } }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    pub fn chance(&mut self, a: usize, b: usize) -> bool { self.below(b) < a }
}
fn words(alpha: &[&str], max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..max {
        let mut nx = vec![];
        for w in &last { for a in alpha { nx.push(format!("{w}{a}")); } }
        out.extend(nx.iter().cloned());
        last = nx;
    }
    out
}
fn b(v: Vec<String>) -> Vec<Vec<u8>> { v.into_iter().map(String::into_bytes).collect() }

pub const WEIRD: &[&str] = &["é", "中", "\u{3000}", "\u{a0}", "\u{85}", "\u{2028}", "\u{0}", "\u{7f}", "\u{80}", "\u{feff}", "\u{200b}", "😀", "。", "．", "１", "Ａ", "ｆ", "ß", "İ", "ſ", "K", "\u{10ffff}", "\t", "\n", "\r", " ", "\u{b}", "\u{c}", "\u{1f}", "\u{1}", "'", "\"", "\\", "/", "@", "(", ")", "[", "]", ":", ".", "-", "_", "+", "=", "%", "#", "?", "0", "9", "a", "z", "A", "Z", "g", "G", "`", "{", "^"];
const V4: &[&str] = &["127.0.0.1", "10.0.0.1", "8.8.8.8", "192.168.1.1", "172.16.0.1", "172.32.0.1", "169.254.1.1", "255.255.255.255", "0.0.0.0", "192.0.2.1", "198.51.100.7", "203.0.113.9", "1.2.3.4", "1.2.3.4.", "1.2.3", "1.2.3.256", "01.2.3.4", "１.2.3.4", "1.2。3.4", "１２７.0.0.1", "0x7f.1", "2130706433", "1.2.3.4.5", "1.2.3.4.."];
const V6: &[&str] = &["::", "::1", "fe80::1", "fec0::1", "fc00::1", "fdff::", "ff02::1", "ff0e::1", "2001:db8::1", "2606:4700::1111", "::ffff:127.0.0.1", "::ffff:8.8.8.8", "::8.8.8.8", "::ffff:c000:280", "::ffff:c000:0280", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7:80", "0001:0002:0003:0004:0005:0006:0007:0008", "0:0:0:0:0:0:0:1", "1::2::3", ":::", "::g", "1:2:3:4:5:6:1.2.3.4", "fe80::1%eth0", "2001:DB8::A", "0:0:0:0:0:ffff:0808:0808", ":", "1:2"];
const DOM: &[&str] = &["localhost", "LOCALHOST", "localhost.", "localhost..", "a.localhost", "example.com", "example.com.", "example", "example.", "EXAMPLE.com", "中文.com", "中文", "xn--fiq228c.com", "a.b", "a..b", ".a", "-a.b", "a-.b", "a_b.c", "ex ample.com", "example。com", "example。", "ｌocalhost", "a1.b2", "xn--a", "faß.de", "a.b.c.d.e", "1", "1.2", "com", "ab--cd.com", "*.a", "%41.com", "a\u{ad}b.com", "localhost。", "l\u{ad}ocalhost"];
const PORTS: &[&str] = &["", "", "", ":80", ":0", ":65535", ":65536", ":", ":08", ":+8", ":-1", ":8a", ":8080", "::80", ":80:80", ": 80", ":８０", ":00000000080"];

pub fn seeds(kind: &str, _cfg: &[i64]) -> Vec<String> {
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    match kind {
        "base32" | "base32_decoded" => s(&["GEZDGNBVGY3TQOI=", "GEZDGNBVGY3TQOI", "MY======", "MZXQ====", "MZXW6===", "MZXW6YQ=", "MZXW6YTB", "MZXW6YTBOI======", "MY", "MZXQ", "AAAAAAAA", "77777777", "MZ======", "AB======"]),
        "base64" | "base64_decoded" | "base64_url" | "base64_url_decoded" => s(&["MTIzNDU2Nzg5MA==", "MTIzNDU2Nzg5MA", "Zg==", "Zm8=", "Zm9v", "Zm9vYg==", "Zg", "Zm8", "AAAA", "++//", "--__", "Zh==", "Zm9=", "5LmN5pqW6YKE5a-S5pmC5YCZ", "5LmN5pqW6YKE5a+S5pmC5YCZ", "////", "____"]),
        "text" | "line" => s(&["123", "", " ", "  a  ", "a b", "\u{3000}中\u{3000}", " a\u{0} ", "é", "éé", "中中中", "\t", "a\nb", "a\rb", "a\u{b}b", "\u{85}", "\u{7f}", " \u{c}", "abcd", "ab", "a", "aé中😀", "\u{2028}x\u{2028}"]),
        "mac_address" => s(&["080027B246C3", "08:00:27:B2:46:C3", "08:00:27:b2:46:c3", "080027b246c3", "08-00-27-B2-46-C3", "08_00_27_B2_46_C3", "FFFFFFFFFFFF", "ff:ff:ff:ff:ff:ff", "00:00:00:00:00:00", "000000000001", "08:0027B246C3", "0800:27B246:C3", "08:00:27:B2:46C3", "080027B246:C3"]),
        "uuid" => s(&["A866664AF9D34DDE89CB182015FA4F41", "A866664A-F9D3-4DDE-89CB-182015FA4F41", "a866664a-f9d3-4dde-89cb-182015fa4f41", "a866664af9d34dde89cb182015fa4f41", "00000000-0000-0000-0000-000000000000", "ffffffff-ffff-ffff-ffff-ffffffffffff", "A866664A:F9D3:4DDE:89CB:182015FA4F41", "a866664a_f9d3_4dde_89cb_182015fa4f41", "A866664A-F9D34DDE-89CB182015FA4F41", "A866664AF9D34DDE89CB-182015FA4F41"]),
        "boolean" => s(&["y", "yes", "t", "true", "on", "1", "n", "no", "f", "false", "off", "0", "YES", "True", "oN", "oFf", "FALSE", "yess", "tr", "tru", "fals", "of", "o", "ye", "", "2", "10", "01", "true ", "ｙ", "ſ"]),
        "ip" | "ipv4" | "ipv6" | "host" | "domain" => {
            let mut o = vec![];
            let mut base: Vec<String> = s(V4);
            base.extend(s(V6)); base.extend(s(V6).into_iter().map(|x| format!("[{x}]")));
            if kind == "host" || kind == "domain" { base.extend(s(DOM)); }
            for x in &base { for p in PORTS { if !p.is_empty() || true { o.push(format!("{x}{p}")); } } }
            o.extend(s(&["[", "]", "[]", "[]:", "[]:80", "[:80", "[::1", "::1]", "[::1]]", "[[::1]]", "[::1]x:80", "[::1]:80]", "a:", ":a"]));
            o
        }
        "email" => {
            let mut o = vec![];
            let locals = ["john", "a", "john.doe", "john..doe", ".john", "john.", "\"john\"", "\"john doe\"", "\"\"", "\"a\\\"b\"", "\"a@b\"", "\"a\\@b\"", "\"a\\ \\@b\"", "\"a\\ @b\"", "\".a\"", "\"a.\"", "\"a..b\"", "\"\\\"\"", "\"\\\\\"", "\"a", "中文", "\"中文\"", "\"中 文\"", "a中", "(c)john", "john(c)", "(c)john(d)", "(c)\"jo hn\"(d)", "()a", "a()", "(c)", "((c)a", "a(()", "\"a\"b", "a\"b\"", "a b", "\"\\中\"", "\"a\\.\"", "\"(\"", "\"\\(\"", "a,b", "\"\t\"", "\"\\\t@\"", "(中)a", "a(中)"];
            let hosts = ["example.com", "localhost", "localhost.", "example", "example.com.", "example。", "[127.0.0.1]", "[8.8.8.8]", "[IPv6:::1]", "[IPv6:2606:4700::1111]", "[::1]", "127.0.0.1", "１.2.3.4", "(c)example.com", "example.com(c)", "(c)example.com(d)", "(c)[8.8.8.8](d)", "example.com(c)x", "example.com(c)(d)", "(c)", "[8.8.8.8", "[8.8.8.8]x", "[IPv6:]", "[", "[]", "中文.com", "", "(c)(d)", "a..b", "-a.com", "[ipv6:::1]", "[IPv6:::ffff:1.2.3.4]", "[8.8.8.8.]", "a(中)", "(中)a.b", "a.b(", "a.b()", "(", "()a.b", "a_b.c", "[IPv6:::1](x)", "xn--fiq228c.com", "a.b)"];
            for l in locals { for h in hosts { o.push(format!("{l}@{h}")); } }
            o
        }
        "http_url" | "http_ftp_url" | "url" => {
            let mut o = vec![];
            for sc in ["http", "https", "ftp", "HTTP", "hTTps", "FTP", "file", "ws", "httpx", "htt", "", "mailto", "httpS", "data", " http", "ht\ttp"] {
                for r in ["://example.org/", ":example.org", "://localhost/", "://127.0.0.1", "://[::1]/", "://8.8.8.8:80/a?b#c", "://", ":", "", "//x", "://a b", "://user:pw@localhost", "://localhost.", "://LOCALHOST", "://例え.jp/", "://2130706433", "://[2606:4700::1111]", "://10.0.0.1", ":/x", "://x:99999", "://１２７.0.0.1", "://a/b\u{0}"] {
                    o.push(format!("{sc}{r}"));
                }
            }
            o
        }
        "json" => s(&["\"a\"", "1", "-1", "1.5", "true", "false", "null", "[1,2]", "[300]", "{\"a\":1}", "{}", "", " 1 ", "1x", "\"\\u00e9\"", "\"\\ud800\"", "01", "1e400", "128", "-129", "127", "18446744073709551616", "nan", "[", "{\"a\":1,\"a\":2}", "\"a\" b"]),
        "semver" => s(&["0.0.0", "1.2.3", "1.2.3-beta.1", "1.2.3+b", "1.2", "v1.2.3", "1.2.3-", "01.2.3", "1.2.3-01", "", "18446744073709551616.0.0"]),
        "semver_req" => s(&["0.0.0", ">= 0.4", "^1.2", "~1", "*", "", "1.*", ">1, <2", "=1.2.3-a", "x", ">", "1.2.3.4"]),
        "regex" => s(&["1Ab", "1AG", "", "abc", "ABC\n", "10", "A", "J", "0", "1", "11", "é", "a b", "Q\n", "K "]),
        "phone" => s(&["+886912345678", "0912345678", "+14155552671", "(415) 555-2671", "4155552671", "1", "", "abc", "+", "+1", "00886912345678", "+442071838750", "911", "+88691234567", "091234567", "+8860912345678", "tel:+14155552671", "0800080080", "8005551212"]),
        "signed_integer" | "unsigned_integer" => {
            let mut o = s(&["", "+", "-", "+1", "-0", "007", "1 ", " 1", "1_0", "0x1", "１"]);
            for e in [7u32, 8, 15, 16, 31, 32, 63, 64, 127] { for d in [-1i128, 0, 1] { let v = (1i128.checked_shl(e).unwrap_or(0)).wrapping_add(d); o.push(v.to_string()); o.push(format!("-{}", v.unsigned_abs())); } }
            o.push(u128::MAX.to_string());
            o.push("340282366920938463463374607431768211456".into());
            for v in [2, 3, 4, 5, 6, 7, 8, 50, 99, 100, 101] { o.push(v.to_string()); }
            o
        }
        "number" => s(&["", "1", "1.0", "0.999", "10", "10.0000001", "-1", "NaN", "nan", "inf", "-inf", "1e400", "1e-400", "+1", "0x1", ".5", "5.", "1_0", "infinity", "-0", "3.4028236e38", "0.1", "1.0000001", "9.9999999", "-nan"]),
        "bit" | "byte" => s(&["1", "0", "1b", "1B", "1kb", "1KB", "1 KiB", "1.5 KB", "8", "7", "8000", "8001", "5000", "5001", "8kb", "1 PB", "", "b", "-1", "1.23456789 KB", "18446744073709551615", "18446744073709551616", "1EB", "99999 EB", "1kB", "5KB", "1 x", "0 b"]),
        _ => vec![],
    }
}
fn alpha(kind: &str, cfg: &[i64]) -> (Vec<&'static str>, usize) {
    match kind {
        "base32" | "base32_decoded" => (vec!["A", "7", "=", "a"], 6),
        "base64" | "base64_decoded" => (vec!["A", "/", "=", "-", "+", "_"], 5),
        "base64_url" | "base64_url_decoded" => (vec!["A", "_", "=", "-", "+", "/"], 5),
        "text" | "line" => (vec!["a", " ", "中", "\u{85}", "\u{0}", "\n", "\u{b}"], 5),
        "boolean" => (vec!["t", "r", "u", "e", "f", "a", "l", "s", "o", "n", "y", "1", "0"], 3),
        "ip" | "ipv4" | "ipv6" => (vec!["1", ".", ":", "[", "]", "a"], 5),
        "host" | "domain" => (vec!["1", ".", ":", "[", "]", "a", "é"], 4),
        "email" => (vec!["a", ".", "@", "\"", "\\", "(", ")", "[", " ", "é"], 4),
        "mac_address" | "uuid" => { let _ = cfg; (vec!["0", "f", "F", ":", "-"], 3) }
        _ => (vec![], 0),
    }
}
pub fn fixed(kind: &str, cfg: &[i64]) -> Vec<Vec<u8>> {
    let mut o = b(seeds(kind, cfg));
    let (a, n) = alpha(kind, cfg);
    if n > 0 { o.extend(b(words(&a, n))); }
    // every single byte as raw input, and around a seed
    for x in 0..=255u8 { o.push(vec![x]); }
    let sd = seeds(kind, cfg);
    for s in sd.iter().take(3) {
        for x in 0..=255u8 {
            for at in [0, s.len() / 2, s.len()] {
                let mut v = s.clone().into_bytes();
                v.insert(at, x);
                o.push(v.clone());
                if at < s.len() { let mut v = s.clone().into_bytes(); v[at] = x; o.push(v); }
            }
        }
    }
    match kind {
        "mac_address" | "uuid" => {
            // every subset of separator boundaries, for every separator character, plus misplaced ones
            let (groups, hexs): (&[usize], &str) = if kind == "uuid" { (&[8, 4, 4, 4, 12], "A866664AF9D34DDE89CB182015FA4F41") } else { (&[2; 6], "080027B2D6C3") };
            for sep in ["", ":", "-", "_"] {
                for mask in 0..(1u32 << (groups.len() - 1)) {
                    for lower in [false, true] {
                        let h = if lower { hexs.to_lowercase() } else { hexs.to_string() };
                        let (mut t, mut at) = (String::new(), 0);
                        for (i, g) in groups.iter().enumerate() {
                            if i > 0 && mask >> (i - 1) & 1 == 1 { t.push_str(sep); }
                            t.push_str(&h[at..at + g]);
                            at += g;
                        }
                        o.push(t.clone().into_bytes());
                        o.push(t[..t.len() - 1].as_bytes().to_vec());
                        o.push(format!("{t}0").into_bytes());
                        o.push(format!("{t}{sep}").into_bytes());
                        for i in 0..=t.len() { let mut u = t.clone(); u.insert_str(i, sep); o.push(u.into_bytes()); }
                        for i in 0..t.len() { for c in ["G", "g", "/", "@", "`", "é"] { let mut u = t.clone(); u.replace_range(i..i + 1, c); o.push(u.into_bytes()); } }
                    }
                }
            }
        }
        "email" => {
            // lengths around the limits: local part 64, rest 255, total 320, comments
            let rep = |c: &str, n: usize| c.repeat(n);
            let label = "a".repeat(61);
            let dom = |n: usize| { let mut d = String::new(); while d.len() + 62 < n { d.push_str(&label); d.push('.'); } while d.len() < n { d.push('b'); } d };
            for n in 58..70 {
                for d in ["x.com", "[8.8.8.8]", "localhost"] {
                    o.push(format!("{}@{d}", rep("a", n)).into_bytes());
                    o.push(format!("\"{}\"@{d}", rep("a", n)).into_bytes());
                    o.push(format!("\"{} \"@{d}", rep("a", n)).into_bytes());
                    o.push(format!("\"{}\\\"\"@{d}", rep("a", n)).into_bytes());
                    o.push(format!("\"{}.\"@{d}", rep("a", n)).into_bytes());
                    o.push(format!("\"{}\\(\"@{d}", rep("a", n)).into_bytes());
                    o.push(format!("({})a@{d}", rep("c", n)).into_bytes());
                    o.push(format!("({})\"a\"@{d}", rep("c", n)).into_bytes());
                    o.push(format!("({}){}@{d}", rep("c", n - 30), rep("a", 30)).into_bytes());
                    o.push(format!("{}({})@{d}", rep("a", 30), rep("c", n - 30)).into_bytes());
                    o.push(format!("{}()@{d}", rep("a", n)).into_bytes());
                    o.push(format!("{}(c)@{d}", rep("a", n)).into_bytes());
                    o.push(format!("\"{}\"(c)@{d}", rep("a", n)).into_bytes());
                    o.push(format!("{}.a@{d}", rep("a", n)).into_bytes());
                    o.push(format!("{}é@{d}", rep("a", n)).into_bytes());
                    o.push(format!("\"{}é\"@{d}", rep("a", n)).into_bytes());
                    o.push(format!("({})é@{d}", rep("c", n)).into_bytes());
                    o.push(format!("({})(d)@{d}", rep("c", n)).into_bytes());
                    o.push(format!("({}){}({})@{d}", rep("c", n / 3), rep("a", n / 3), rep("e", n - 2 * (n / 3))).into_bytes());
                }
            }
            for n in 245..262 {
                for l in ["a", "\"a b\"", "(c)a", &rep("a", 64)] {
                    o.push(format!("{l}@{}", dom(n)).into_bytes());
                    o.push(format!("{l}@é.{}", dom(n - 3)).into_bytes());
                    o.push(format!("{l}@({})a.b", rep("c", n)).into_bytes());
                    o.push(format!("{l}@a.b({})", rep("c", n)).into_bytes());
                    o.push(format!("{l}@localhost({})", rep("c", n)).into_bytes());
                    o.push(format!("{l}@(c)a.b({})", rep("c", n)).into_bytes());
                    for k in [1, 2, 3, 4, 5, 6] { o.push(format!("{l}@é.a({})", rep("c", n - k)).into_bytes()); o.push(format!("{l}@({})é.a", rep("c", n - k - 2)).into_bytes());
                        o.push(format!("{l}@[IPv6:1:0:2::]({})", rep("c", n - k - 16)).into_bytes());
                        o.push(format!("{l}@[IPv6:::ffff:0102:0304]({})", rep("c", n - k - 20)).into_bytes());
                        o.push(format!("{l}@[IPv6:1:2:3:4:5:6:1.2.3.4]({})", rep("c", n - k - 25)).into_bytes()); }
                }
            }
        }
        "host" | "domain" => {
            for n in 60..66 { o.push(format!("{}.com", "a".repeat(n)).into_bytes()); o.push("a".repeat(n).into_bytes()); }
            for n in 245..262 { let mut d = String::new(); while d.len() + 62 < n { d.push_str(&"a".repeat(61)); d.push('.'); } while d.len() < n { d.push('b'); }
                o.push(d.clone().into_bytes()); o.push(format!("{d}:80").into_bytes()); o.push(format!("{d}.").into_bytes()); }
        }
        "base32" | "base64" | "base64_url" | "base32_decoded" | "base64_decoded" | "base64_url_decoded" => {
            for n in 0..34 { for c in ["A", "Q", "7"] { for p in 0..9 { o.push(format!("{}{}", c.repeat(n), "=".repeat(p)).into_bytes());
                o.push(format!("{}{}A", c.repeat(n), "=".repeat(p)).into_bytes()); } } }
            for n in 0..26 { for p in 0..n { let mut v = "A".repeat(n).into_bytes(); v[p] = b'='; o.push(v.clone()); v[p] = b'a'; o.push(v.clone()); v[p] = b'1'; o.push(v.clone()); v[p] = b'+'; o.push(v.clone()); v[p] = 0xc3; o.push(v); } }
        }
        "text" | "line" => {
            for c in 0..0x100u32 { for f in ["{}", "a{}", "{}a", " {}", "a {}b", "abc{}"] { o.push(f.replace("{}", &char::from_u32(c).unwrap().to_string()).into_bytes()); } }
            for n in 0..12 { for c in ["a", "é", "中", "😀", " ", "\u{3000}"] { o.push(c.repeat(n).into_bytes()); o.push(format!(" {} ", c.repeat(n)).into_bytes()); o.push(format!("{}a{}", c.repeat(n), c.repeat(n / 2)).into_bytes()); } }
        }
        _ => (),
    }
    o
}

pub struct Gen { pub r: Rng, kind: &'static str, seeds: Vec<Vec<u8>>, acc: Vec<Vec<u8>>, cfg: Vec<i64> }
impl Gen {
    pub fn new(seed: u64, kind: &'static str, cfg: &[i64]) -> Self {
        let mut r = Rng(seed | 1);
        for _ in 0..10 { r.n(); }
        Gen { r, kind, seeds: b(seeds(kind, cfg)), acc: vec![], cfg: cfg.to_vec() }
    }
    pub fn feedback(&mut self, i: Vec<u8>, ok: bool) { if ok { if self.acc.len() < 200 { self.acc.push(i); } else { let k = self.r.below(200); self.acc[k] = i; } } }
    pub fn next(&mut self) -> Vec<u8> {
        let c = self.r.below(10);
        if c < 4 && !self.acc.is_empty() {
            let k = self.r.below(self.acc.len());
            let v = self.acc[k].clone();
            return self.mutate(v);
        }
        if c < 6 && !self.seeds.is_empty() {
            let k = self.r.below(self.seeds.len());
            let v = self.seeds[k].clone();
            return self.mutate(v);
        }
        self.structured()
    }
    fn mutate(&mut self, mut v: Vec<u8>) -> Vec<u8> {
        for _ in 0..1 + self.r.below(3) {
            let at = self.r.below(v.len() + 1);
            match self.r.below(8) {
                0 => { if at < v.len() { v.remove(at); } }
                1 => { let w = self.r.pick(WEIRD).as_bytes().to_vec(); v.splice(at..at, w); }
                2 => { let (a, _) = alpha(self.kind, &self.cfg); if !a.is_empty() { let w = self.r.pick(&a).as_bytes().to_vec(); v.splice(at..at, w); } }
                3 => { if at < v.len() { v[at] = self.r.n() as u8; } }
                4 => { if at < v.len() { v[at] ^= 0x20; } }
                5 => { if at < v.len() { let c = v[at]; let n = self.r.below(70); for _ in 0..n { v.insert(at, c); } } }
                6 => { let e = at + self.r.below(v.len() + 1 - at); let w = v[at..e].to_vec(); let t = self.r.below(v.len() + 1); v.splice(t..t, w); }
                _ => { if at < v.len() { let e = (at + 1 + self.r.below(4)).min(v.len()); v.drain(at..e); } }
            }
            if v.len() > 700 { v.truncate(700); }
        }
        v
    }
    fn chars(&mut self, set: &str, max: usize) -> String {
        let cs: Vec<char> = set.chars().collect();
        let n = self.r.below(max + 1);
        (0..n).map(|_| *self.r.pick(&cs)).collect()
    }
    fn structured(&mut self) -> Vec<u8> {
        match self.kind {
            "base32_decoded" | "base64_decoded" | "base64_url_decoded" | "base32" | "base64" | "base64_url" if self.r.chance(1, 2) => {
                let n = 1 + self.r.below(24);
                let d: Vec<u8> = (0..n).map(|_| self.r.n() as u8).collect();
                let (al, bits, block): (&[u8], usize, usize) = if self.kind.starts_with("base32") { (b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", 5, 8) } else if self.kind.contains("url") { (b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", 6, 4) } else { (b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", 6, 4) };
                let mut o = vec![];
                for i in 0..(8 * n).div_ceil(bits) { let mut v = 0; for k in 0..bits { let p = i * bits + k; let bit = if p < 8 * n { d[p / 8] >> (7 - p % 8) & 1 } else { 0 }; v = v << 1 | bit as usize; } o.push(al[v]); }
                if self.r.chance(2, 3) { while o.len() % block != 0 { o.push(b'='); } }
                o
            }
            "base32" | "base32_decoded" => { let a = self.chars("ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", 40); let p = self.r.below(8); let a = if self.r.chance(1, 2) { let k = a.len() / 8 * 8; a[..k].to_string() + "AA" } else { a }; format!("{a}{}", "=".repeat(if self.r.chance(1, 2) { (8 - a.len() % 8) % 8 } else { p })).into_bytes() }
            "base64" | "base64_decoded" | "base64_url" | "base64_url_decoded" => { let a = self.chars(if self.kind.contains("url") { "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_" } else { "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/" }, 30); let p = self.r.below(4); format!("{a}{}", "=".repeat(if self.r.chance(1, 2) { (4 - a.len() % 4) % 4 } else { p })).into_bytes() }
            "text" | "line" => { let a = self.chars("aé中😀 \u{3000}\t\n\r\u{b}\u{c}\u{85}\u{a0}z", 9); let x = self.chars("  \u{3000}\t", 3); let y = self.chars("  \u{3000}\n", 3); format!("{x}{a}{y}").into_bytes() }
            "mac_address" | "uuid" => {
                let groups: &[usize] = if self.kind == "uuid" { &[8, 4, 4, 4, 12] } else { &[2; 6] };
                let mode = self.r.below(4);
                let sep = *self.r.pick(&[":", "-", "_", ""]);
                let set = *self.r.pick(&["0123456789ABCDEF", "0123456789abcdef", "0123456789abcdefABCDEF", "0"]);
                let cs: Vec<char> = set.chars().collect();
                let mut t = String::new();
                for (i, g) in groups.iter().enumerate() {
                    if i > 0 && (mode == 0 || (mode == 1 && self.r.chance(1, 2))) { t.push_str(sep); }
                    for _ in 0..*g { t.push(*self.r.pick(&cs)); }
                }
                t.into_bytes()
            }
            "ip" | "ipv4" | "ipv6" | "host" | "domain" => {
                let p = *self.r.pick(PORTS);
                let h = match self.r.below(5) {
                    0 => self.r.pick(V4).to_string(),
                    1 => self.r.pick(V6).to_string(),
                    2 => format!("[{}]", std::net::Ipv6Addr::from(((self.r.n() as u128) << 64 | self.r.n() as u128) >> (self.r.below(127)))),
                    3 => format!("{}", std::net::Ipv4Addr::from(self.r.n() as u32)),
                    _ => { let n = 1 + self.r.below(3); let mut l = vec![]; for _ in 0..n { let s = self.chars("ab1-é中Zß", 4); l.push(s); } l.join(".") }
                };
                let p = if self.r.chance(1, 4) { format!(":{}", self.r.below(70000)) } else { p.to_string() };
                format!("{h}{p}").into_bytes()
            }
            "email" => {
                let c = |g: &mut Self| if g.r.chance(1, 4) { let n = if g.r.chance(1, 4) { 64 } else { 4 }; format!("({})", g.chars("ab @(é.\"\\", n)) } else { String::new() };
                let n = if self.r.chance(1, 5) { 66 } else { 6 };
                let (c1, c2, c3, c4) = (c(self), c(self), c(self), c(self));
                let l = match self.r.below(3) { 0 => self.chars("ab.", n), 1 => format!("\"{}\"", self.chars("a. \\\"(\\@é\t", n)), _ => self.chars("aé.!~", n) };
                let d = match self.r.below(6) {
                    0 => format!("[{}]", self.r.pick(V4)), 1 => format!("[IPv6:{}]", self.r.pick(V6)),
                    2 => format!("[IPv6:{}]", std::net::Ipv6Addr::from((self.r.n() as u128) << 64 | self.r.n() as u128)),
                    3 => self.r.pick(DOM).to_string(), 4 => "example.com".into(),
                    _ => { let n = 1 + self.r.below(3); let mut l = vec![]; for _ in 0..n { let s = self.chars("ab1-é中", 5); l.push(s); } l.join(".") }
                };
                format!("{c1}{l}{c2}@{c3}{d}{c4}").into_bytes()
            }
            "http_url" | "http_ftp_url" | "url" => {
                let sc = *self.r.pick(&["http", "http", "https", "https", "ftp", "HTTP", "hTtPs", "Ftp", "ws", "file", "httpss"]);
                let ui = *self.r.pick(&["", "", "", "u@", "u:p@", ":@", "a%40b@", "localhost@", "127.0.0.1:80@"]);
                let h = match self.r.below(8) {
                    0 => self.r.pick(V4).to_string(),
                    1 => format!("[{}]", self.r.pick(V6)),
                    2 => format!("[{}]", std::net::Ipv6Addr::from(((self.r.n() as u128) << 64 | self.r.n() as u128) >> (self.r.below(127)))),
                    3 => format!("{}", std::net::Ipv4Addr::from(self.r.n() as u32)),
                    4 | 5 => self.r.pick(&["localhost", "localhost.", "LocalHost", "localhost.localdomain", "a.localhost", "localhos", "xlocalhost", "local", "localdomain", "example.com", "example.com.", "example"]).to_string(),
                    6 => self.r.pick(DOM).to_string(),
                    _ => { let n = 1 + self.r.below(3); let mut l = vec![]; for _ in 0..n { let s = self.chars("ab1-é中Zß_", 4); l.push(s); } l.join(".") }
                };
                let p = match self.r.below(4) { 0 | 1 => String::new(), 2 => format!(":{}", self.r.pick(&["80", "443", "21", "8080", "8000", "8443", "8888", "3000", "5000", "9000", "22", "0", "1", "1024", "65535", "65536", "", "0080"])), _ => format!(":{}", self.r.below(70000)) };
                let pa = match self.r.below(4) { 0 => String::new(), 1 => "/".into(), 2 => format!("/{}", self.chars("ab/.%20é\\", 8)), _ => self.r.pick(&["/index.html", "/a/../b", "//x", "/http://localhost/", "/%00", "\\a", "/a;b=c", "/api/v1"]).to_string() };
                let q = *self.r.pick(&["", "", "", "?", "?a=b", "?q=http://localhost", "?a=b&c=d", "?é"]);
                let f = *self.r.pick(&["", "", "", "#", "#f", "#a?b", "#é"]);
                let sl = *self.r.pick(&["://", "://", "://", "://", "://", ":", ":/", ":///", ":\\\\"]);
                format!("{sc}{sl}{ui}{h}{p}{pa}{q}{f}").into_bytes()
            }
            "boolean" => {
                let w = *self.r.pick(&["0", "1", "true", "false", "yes", "no", "on", "off", "t", "f", "y", "n", "enable", "disable", "ok"]);
                let w: String = w.chars().map(|c| if self.r.chance(1, 3) { c.to_ascii_uppercase() } else { c }).collect();
                let w = match self.r.below(3) { 0 => w.to_uppercase(), 1 => w, _ => { let mut c = w.chars(); c.next().map(|x| x.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default() } };
                if self.r.chance(1, 4) { format!("{w}{}", self.chars("se1 \u{3000}d", 2)).into_bytes() } else { w.into_bytes() }
            }
            "phone" => {
                let p = *self.r.pick(&["+886", "+1", "0", "", "+44", "+8869", "+81", "+86", "+49", "+33", "+852", "+61", "+39", "+7", "+65", "+91", "+1242", "+1787", "+800", "+886 ", "tel:+1", "001", "011", "1", "09", "(02) ", "02-", "415-", "(415) 555-"]);
                let n = 4 + self.r.below(9);
                let mut d = String::new();
                for i in 0..n { if i > 0 && self.r.chance(1, 12) { d.push_str(self.r.pick(&["-", " ", ".", "(", ")"])); } d.push(char::from(b'0' + self.r.below(10) as u8)); }
                let x = if self.r.chance(1, 8) { *self.r.pick(&[" ext. 12", "#12", ";ext=1", "x3", " "]) } else { "" };
                format!("{p}{d}{x}").into_bytes()
            }
            "signed_integer" | "unsigned_integer" => { let m = 1 + self.r.below(39); let m = if self.r.chance(1, 2) { 1 + m % 5 } else { m }; let s = *self.r.pick(&["", "-", "+"]); let d = self.chars("0123456789", m); format!("{s}{d}").into_bytes() }
            "number" => { let s = *self.r.pick(&["", "-", "+"]); let a = self.chars("0123456789", 3); let f = self.chars("0123456789", 4); let e = if self.r.chance(1, 3) { format!("e{}", self.r.below(50) as i64 - 25) } else { String::new() }; if self.r.chance(1, 5) { format!("{s}{a}").into_bytes() } else { format!("{s}{a}.{f}{e}").into_bytes() } }
            "bit" | "byte" => { let m = 5 + self.r.below(3) * 4; let a = self.chars("0123456789", m); let f = if self.r.chance(1, 3) { let x = self.chars("0123456789", 4); format!(".{x}") } else { String::new() }; let u = *self.r.pick(&["", "b", "B", "kb", "KB", "KiB", " MB", "Gb", "kB", "Kib", " GiB", "T", "Pb", "EiB", "m", " k", "MiB ", "bit", "byte"]); format!("{a}{f}{u}").into_bytes() }
            "json" => {
                fn v(r: &mut Rng, d: usize) -> String {
                    match r.below(if d > 3 { 7 } else { 10 }) {
                        0 => (r.n() as u8).to_string(), 1 => (r.n() as i8).to_string(), 2 => (r.n() as i64).to_string(), 3 => format!("{}e{}", r.n() as i32 as f64 / 1000.0, r.below(40) as i32 - 20),
                        4 => r.pick(&["true", "false", "null"]).to_string(), 5 | 6 => format!("\"{}\"", r.pick(&["", "a", "é", "\\n", "\\u00e9", "\\ud83d\\ude00", "\\ud83d", "\\", "\t", "中"])),
                        7 => { let n = r.below(4); let l: Vec<_> = (0..n).map(|_| v(r, d + 1)).collect(); format!("[{}]", l.join(r.pick(&[",", " , ", ",\n"]))) }
                        8 => { let n = r.below(5); let l: Vec<_> = (0..n).map(|_| (r.below(260)).to_string()).collect(); format!("[{}]", l.join(",")) }
                        _ => { let n = r.below(3); let l: Vec<_> = (0..n).map(|_| format!("\"{}\":{}", r.pick(&["a", "b", "", "é"]), v(r, d + 1))).collect(); format!("{{{}}}", l.join(",")) }
                    }
                }
                if self.r.chance(1, 4) { let n = 12; return self.chars("[]{}\",:01-.etrufalsn ", n).into_bytes(); }
                let (a, z) = (*self.r.pick(&["", "", " ", "\n\t", "\u{feff}"]), *self.r.pick(&["", "", " ", "\r\n", ",", "x", "\u{0}"]));
                format!("{a}{}{z}", v(&mut self.r, 0)).into_bytes()
            }
            "semver" | "semver_req" if self.r.chance(1, 2) => {
                let op = if self.kind == "semver" { "" } else { *self.r.pick(&["", "=", ">", ">=", "<", "<=", "~", "^", " ^ ", "=="]) };
                let n = 1 + self.r.below(4);
                let mut l = vec![];
                for _ in 0..n { let x = match self.r.below(8) { 0 => "*".to_string(), 1 => "x".into(), 2 => format!("0{}", self.r.below(9)), 3 => self.r.n().to_string(), _ => self.r.below(30).to_string() }; l.push(x); }
                let pre = match self.r.below(4) { 0 => format!("-{}", self.chars("ab01.-", 5)), _ => String::new() };
                let bld = match self.r.below(4) { 0 => format!("+{}", self.chars("ab01.-", 5)), _ => String::new() };
                let t = *self.r.pick(&["", "", "", ", <2", " ", ", *", ",", ", >=1.2.3-a"]);
                format!("{op}{}{pre}{bld}{t}", l.join(".")).into_bytes()
            }
            "semver" | "semver_req" => self.chars("0123.-+*^~>=<, ab", 10).into_bytes(),
            "regex" => { let n = 4; let a = self.chars("09AZaz fFgG1\n\u{0}éΩ٣-_", n); a.into_bytes() }
            _ => { let n = self.r.below(12); let mut t = String::new(); for _ in 0..n { t.push_str(self.r.pick(WEIRD)); } t.into_bytes() }
        }
    }
}
