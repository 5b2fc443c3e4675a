"""Every validator configuration the string-based checks are run over, as Rust source.

fams(): family -> list of T. A T carries the attribute, the struct body, how the parsed value is
rendered (all observable fields) and how it is turned back into text."""
import itertools

TRI = ["Must", "Allow", "Disallow"]      # cfg codes 0, 1, 2


class T:
    def __init__(self, fam, kind, attr, body, cfg, render, text="None", feats=None, traits="", pre="", tuple_=False):
        self.fam, self.kind, self.attr, self.body, self.cfg = fam, kind, attr, body, cfg
        self.render, self.text, self.traits, self.pre = render, text, traits, pre
        self.feats = feats or [kind]
        self.tuple_ = tuple_
        self.name = None


def tri(i):
    return TRI[i]


def base_types():
    out = []
    for k in ("base32", "base64", "base64_url"):
        for p in range(3):
            out.append(T(k, k, f"{k}(padding({tri(p)}))", "(pub String);", [p], "self.0.clone()", "Some(self.0.clone())", traits="bytes"))
            out.append(T(k + "_decoded", k + "_decoded", f"{k}_decoded(padding({tri(p)}))", "(pub Vec<u8>);", [p],
                         "hex(&self.0)", traits="bytes"))
    return out


def text_types():
    out = []
    shapes = []
    for mn, tm, mx in [(None, None, None), (None, None, 3), (None, None, 0), (2, None, None), (0, None, None), (1, None, 4), (3, None, 3),
                       (None, 0, None), (None, 2, None), (None, 1, 4), (None, 0, 3), (None, 3, 3),
                       (3, 2, None), (3, 0, None), (2, 1, 5), (3, 3, 4), (4, 2, 4), (1, 0, 2), (0, None, 0), (1, 1, None), (2, 2, 2), (5, 1, 20)]:
        shapes.append((mn, tm, mx))
    for k in ("text", "line"):
        for unit in ("char_length", "byte_length"):
            for mn, tm, mx in shapes:
                ps = []
                if mn is not None: ps.append(f"min = {mn}")
                if tm is not None: ps.append(f"trimmed_min = {tm}")
                if mx is not None: ps.append(f"max = {mx}")
                if not ps:
                    if unit == "byte_length":
                        continue
                    attr = k
                else:
                    attr = f"{k}({unit}({', '.join(ps)}))"
                cfg = [1 if unit == "byte_length" else 0] + [-1 if x is None else x for x in (mn, tm, mx)]
                out.append(T(k, k, attr, "(pub String);", cfg, "self.0.clone()"))
    return out


SEPS = [ord(":"), ord("-"), ord("."), ord("_")]


def mac_types(kind, ty, conv):
    out = []
    for ci, case in enumerate(["Any", "Upper", "Lower"]):
        opts = [(2, None)] + [(m, s) for m in (0, 1) for s in (58, 45, 95)]
        for m, sep in opts:
            if m == 2:
                a = "separator(Disallow)"
            else:
                a = f"separator({tri(m)}(b'{chr(sep)}'))"
            out.append(T(kind, kind, f"{kind}(case({case}), {a})", f"(pub {ty});", [ci, m, sep or 0],
                         'format!("{}", self.0)', f"Some(self.{conv}())"))
    return out


def ip_types():
    out = []
    for k, field, ty in (("ip", "ip", "std::net::IpAddr"), ("ipv4", "ipv4", "std::net::Ipv4Addr"), ("ipv6", "ipv6", "std::net::Ipv6Addr")):
        for l, p in itertools.product(range(3), range(3)):
            if p == 2:
                body, r = f"(pub {ty});", 'format!("{:?}|None", self.0)'
            elif p == 1:
                body, r = f"{{ pub {field}: {ty}, pub port: Option<u16> }}", f'format!("{{:?}}|{{:?}}", self.{field}, self.port)'
            else:
                body, r = f"{{ pub {field}: {ty}, pub port: u16 }}", f'format!("{{:?}}|{{:?}}", self.{field}, Some(self.port))'
            out.append(T(k, k, f"{k}(local({tri(l)}), port({tri(p)}))", body, [l, p], r,
                         "Some(self.to_uri_authority_string().into_owned())"))
    return out


def host_types():
    out = []
    for l, p, a in itertools.product(range(3), repeat=3):
        isl = l == 1 and a != 1
        if p == 2 and not isl:
            body, r = "(pub Host);", 'format!("{:?}|None|-", self.0)'
        else:
            fs = ["pub host: Host"]
            if isl: fs.append("pub is_local: bool")
            if p == 1: fs.append("pub port: Option<u16>")
            if p == 0: fs.append("pub port: u16")
            body = "{ " + ", ".join(fs) + " }"
            pr = {0: "Some(self.port)", 1: "self.port", 2: "None::<u16>"}[p]
            r = f'format!("{{:?}}|{{:?}}|{{}}", self.host, {pr}, {"self.is_local" if isl else chr(34) + "-" + chr(34)})'
        out.append(T("host", "host", f"host(local({tri(l)}), port({tri(p)}), at_least_two_labels({tri(a)}))", body, [l, p, a], r,
                     "Some(self.to_uri_authority_string().into_owned())", pre="use validators::models::Host;"))
    return out


def domain_types():
    out = []
    for v, l, p, a in itertools.product(range(3), repeat=4):
        isl = l == 1 and a != 1
        isv = v == 1 and isl
        conf = ", conflict(Allow)" if v == 0 and a == 2 else ""
        if p == 2 and not isl:
            body, r, q = "(pub String);", 'format!("{}|None|-|-", self.0)', "self.0"
        else:
            fs = ["pub domain: String"]
            if isv: fs.append("pub is_ipv4: bool")
            if isl: fs.append("pub is_local: bool")
            if p == 1: fs.append("pub port: Option<u16>")
            if p == 0: fs.append("pub port: u16")
            body = "{ " + ", ".join(fs) + " }"
            pr = {0: "Some(self.port)", 1: "self.port", 2: "None::<u16>"}[p]
            d = '"-"'
            r = f'format!("{{}}|{{:?}}|{{}}|{{}}", self.domain, {pr}, {"self.is_ipv4" if isv else d}, {"self.is_local" if isl else d})'
        out.append(T("domain", "domain", f"domain(ipv4({tri(v)}), local({tri(l)}), port({tri(p)}), at_least_two_labels({tri(a)}){conf})",
                     body, [v, l, p, a], r + ' + &format!("|{}|{}", self.is_fully_qualified(), self.get_domain_non_fully_qualified())',
                     "Some(self.to_uri_authority_string().into_owned())"))
    return out


def email_types():
    out = []
    for c, i, l, a, n in itertools.product((1, 2), range(3), range(3), range(3), (1, 2)):
        isl = l == 1 and a != 1
        conf = ", conflict(Allow)" if i == 0 and a == 2 else ""
        fs = ["pub local_part: String", "pub need_quoted: bool", "pub domain_part: " + {0: "std::net::IpAddr", 1: "Host", 2: "String"}[i]]
        cm = '"-"'
        if c == 1:
            names = ["comment_before_local_part", "comment_after_local_part", "comment_before_domain_part", "comment_after_domain_part"]
            fs += [f"pub {x}: Option<String>" for x in names]
            cm = 'format!("{:?};{:?};{:?};{:?}", ' + ", ".join("self." + x for x in names) + ")"
        if isl:
            fs.append("pub is_local: bool")
        body = "{ " + ", ".join(fs) + " }"
        il = "self.is_local" if isl else '"-"'
        dp = {0: 'match self.domain_part { std::net::IpAddr::V4(x) => format!("IPv4({x})"), std::net::IpAddr::V6(x) => format!("IPv6({x})") }',
              1: 'format!("{:?}", self.domain_part)', 2: 'format!("Domain({:?})", self.domain_part)'}[i]
        r = f'format!("{{}}|{{}}|{{}}|{{}}|{{}}", self.local_part, self.need_quoted, {dp}, {cm}, {il})'
        out.append(T("email", "email",
                     f"email(comment({tri(c)}), ip({tri(i)}), local({tri(l)}), at_least_two_labels({tri(a)}), non_ascii({tri(n)}){conf})",
                     body, [c, i, l, a, n], r, "Some(self.to_email_string())", pre="use validators::models::Host;"))
    return out


def http_types():
    out = []
    for l in range(3):
        isl = False
        out.append(T("http_url", "http_url", f"http_url(local({tri(l)}))", "{ pub url: validators_prelude::url::Url, pub is_https: bool }", [l],
                     'format!("{}|{}", self.url, self.is_https)'))
        out.append(T("http_ftp_url", "http_ftp_url", f"http_ftp_url(local({tri(l)}))",
                     "{ pub url: validators_prelude::url::Url, pub protocol: validators::models::Protocol }", [l],
                     'format!("{}|{:?}", self.url, self.protocol)'))
    return out


# the countries of the phone types (the same list is in rust/oracle.rs)
PHONE = [[], ["TW"], ["TW", "US"], ["US"], ["GB"], ["JP", "CN"], ["US", "CA", "GB"]]


def misc_types():
    out = [T("boolean", "boolean", "boolean", "(pub bool);", [], 'format!("{}", self.0)')]
    for j, ty in enumerate(["String", "f64", "bool", "Vec<u8>", "std::collections::BTreeMap<String, i64>", "validators_prelude::serde_json::Value", "u64", "i8", "Option<String>"]):
        out.append(T("json", "json", "json", f"(pub {ty});", [j], 'format!("{:?}", self.0)', feats=["json"]))
    out.append(T("url", "url", "url", "(pub validators_prelude::url::Url);", [], 'format!("{}", self.0)'))
    out.append(T("semver", "semver", "semver", "(pub validators_prelude::semver::Version);", [], 'format!("{:?}", self.0)'))
    out.append(T("semver_req", "semver_req", "semver_req", "(pub validators_prelude::semver::VersionReq);", [], 'format!("{:?}", self.0)'))
    out.append(T("regex", "regex", 'regex(regex = "^[0-9a-fA-F]+$")', "(pub String);", [0], "self.0.clone()"))
    out.append(T("regex", "regex", 'regex(regex = RE_POKER)', "(pub String);", [1], "self.0.clone()",
                 pre='static RE_POKER: std::sync::LazyLock<validators_prelude::regex::Regex> = std::sync::LazyLock::new(|| validators_prelude::regex::Regex::new("^([AJQK1-9]|10)$").unwrap());'))
    out.append(T("phone", "phone", "phone", "(pub validators_prelude::phonenumber::PhoneNumber);", [0], 'format!("{:?}", self.0)'))
    for k, ids in enumerate(PHONE[1:], 1):
        many = len(ids) > 1
        out.append(T("phone", "phone", f"phone(countries({', '.join(ids)}))",
                     "(pub std::collections::HashMap<validators_prelude::phonenumber::country::Id, validators_prelude::phonenumber::PhoneNumber>);" if many else "(pub validators_prelude::phonenumber::PhoneNumber);", [k],
                     '{ let mut v: Vec<String> = self.0.iter().map(|(k, v)| format!("{:?}={:?}", k, v)).collect(); v.sort(); v.join(";") }' if many else 'format!("{:?}", self.0)'))
    return out


def num_types():
    """parse_string of the numeric validators (their integer/float entry points are Kani's)."""
    out = []
    for j, (k, ty) in enumerate([("signed_integer", t) for t in ("i8", "i16", "i32", "i64", "i128", "isize")] +
                                [("unsigned_integer", t) for t in ("u8", "u16", "u32", "u64", "u128", "usize")]):
        for r, (rs, rc) in enumerate([("Unlimited", [0, 0, 0, 0]), ("Inside(min = 3, max = 100)", [1, 1, 3, 100]), ("Outside(min = 3, max = 100)", [2, 1, 3, 100]),
                                      ("Inside(min = 5)", [1, 2, 5, 0]), ("Outside(max = 7)", [2, 3, 0, 7]),
                                      ("Inside(min = 3, max = 100, inclusive = false)", [3, 1, 3, 100])]):
            out.append(T(k, k, f"{k}(range({rs}))", f"(pub {ty});", [j] + rc, 'format!("{}", self.0)'))
    for j, ty in enumerate(("f32", "f64")):
        for n in range(3):
            for r, (rs, rc) in enumerate([("Unlimited", [0, 0, 0, 0]), ("Inside(min = 1, max = 10)", [1, 1, 1, 10]), ("Outside(min = 1, max = 10)", [2, 1, 1, 10]),
                                          ("Inside(max = 1)", [1, 3, 0, 1])]):
                conf = ", conflict(Allow)"
                out.append(T("number", "number", f"number(nan({tri(n)}), range({rs}){conf})", f"(pub {ty});", [j, n] + rc, 'format!("{:?}", self.0)'))
    for k, ty in (("bit", "Bit"), ("byte", "Byte")):
        for rs, rc in [("", [0, 0, 0]), ("min = 1", [1, 1, 0]), ("min = 8, max = 8000", [3, 8, 8000]), ("max = 5000", [2, 0, 5000])]:
            cs = [0, 1] if k == "byte" else [0]
            for ic in cs:
                ps = []
                if rs: ps.append(f"range({rs})" if k != "zzz" else "")
                if k == "byte": ps.append("ignore_case = " + ("true" if ic else "false"))
                attr = k + ("(" + ", ".join(ps) + ")" if ps else "")
                out.append(T(k, k, attr, f"(pub validators::byte_unit::{ty});", [ic] + rc, 'format!("{}", self.0.as_u64())'))
    return out


def all_types():
    ts = base_types() + text_types() + mac_types("mac_address", "u64", "to_mac_address_string") + \
        mac_types("uuid", "u128", "to_uuid_string") + ip_types() + host_types() + domain_types() + email_types() + \
        http_types() + misc_types() + num_types()
    n = {}
    for t in ts:
        n[t.fam] = n.get(t.fam, 0) + 1
        t.name = "".join(x.capitalize() for x in t.fam.split("_")) + str(n[t.fam] - 1)
    return ts


def fams():
    d = {}
    for t in all_types():
        d.setdefault(t.fam, []).append(t)
    return d


def decl(t):
    s = t.body
    return f"#[derive(Debug, Validator)]\n#[validator({t.attr})]\npub struct {t.name}{'' if s.startswith('(') else ' '}{s}\n"


def lib_source(ts):
    """The library crate whose MIR the deductive verifier reads and the differential engine links."""
    out = ["#![allow(unused, clippy::all)]\nuse validators::prelude::*;\n"]
    pres = list(dict.fromkeys(t.pre for t in ts if t.pre))
    out += [p + "\n" for p in pres]
    out += [decl(t) for t in ts]
    return "".join(out)
