"""Contracts assumed for the crates the generated code delegates to, and for the parsers and formatters of std.

A contract makes the call an uninterpreted function of its argument (deterministic), plus the facts listed here."""
import re, z3
from val import *
import vc as VC
import exec as X
from exec import none, some, opt, ok, err, res, path_last
from stdc import Std, rule, _m, bounds_of

SAME = z3.Function("SAME", Str, Str, I, I, B)      # the whole of the first text equals [lo, hi) of the second
TSORT = {"Ipv4Addr": I, "Ipv6Addr": I, "u16": I}
DIGITS = VC.mask_chars("0123456789")
V4MASK = VC.mask_chars("0123456789.")
V6MASK = VC.mask_chars("0123456789abcdefABCDEF:.")


def setup(th):
    """Facts about the parsers of std, instantiated where they occur."""
    def f(name, *so):
        d = z3.Function(name, *so)
        return d
    F = {}
    for t, mask, lo_, hi_ in (("Ipv4Addr", V4MASK, 7, 15), ("Ipv6Addr", V6MASK, 2, 45), ("u16", DIGITS | 1 << 43, 1, None)):
        okf, val = f(f"OK_{t}", Str, I, I, B), f(f"VAL_{t}", Str, I, I, I)
        F[t] = (okf, val)
        th.inrange[f"OK_{t}"] = mask
        def facts(s, lo, hi, okf=okf, lo_=lo_, hi_=hi_, t=t):
            r = [hi - lo >= lo_] + ([hi - lo <= hi_] if hi_ else [])
            if t == "Ipv6Addr":       # an IPv6 text has at least two colons, so a last and a first one
                m = 1 << 58
                r += [th.last(m, s, hi) > lo, th.first(m, s, lo) < th.last(m, s, hi)]
            if t == "Ipv4Addr":
                m = 1 << 46
                r += [th.last(m, s, hi) > lo, th.first(m, s, lo) < th.last(m, s, hi), z3.Or([AT(s, lo) == c for c in range(48, 58)]), z3.Or([AT(s, hi - 1) == c for c in range(48, 58)])]
            if t == "u16": r += [z3.And(AT(s, hi - 1) >= 48, AT(s, hi - 1) <= 57)]
            return [z3.Implies(okf(s, lo, hi), z3.And(r)), z3.Implies(okf(s, lo, hi), z3.And(0 <= lo, hi <= LEN(s)))]
        th.uf[f"OK_{t}"] = facts
    th.uf["VAL_u16"] = lambda s, lo, hi: [F["u16"][1](s, lo, hi) >= 0, F["u16"][1](s, lo, hi) <= 65535]
    th.F = F
    th.LOC4, th.LOC6 = z3.Function("LOC4", I, B), z3.Function("LOC6", I, B)
    return F


def parsed(self, t, v):
    okf, val = self.th.F[t]
    c = okf(v.s, zi(v.lo), zi(v.hi))
    x = val(v.s, zi(v.lo), zi(v.hi))
    return c, (x if t == "u16" else Opq(t, x))


@_m
@rule(r"^<(Ipv4Addr|Ipv6Addr|u16) as (?:std::str::)?FromStr>::from_str$", r"core::str::<impl str>::parse::<(?:std::net::)?(Ipv4Addr|Ipv6Addr|u16)>$")
def from_str(self, ex, st, fr, args, m):
    t = m.group(1)
    c, x = parsed(self, t, self.view(ex, st, args[0]))
    return res(c, x, Opq("ParseError", z3.IntVal(0)))


@_m
@rule(r"(?:^|::)is_local_ipv(4|6)$", r"^(?:std::net::)?Ipv(4|6)Addr::(is_\w+)$")
def is_local(self, ex, st, fr, args, m):
    a = self.deref(ex, st, args[0])
    if "Addr::" in m.string: return self.ufn(f"V{m.group(1)}_{m.group(2)}", I, B)(a.term)
    return (self.th.LOC4 if m.group(1) == "4" else self.th.LOC6)(a.term)


# ---- idna --------------------------------------------------------------------------------------------------
@_m
@rule(r"^<(?:idna::)?Config as Default>::default$")
def idna_cfg(self, ex, st, fr, args, m):
    return FnVal("idna:", [])


@_m
@rule(r"^(?:idna::)?Config::(use_std3_ascii_rules|verify_dns_length|check_hyphens|transitional_processing|use_idna_2008_rules)$")
def idna_set(self, ex, st, fr, args, m):
    c = self.deref(ex, st, args[0])
    if not isinstance(args[1], bool): raise Unsupported("idna option")
    o = dict(x.split("=") for x in c.path[5:].split(",") if x)
    o[m.group(1)] = str(args[1])
    if o.get("transitional_processing") == "False": del o["transitional_processing"]
    for k in ("use_std3_ascii_rules", "verify_dns_length", "check_hyphens", "use_idna_2008_rules"):
        if o.get(k) == "False": del o[k]
    return FnVal("idna:" + ",".join(f"{k}={o[k]}" for k in sorted(o)), [])


@_m
@rule(r"^(?:idna::)?Config::to_ascii$")
def idna_ascii(self, ex, st, fr, args, m):
    c = self.deref(ex, st, args[0])
    v = self.view(ex, st, args[1])
    okf, out = idna_fns(self, c.path)
    t = out(v.s, zi(v.lo), zi(v.hi))
    return res(okf(v.s, zi(v.lo), zi(v.hi)), Owned(View(t, 0, LEN(t), "str")), Opq("IdnaErrors", z3.IntVal(0)))


IDNA_STD = "idna:check_hyphens=True,use_std3_ascii_rules=True,verify_dns_length=True"


def idna_fns(self, path):
    """verify_dns_length: the output is not empty and at most 254 bytes; its bytes are letters, digits, hyphens and dots.
    A text that ends with a dot maps to one that does."""
    th = self.th
    k = len(self.U)
    if ("idna", path) not in self.U:
        n = "" if path == IDNA_STD else "!" + path[5:]
        okf, out = z3.Function("IDNA_OK" + n, Str, I, I, B), z3.Function("IDNA" + n, Str, I, I, Str)
        self.U[("idna", path)] = (okf, out)
        def facts(s, lo, hi):
            t = out(s, lo, hi)
            r = [z3.And(LEN(t) > 0, LEN(t) <= 254)] if "verify_dns_length=True" in path else []
            if r: r += [lo < hi, z3.Implies(AT(s, hi - 1) == 46, AT(t, LEN(t) - 1) == 46)]
            f = [z3.Implies(okf(s, lo, hi), z3.And(0 <= lo, lo <= hi, hi <= LEN(s), *r))]
            if path == IDNA_STD:    # the text of an IPv4 address, with or without a root dot, maps to itself
                e = zi(ite(and_(lt(lo, hi), eq(AT(s, zi(sub(hi, 1))), 46)), sub(hi, 1), hi))
                f.append(z3.Implies(th.F["Ipv4Addr"][0](s, lo, e), z3.And(okf(s, lo, hi), SAME(t, s, lo, hi), LEN(t) == hi - lo)))
            return f
        th.uf["IDNA_OK" + n] = facts
        if "use_std3_ascii_rules=True" in path:
            th.outset["IDNA" + n] = (okf, VC.mask_chars("abcdefghijklmnopqrstuvwxyz0123456789-."))
    return self.U[("idna", path)]


# ---- data-encoding -------------------------------------------------------------------------------------------
B32 = VC.mask_chars("ABCDEFGHIJKLMNOPQRSTUVWXYZ234567")
B64 = VC.mask_chars("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
B64U = VC.mask_chars("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_")
ENC = {"BASE32": (B32, 8, 5, True), "BASE32_NOPAD": (B32, 8, 5, False), "BASE64": (B64, 4, 6, True), "BASE64_NOPAD": (B64, 4, 6, False),
       "BASE64URL": (B64U, 4, 6, True), "BASE64URL_NOPAD": (B64U, 4, 6, False)}


def wellformed(th, v, alpha, block, bits, pad):
    """Well-formed base-N text (maybe empty): pad True / False / None (optional). Returns (formula, end of the data)."""
    eqm = 1 << 61
    f = th.first(eqm, v.s, v.lo)
    d = ite(le(f, v.hi), f, v.hi)
    n = sub(d, v.lo)
    rems = {-(-8 * k // bits) for k in range(block + 1)}
    rems = {r for r in rems if r < block}
    r = mod(n, block)
    al = le(d, th.first(VC.FULL ^ alpha, v.s, v.lo))
    padlen = sub(v.hi, d)
    full = ite(eq(r, 0), 0, sub(block, r))
    okr = or_(*[eq(r, k) for k in sorted(rems)])
    allpad = le(v.hi, th.first(VC.FULL ^ eqm, v.s, d))
    p = {True: eq(padlen, full), False: eq(padlen, 0), None: or_(eq(padlen, 0), eq(padlen, full))}[pad]
    return and_(al, allpad, okr, p), d


@_m
@rule(r"^(?:data_encoding::)?Encoding::decode$")
def enc_decode(self, ex, st, fr, args, m):
    e = self.deref(ex, st, args[0])
    if not (isinstance(e, FnVal) and e.path.split("::")[-1] in ENC): raise Unsupported(f"encoding {e}")
    v = self.view(ex, st, args[1])
    alpha, block, bits, pad = ENC[e.path.split("::")[-1]]
    wf, d = wellformed(self.th, v, alpha, block, bits, pad)
    c, t = canon(self, alpha, v, d)
    return res(and_(wf, c), Owned(View(t, 0, LEN(t), "[u8]")), Opq("DecodeError", z3.IntVal(0)))


def canon(self, alpha, v, d):
    n = {B32: "32", B64: "64", B64U: "64U"}[alpha]
    c = self.ufn("CANON_" + n, Str, I, I, B)(v.s, zi(v.lo), zi(d))
    t = self.ufn("DECODED_" + n, Str, I, I, Str)(v.s, zi(v.lo), zi(d))
    return c, t


def short_type(t): return re.sub(r"(?:::)?\b\w+::", "", t).replace(" ", "")


def url_facts(self):
    """A text that starts with a special scheme and a colon: the parsed URL has a host."""
    okf, val = self.ufn("OK_Url", Str, I, I, B), self.ufn("VAL_Url", Str, I, I, I)
    hk = self.ufn("URL_HOSTKIND", I, I)
    def starts(s, lo, hi, w):
        return z3.And(lo + len(w) <= hi, *[zb(or_(eq(AT(s, simp(lo + i)), c), eq(AT(s, simp(lo + i)), c - 32)) if 97 <= c <= 122 else eq(AT(s, simp(lo + i)), c)) for i, c in enumerate(w.encode())])
    self.th.uf["URL_HOSTKIND"] = lambda x: [hk(x) >= 0, hk(x) <= 3]
    self.th.uf["OK_Url"] = lambda s, lo, hi: [z3.Implies(z3.And(okf(s, lo, hi), z3.Or([starts(s, lo, hi, w) for w in ("http:", "https:", "ftp:")])), hk(val(s, lo, hi)) > 0)]


# ---- delegating -----------------------------------------------------------------------------------------------
@_m
@rule(r"^(?:validators::)?(?:serde_json::)?from_(str|slice)::<(?:'_, )?(.*)>$", r"^(?:url::|validators::)?(Url)::(parse)$", r"^(?:semver::)?(Version|VersionReq)::(parse)$",
      r"^<(Url|Version|VersionReq) as FromStr>::(from_str)$", r"core::str::<impl str>::parse::<(Url|Version|VersionReq)()>$")
def delegate(self, ex, st, fr, args, m):
    v = self.view(ex, st, args[0])
    n = m.group(1) if m.group(1) not in ("str", "slice") else "json<" + short_type(m.group(2)) + ">"
    return delegated(self, n, v)


def delegated(self, n, v):
    if n == "Url": url_facts(self)
    c = self.ufn("OK_" + n, Str, I, I, B)(v.s, zi(v.lo), zi(v.hi))
    x = self.ufn("VAL_" + n, Str, I, I, I)(v.s, zi(v.lo), zi(v.hi))
    return res(c, Opq(n, x), Opq("ForeignError", z3.IntVal(0)))


@_m
@rule(r"^(?:validators::)?(?:serde_json::)?(to_value|from_value)::<(.*)>$")
def json_value(self, ex, st, fr, args, m):
    v = self.deref(ex, st, args[0])
    ty = re.sub(r"\w+::", "", m.group(2))
    t = v.term if isinstance(v, Opq) else v
    if isinstance(t, View) or isinstance(t, V): raise Unsupported("to_value of a text")
    t = zb(t) if isinstance(t, bool) or (isz(t) and z3.is_bool(t)) else zi(t)
    n = f"{m.group(1)}<{ty}>"
    return res(self.ufn("OK_" + n, t.sort(), B)(t), Opq("Value" if m.group(1) == "to_value" else ty, self.ufn("VAL_" + n, t.sort(), I)(t)), Opq("ForeignError", z3.IntVal(0)))


@_m
@rule(r"Regex::new$")
def regex_new(self, ex, st, fr, args, m):
    v = self.view(ex, st, args[0])
    c = None
    for b, t in self.th.consts.items():
        if t.eq(v.s) and isinstance(v.lo, int) and isinstance(v.hi, int): c = b[v.lo:v.hi]
    if c is None: raise Unsupported("regex of a computed pattern")
    # the macro compiled the pattern already
    return ok(FnVal("regex:" + c.decode("utf8", "replace"), []))


@_m
@rule(r"Regex::is_match$")
def regex_match(self, ex, st, fr, args, m):
    r = self.deref(ex, st, args[0])
    v = self.view(ex, st, args[1])
    if not isinstance(r, FnVal): raise Unsupported("regex")
    return self.ufn("MATCH:" + r.path, Str, I, I, B)(v.s, zi(v.lo), zi(v.hi))


URL_HOST = ["Domain", "Ipv4", "Ipv6"]


@_m
@rule(r"^(?:url::)?Url::(host|scheme|host_str|domain|port|port_or_known_default|path|query|fragment|username|password|as_str|cannot_be_a_base|has_host|has_authority)$")
def url_get(self, ex, st, fr, args, m):
    u = self.deref(ex, st, args[0])
    k = m.group(1)
    U = self.ufn
    if k == "scheme":
        t = U("URL_SCHEME", I, Str)(u.term)
        return View(t, 0, LEN(t), "str")
    if k == "host":
        hk = U("URL_HOSTKIND", I, I)(u.term)
        d = U("URL_DOMAIN", I, Str)(u.term)
        self.th.uf["URL_HOSTKIND"] = lambda x: [U("URL_HOSTKIND", I, I)(x) >= 0, U("URL_HOSTKIND", I, I)(x) <= 3]
        h = Enum("UHost", simp(hk - 1), {"Domain": (View(d, 0, LEN(d), "str"),), "Ipv4": (Opq("Ipv4Addr", U("URL_V4", I, I)(u.term)),), "Ipv6": (Opq("Ipv6Addr", U("URL_V6", I, I)(u.term)),)})
        return Enum("Option", ite(eq(hk, 0), 0, 1), {"Some": (h,)})
    # the remaining parts of a URL: nothing is known about them beyond their being functions of the URL
    if k in ("port", "port_or_known_default"):
        p = U("URL_" + k.upper(), I, I)(u.term)
        self.th.uf["URL_" + k.upper()] = lambda x: [U("URL_" + k.upper(), I, I)(x) >= 0, U("URL_" + k.upper(), I, I)(x) <= 65535]
        return opt(U("URL_HAS_" + k.upper(), I, B)(u.term), p)
    if k in ("cannot_be_a_base", "has_authority"): return U("URL_" + k.upper(), I, B)(u.term)
    if k == "has_host": return lt(0, U("URL_HOSTKIND", I, I)(u.term))
    t = U("URL_" + k.upper(), I, Str)(u.term)
    v = View(t, 0, LEN(t), "str")
    if k in ("path", "username", "as_str"): return v
    return opt(U("URL_HAS_" + k.upper(), I, B)(u.term), v)


@_m
@rule(r"StartsWithIgnoreAsciiCaseMultiple>::starts_with_ignore_ascii_case_with_lowercase_multiple")
def starts_multi(self, ex, st, fr, args, m):
    """str-utils: the first pattern the text starts with in any ASCII case, if any."""
    v = self.view(ex, st, args[0])
    ps = self.deref(ex, st, args[1])
    if not isinstance(ps, Agg): raise Unsupported("patterns")
    out = None
    r, c = 0, False
    for i in range(len(ps.fields) - 1, -1, -1):
        p = self.view(ex, st, ps.fields[i])
        b = self.bytes_of(p)
        h = and_(le(len(b), v.len()), *[or_(eq(v.at(j), ch), eq(v.at(j), ch - 32)) if 97 <= ch <= 122 else eq(v.at(j), ch) for j, ch in enumerate(b)])
        r = ite(h, i, r)
        c = or_(c, h)
    return opt(c, r)


def bytes_of(self, v):
    for b, t in self.th.consts.items():
        if t.eq(v.s) and isinstance(v.lo, int) and isinstance(v.hi, int): return b[v.lo:v.hi]
    raise Unsupported("constant text expected")


Std.bytes_of = bytes_of


# ---- phone numbers ----------------------------------------------------------------------------------------------
def country_id(n): return ord(n[0]) * 256 + ord(n[1])


def phone_fns(self, c):
    n = "phone" + (f"<{c}>" if c else "")
    return self.ufn("OK_" + n, Str, I, I, B), self.ufn("VAL_" + n, Str, I, I, I)


def phone_valid(self): return self.ufn("PHONE_VALID", I, B)
def phone_country(self): return self.ufn("PHONE_COUNTRY", I, I)      # 0: none


def the_id(self, ex, st, v):
    v = self.deref(ex, st, v)
    if isinstance(v, Agg) and not v.fields and re.fullmatch(r"(?:.*::)?([A-Z]{2})", v.tag): return country_id(v.tag[-2:])
    if isinstance(v, FnVal) and re.fullmatch(r"(?:.*::)?([A-Z]{2})", v.path): return country_id(v.path[-2:])
    if isinstance(v, Enum) and v.name == "Id": return v.discr
    if isinstance(v, Opq) and v.ty == "CountryId": return v.term
    raise Unsupported(f"country {v}")


@_m
@rule(r"^(?:validators::)?(?:phonenumber::)?parse::<&(?:mut )?str>$", r"^(?:phonenumber::)?(?:parser::)?parse::<.*>$")
def phone_parse(self, ex, st, fr, args, m):
    o = self.deref(ex, st, args[0])
    v = self.view(ex, st, args[1])
    if not isinstance(o, Enum) or not isinstance(o.discr, int): raise Unsupported("country")
    c = None
    if o.discr == 1:
        x = the_id(self, ex, st, o.pay["Some"][0])
        if not isinstance(x, int): raise Unsupported("country")
        c = chr(x >> 8) + chr(x & 255)
    okf, val = phone_fns(self, c)
    a = (v.s, zi(v.lo), zi(v.hi))
    return res(okf(*a), Opq("PhoneNumber", val(*a)), Opq("ForeignError", z3.IntVal(0)))


@_m
@rule(r"PhoneNumber::(is_valid|country|code|national)$", r"Country::<.*>::(id|code)$")
def phone_get(self, ex, st, fr, args, m):
    p = self.deref(ex, st, args[0])
    k = m.group(1) or m.group(2)
    if k == "is_valid": return phone_valid(self)(p.term)
    if k == "country": return Opq("PhoneCountry", p.term)
    if k == "code" and m.group(2):      # the calling code, some 16-bit number
        self.th.uf["PHONE_CODE"] = lambda t: [self.ufn("PHONE_CODE", I, I)(t) >= 0, self.ufn("PHONE_CODE", I, I)(t) <= 65535]
        return self.ufn("PHONE_CODE", I, I)(p.term)
    if k in ("code", "national"): raise Unsupported(k)
    x = phone_country(self)(p.term)
    self.th.uf["PHONE_COUNTRY"] = lambda t: [phone_country(self)(t) >= 0]
    return opt(not_(eq(x, 0)), Opq("CountryId", x))


@_m
@rule(r"^<(?:\w+::)*Id as PartialEq>::(eq|ne)$")
def country_eq(self, ex, st, fr, args, m):
    r = eq(the_id(self, ex, st, args[0]), the_id(self, ex, st, args[1]))
    return r if m.group(1) == "eq" else not_(r)


@_m
@rule(r"^(?:std::collections::)?HashMap::<.*>::(with_capacity|new|insert|is_empty|len)$")
def hashmap(self, ex, st, fr, args, m):
    k = m.group(1)
    if k in ("with_capacity", "new"): return MapV({})
    mp = self.deref(ex, st, args[0])
    if k == "is_empty": return not_(or_(*[c for c, _ in mp.at.values()]))
    if k != "insert": raise Unsupported(k)
    key = the_id(self, ex, st, args[1])
    if not isinstance(key, int): raise Unsupported("map key")
    old = mp.at.get(key)
    d = dict(mp.at); d[key] = (True, args[2])
    r = args[0]
    if not isinstance(r, Ref): raise Unsupported("map")
    st = st.copy()
    ex.put(st, ("cell", r.key, r.path), MapV(d))
    return [(st, opt(old[0], old[1]) if old else none())]


# ---- serde ------------------------------------------------------------------------------------------------------
DeS = z3.Const("S", Str)


@_m
@rule(r"^<E as .*(?:de::)?Error>::(custom|invalid_value|invalid_type)(?:::<.*>)?$", r"^<D as .*(?:de::)?Error>::(custom)", r"^<<D as .*Deserializer<.*>>::Error as .*Error>::(custom)")
def de_error(self, ex, st, fr, args, m):
    return Opq("DeError", z3.IntVal(0))


@_m
@rule(r"^<D as (?:\w+::)*Deserializer<.*>>::deserialize_(\w+)::<<(?:\w+::)*(\w+) as .*Deserialize<.*>>::deserialize::(\w+)>$")
def deserialize_hint(self, ex, st, fr, args, m):
    """A deserializer that holds a string hands it to the visitor, whatever the hint says, as long as the hint is for text or open."""
    if not (isinstance(args[0], Opq) and args[0].ty == "TextDeserializer"): raise Unsupported("deserializer")
    if m.group(1) not in ("str", "string", "any", "identifier"): raise Unsupported("deserializer hint " + m.group(1))
    k = ex.visit.get((m.group(2), "visit_str"))
    if k is None: return err(Opq("DeError", z3.IntVal(0)))
    return ex.summary(ex.fns[k], [args[1], View(DeS, 0, LEN(DeS), "str")], st)


@_m
@rule(r"^<(.*) as (?:\w+::)*Deserialize<.*>>::deserialize::<D>$")
def deserialize_foreign(self, ex, st, fr, args, m):
    if not (isinstance(args[0], Opq) and args[0].ty == "TextDeserializer"): raise Unsupported("deserializer")
    t = short_type(m.group(1))
    v = View(DeS, 0, LEN(DeS), "str")
    if t == "String": return ok(Owned(v))
    if t not in ("Url", "Version", "VersionReq"): raise Unsupported("Deserialize of " + t)
    return delegated(self, t, v)


@_m
@rule(r"^<S as (?:\w+::)*Serializer>::serialize_str$")
def serialize_str(self, ex, st, fr, args, m):
    """The serialised form is the text given."""
    return ok(Owned(self.view(ex, st, args[1])))
