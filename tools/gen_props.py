#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only to make editing easier)."""
import json, os
H = "validators-derive/src/validator_handlers/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})


STR = "any UTF-8 string, for every legal attribute combination"
ENUM = "The tests assert a handful of literal strings per configuration; the guarantee is over all strings and all attribute combinations."

p("C01", "Every entry point of a validator gives the same verdict and value",
  "For a given validated type and input, parsing from an owned string, parsing from a borrowed string and validating without building all accept or all reject, and the two parsers build equal values. The same holds between parsing and validating raw bytes, characters, collections, JSON values and numbers. A plain validated string is returned with exactly its input text.",
  ["inputs", "configurations"], "every string, byte sequence or value given to every entry point of every validator kind", ENUM,
  [H + "text/mod.rs", H + "line/mod.rs", H + "base64_decoded/mod.rs", H + "base32_decoded/mod.rs", H + "email/mod.rs", H + "mac_address/mod.rs", H + "uuid/mod.rs"],
  [("separate v_parse_str / v_parse_string / v_validate_str bodies generated per validator", H), ("parse_string / parse_str / validate_str trait implementations", H)])

p("C02", "No input makes a validator panic",
  "Validating or parsing any string, byte sequence, character or number with any legally configured validator returns success or an error. It never panics, indexes out of bounds, slices inside a UTF-8 character, or overflows an arithmetic operation.",
  ["inputs", "configurations"], "all inputs, all entry points, all attribute combinations, with overflow checks on", "Tests never feed hostile lengths and positions systematically; the panicking inputs are rare strings.",
  [H + "email/mod.rs", H + "mac_address/mod.rs", H + "uuid/mod.rs", H + "host/mod.rs", H + "domain/mod.rs", H + "text/mod.rs"],
  [("manual byte indexing and length arithmetic", H + "mac_address/mod.rs"), ("byte-offset slicing of the input around '@', ':' and comments", H + "email/mod.rs")])

p("C03", "Integer range validators enforce their range at every integer width",
  "A value entering a signed or unsigned integer validator through any integer width is accepted exactly when it fits the target type and satisfies the configured inside/outside range, where bounds are inclusive unless stated otherwise and a non-inclusive range excludes only its upper bound. Accepted values are preserved, and a rejected value reports whether it was too small, too large or forbidden. Every well-formed range configuration compiles.",
  ["inputs", "configurations"], "all values of i8..i128, isize, u8..u128, usize through each entry width; every shape of range attribute on every target type",
  "Tests try a few values per range and a few shapes; off-by-one, width-conversion and never-instantiated shapes survive.",
  [H + "signed_integer/mod.rs", H + "unsigned_integer/mod.rs", "validators-derive/src/common/range.rs", "validators/src/traits/validate_signed_integer.rs", "validators/src/traits/validate_unsigned_integer.rs"],
  [("handle_range token generation", H + "signed_integer/mod.rs"), ("range_equal shortcut", "validators-derive/src/common/range.rs"), ("default widening parse_iN/parse_uN methods", "validators/src/traits/validate_signed_integer.rs")])

p("C04", "Floating-point validators enforce their range and NaN policy",
  "A floating-point value is accepted exactly when it satisfies the configured inside/outside range (NaN satisfies every range) and the NaN policy (allowed, required or disallowed). A value given in the other float width is judged after conversion to the target width. Accepted values are preserved bit for bit and rejections name a violated constraint.",
  ["inputs", "configurations"], "all f32 and f64 bit patterns through both widths; every shape of range and NaN attribute", "Tests sample a few ordinary values; boundaries, NaN payloads, infinities and signed zero need all bit patterns.",
  [H + "number/mod.rs", "validators/src/traits/validate_number.rs", "validators-derive/src/common/range.rs"],
  [("handle_range / handle_nan token generation", H + "number/mod.rs")])

p("C05", "Text and line validators enforce control characters, emptiness and length",
  "A text value is accepted exactly when it contains no ASCII control character other than tab, line feed, vertical tab and carriage return (a line may contain no ASCII control character other than tab), its emptiness or all-whitespace content is as the configuration allows or requires, and its character count, trimmed character count or byte length lies within the configured bounds. Accepted text is returned unchanged.",
  ["inputs", "configurations"], STR, ENUM,
  [H + "text/mod.rs", H + "line/mod.rs"],
  [("single-pass scan over characters with trim counters", H + "text/mod.rs")])

p("C06", "Base-N text validators accept exactly well-formed encodings",
  "A base32, base64 or URL-safe base64 value is accepted exactly when it is not empty, every character is in the selected alphabet, padding appears only at the end, is of the configured kind (required, optional or forbidden) and count, and the number of data characters is one that some byte string encodes to. Accepted text is returned unchanged.",
  ["inputs", "configurations"], STR, ENUM,
  [H + "base32/mod.rs", H + "base64/mod.rs", H + "base64_url/mod.rs"],
  [("length remainder, alphabet scan and '=' tail scan", H + "base64/mod.rs")])

p("C07", "Decoding base-N validators return the bytes their text encodes",
  "A decoding base32/base64/URL-safe base64 validator accepts exactly canonical encodings under the configured padding rule and yields the byte string that was encoded. Encoding any non-empty byte string with the matching alphabet and padding and parsing it gives that byte string back.",
  ["inputs", "configurations"], "every byte string and every candidate encoding, for each padding configuration", ENUM,
  [H + "base32_decoded/mod.rs", H + "base64_decoded/mod.rs", H + "base64_url_decoded/mod.rs"],
  [("choice of the decoding table per padding configuration and input", H + "base64_decoded/mod.rs")])

p("C08", "MAC address and UUID parsers accept exactly the configured spellings",
  "A MAC address is accepted exactly when it is six two-digit hexadecimal groups, and a UUID exactly when it is hexadecimal groups of 8, 4, 4, 4 and 12 digits, written with the configured letter case and with the configured separator (at every group boundary when required, at any of the group boundaries when optional, nowhere when disallowed). The parsed number is the big-endian value of the hexadecimal digits.",
  ["inputs", "configurations"], "any byte string, for each case and separator configuration", ENUM,
  [H + "mac_address/mod.rs", H + "uuid/mod.rs"],
  [("positional byte checks and hex accumulation", H + "mac_address/mod.rs")])

p("C09", "MAC address and UUID formatting is inverse to parsing",
  "Formatting a MAC address or UUID value, with or without separators, gives text in the configured letter case, with the configured separator at every group boundary unless separators are disallowed. The same validator accepts that text and parsing it yields the original value. Every value formats to a string of the fixed length of its spelling, with leading zeros kept.",
  ["inputs", "configurations"], "all 2^48 MAC values and all 2^128 UUID values, each case and separator configuration", "A test formats one value; the inverse law ranges over all values and separators.",
  [H + "mac_address/mod.rs", H + "uuid/mod.rs"],
  [("to_mac_address_string / to_uuid_string and their separator variants", H + "mac_address/mod.rs")])

p("C10", "The boolean validator accepts exactly its documented spellings",
  "A string is true exactly for y, yes, t, true, on or 1 and false exactly for n, no, f, false, off or 0, letters in either case; everything else is rejected. Characters are judged by the one-letter and one-digit spellings, integers of every width by 1 and 0, and a boolean is itself.",
  ["inputs"], "all strings, characters, integers of every width and booleans", "Tests list the accepted spellings and a few rejects; near misses of any length are unbounded.",
  [H + "boolean/mod.rs"], [("hand-written byte trie", H + "boolean/mod.rs")])

p("C11", "Locality classification of IP addresses matches the address blocks",
  "An IPv4 address is local exactly when it is private, loopback, link-local, broadcast, documentation or unspecified. An IPv6 address is local exactly when it is a multicast address of non-global scope, or unspecified, loopback, link-local, site-local, unique-local, documentation, or an IPv4-mapped or IPv4-compatible form of a local IPv4 address. A generic IP address is local exactly when its concrete form is.",
  ["inputs"], "all 2^32 IPv4 and 2^128 IPv6 addresses", "Tests check a few addresses of some blocks; boundaries of each prefix need the full space.",
  ["validators/src/functions/ipv4.rs", "validators/src/functions/ipv6.rs", "validators/src/functions/ip.rs"],
  [("is_local_ipv4 / is_local_ipv6 / is_local_ip", "validators/src/functions")])

p("C12", "IP validators enforce port and locality policies and keep the address",
  "An IP, IPv4 or IPv6 value is accepted exactly when its text is an address of that kind (IPv6 optionally bracketed, and bracketed when a port follows), a port is present or absent as configured and is a decimal number up to 65535 (a leading plus sign is tolerated), and its locality satisfies the configured policy. The value holds that address, locality and port.",
  ["inputs", "configurations"], STR, ENUM,
  [H + "ip/mod.rs", H + "ipv4/mod.rs", H + "ipv6/mod.rs", "validators/src/functions/ipv4.rs"],
  [("split at the last ':' / ']' and address parsing", H + "ip/mod.rs"), ("local and port policy checks", H + "ipv4/mod.rs")])

p("C13", "Host validators enforce port, locality and domain-label policies",
  "A host value is accepted exactly when it is an IPv4 address, an IPv6 address (bracketed, or bare when no port can be confused with it) or a valid domain name without a root dot that is not an IPv4 address in disguise, and its port, locality and minimum-two-label content are as configured. The value holds the host, its locality and the port. The label policy is judged on names that are not local, and a policy that disallows two labels leaves out IP addresses too.",
  ["inputs", "configurations"], STR, ENUM,
  [H + "host/mod.rs", "validators/src/functions/domain.rs"],
  [("host form dispatch and policy checks", H + "host/mod.rs")])

p("C14", "Domain validators enforce form and policy and keep the canonical name",
  "A domain value is accepted exactly when it is a valid internationalised domain name or, where configured, an IPv4 address, and its port, locality and minimum-two-label content are as configured. The stored domain is the ASCII form without the port, and the port, locality and whether it is an IPv4 address are stored beside it. The label policy is judged on names that are not local. Text that only turns into an IPv4 address by the Unicode mapping is rejected.",
  ["inputs", "configurations"], STR, ENUM,
  [H + "domain/mod.rs", "validators/src/functions/domain.rs"],
  [("port split, IPv4 test and to-ASCII conversion", H + "domain/mod.rs")])

p("C15", "Email validators accept exactly the configured address grammar",
  "An email address is accepted exactly when it has a non-empty local part (dot-atoms or a quoted string, ASCII unless configured otherwise), then '@', then a host satisfying the configured IP, locality and label policies, with comments only around those two parts and only if configured, and nothing after. At most 64 bytes precede the '@' and at most 255 follow it, also after the host is put in ASCII form. The parsed parts are those pieces of the input, and a local part is marked as needing quotes exactly when it is not a plain dot-atom.",
  ["inputs", "configurations"], STR, ENUM,
  [H + "email/mod.rs"], [("hand-written state machine over characters", H + "email/mod.rs")])

p("C16", "Formatting a parsed host, domain, IP or email re-parses to the same value",
  "Turning an accepted domain, host, IP or email value back into text gives text that the same validator accepts with the same parsed value (the text form of a domain leaves the root dot out). An email whose local part needed quoting is quoted again, IPv6 hosts are bracketed, and ports are kept.",
  ["inputs", "configurations"], "all accepted inputs of every configuration", "Tests print a few parsed values; the inverse law ranges over all accepted inputs.",
  [H + "domain/mod.rs", H + "host/mod.rs", H + "ip/mod.rs", H + "ipv4/mod.rs", H + "ipv6/mod.rs", H + "email/mod.rs", "validators/src/models/host.rs"],
  [("to_uri_authority_string / to_email_string", H)])

p("C17", "HTTP and FTP URL validators enforce scheme, host and locality policies",
  "A text is accepted exactly when it starts with a scheme the validator is for (http, https, and ftp for the FTP variant, in either letter case, followed by a colon), parses as an absolute URL, and its host locality is as configured. The value holds the parsed URL and whether it is HTTPS or which protocol it is.",
  ["inputs", "configurations"], STR, ENUM,
  [H + "http_url/mod.rs", H + "http_ftp_url/mod.rs"], [("scheme match and host classification", H + "http_url/mod.rs")])

p("C18", "Collection length validators enforce their bounds",
  "A collection is accepted exactly when its number of elements lies within the configured minimum and maximum, both inclusive, and is returned unchanged; a rejection says whether it was too small or too large. Every well-formed bound configuration compiles.",
  ["inputs", "configurations"], "all collection sizes and every bound shape", "Tests use a few small vectors and a few bound shapes.",
  [H + "length/mod.rs", "validators/src/traits/collection_length.rs"], [("handle_range in the length handler", H + "length/mod.rs")])

p("C19", "Bit and byte size validators enforce their range",
  "A bit or byte size given as an integer of any width is accepted exactly when it is representable and lies within the configured range, bounds inclusive unless stated otherwise. Accepted sizes are preserved and rejections say whether the size was too small or too large.",
  ["inputs", "configurations"], "all unsigned integers of every width and every range shape", "Tests use a few sizes and one or two ranges.",
  [H + "bit/mod.rs", H + "byte/mod.rs", "validators-derive/src/common/range.rs"], [("handle_range in the bit and byte handlers", H + "bit/mod.rs")])

p("C20", "Serde deserialization enforces the same validation as parsing",
  "Deserializing a validated type from a string, number, boolean, character or collection of the kind its validator takes succeeds exactly when the corresponding parser accepts it, and yields the value that parser builds. Serializing a value and deserializing the result gives the same value, for every validator whose serialized form is the kind of input it takes.",
  ["inputs", "configurations"], "all serialized primitive inputs, for every validator kind", "Tests deserialize one or two JSON strings per validator.",
  [H, "validators/src/result/serde_traits.rs"], [("generated Deserialize visitors", H), ("Deserialize for the result wrapper", "validators/src/result/serde_traits.rs")])

p("C21", "Byte entry points never accept invalid UTF-8 as text",
  "A validator that takes raw bytes accepts them exactly when they are the UTF-8 encoding of a string its string parser accepts, and builds the same value. Bytes that are not valid UTF-8 are always rejected, so no accepted value holds an invalid string.",
  ["inputs", "configurations"], "all byte sequences", "Tests pass only valid ASCII bytes.",
  [H + "base32/mod.rs", H + "base64/mod.rs", H + "base64_url/mod.rs", H + "json/mod.rs"], [("from_utf8 / from_utf8_unchecked conversion of accepted bytes", H + "base64/mod.rs")])

p("C22", "Validators that delegate to a parser accept exactly what it accepts",
  "Validators for JSON, URLs, semantic versions and requirements, regular expressions and phone numbers accept exactly the inputs the underlying parser accepts (and, for a fixed pattern or country, that match it), and hold the value that parser produced.",
  ["inputs", "configurations"], "all strings", ENUM,
  [H + "json/mod.rs", H + "url/mod.rs", H + "semver/mod.rs", H + "semver_req/mod.rs", H + "regex/mod.rs", H + "phone/mod.rs"], [("delegation to the parser crate", H + "url/mod.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
