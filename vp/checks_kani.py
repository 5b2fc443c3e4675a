"""Checks decided by Kani contracts-as-harnesses over complete finite domains."""
from common import *
import kani, kani_gen, kani_gen_int, kani_gen_serde

TRUST = ["rustc's lowering and Kani 0.68.0 / CBMC 6 with its SAT back end",
         "Kani's model of the allocator (no harness depends on allocation failure)"]
ASSUME = ["the attribute space is covered by the generated configurations (all bound shapes, representative bound values), "
          "not by a proof about the derive macro for every literal",
          "64-bit target (usize = u64)"]


def _kani(rep, name, feats, lib, harn, what, base_rs, timeout=780, deps=""):
    rep.trusted += TRUST
    rep.assumptions += ASSUME
    x = kani.run_kani(rep, name, feats, lib, harn, what, timeout=timeout, deps=deps)
    if x["compile_error"]:
        if base_rs is None or not kani.compile_failure(rep, name, feats, lib, base_rs, ""):
            rep.undecided.append("Kani produced no verdicts: " + x["err"][-800:])
    return x


BASE = """#![allow(unused)]
use validators::prelude::*;
"""


def c03(rep):
    quick = TIER == "quick"
    lib, harn = kani_gen_int.gen(quick=quick)
    base = BASE + "#[derive(Validator)]\n#[validator(signed_integer)]\npub struct A(pub i32);\n#[derive(Validator)]\n#[validator(unsigned_integer)]\npub struct B(pub u32);\n"
    _kani(rep, "kani-int", ["derive", "signed_integer", "unsigned_integer"], lib, harn,
          lambda h: f"integer configuration {h}: parse_*/validate_* of every width meet the range contract", base)


def c04(rep):
    lib, harn = kani_gen.float_crate(TIER == "quick")
    base = BASE + "#[derive(Validator)]\n#[validator(number)]\npub struct A(pub f64);\n"
    _kani(rep, "kani-num", ["derive", "number", "std"], lib, harn,
          lambda h: f"number configuration {h}: parse_f64/parse_f32/validate_* meet the range+NaN contract", base)


def c10_kani(rep):
    lib, harn = kani_gen.bool_crate()
    _kani(rep, "kani-bool", ["derive", "boolean"], lib, harn,
          lambda h: f"{h}: accepts exactly the boolean spellings of its domain", BASE)


def c11(rep):
    _kani(rep, "kani-local", ["derive", "ip", "std"], kani_gen.LOCAL, kani_gen.LOCAL_H,
          lambda h: f"is_{h}: equals the address-block definition for every address", BASE)


def c18(rep):
    lib, harn = kani_gen.length_crate()
    base = BASE + "#[derive(Validator)]\n#[validator(length(min = 1))]\npub struct A(pub Vec<u8>);\n"
    _kani(rep, "kani-len", ["derive", "length", "std"], lib, harn,
          lambda h: f"length configuration {h}: parse_collection/validate_collection meet the length contract", base)


def c19(rep):
    lib, harn = kani_gen.unit_crate()
    base = BASE + "use validators::byte_unit::*;#[derive(Validator)]\n#[validator(bit)]\npub struct A(pub Bit);\n"
    _kani(rep, "kani-unit", ["derive", "bit", "byte", "std"], lib, harn,
          lambda h: f"size configuration {h}: parse_u*/validate_u* meet the range contract", base)


def c20_kani(rep):
    lib, harn = kani_gen_serde.crate(TIER == "quick")
    _kani(rep, "kani-serde", ["derive", "serde", "signed_integer", "unsigned_integer", "number", "boolean", "bit", "byte", "length", "std"], lib, harn,
          lambda h: f"{h}: Deserialize accepts exactly what parsing accepts with the same value, and the serialised form deserialises back",
          None, deps='serde = "1"\n')
