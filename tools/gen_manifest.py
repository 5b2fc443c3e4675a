#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KANI = "Kani (CBMC) contract harnesses over the complete input domain, on the real derive output compiled from /repo"
CHECKS = {
    "C03": (KANI, "proof for every value of every width, for each generated configuration; configurations are representative, not all literals"),
    "C04": (KANI, "proof for every f32/f64 bit pattern, for each generated configuration"),
    "C11": (KANI, "proof for all addresses, on the real functions and the real std predicates"),
    "C18": (KANI, "proof for every length, per generated configuration"),
    "C19": (KANI, "proof for every unsigned value of each width, per generated configuration"),
}
DIFF = "differential check of the real entry points against an independent specification (bounded stand-in, not proof)"
BOUNDED = "bounded stand-in for obligations outside the verifier's reach"
LEVEL = {}
for _c in "C01 C02 C05 C06 C07 C08 C09 C12 C13 C14 C15 C16 C17 C20 C21 C22".split():
    CHECKS[_c] = (DIFF, BOUNDED)
    LEVEL[_c] = "exploration"
VC = "contracts on the generated entry points, discharged by mirvc (VCs from rustc's MIR of /repo's derive output, z3): function contracts, inferred and checked loop invariants"
for _c, _n in {"C01": "all entry points meet one contract, for every text; kinds outside the verifier's reach are compared by a bounded stand-in",
               "C02": "safety obligations (bounds, character boundaries, overflow, unwrap, panic) for every text; kinds outside the verifier's reach are run by a bounded stand-in",
               "C05": "every text, all generated configurations", "C06": "every text, all configurations",
               "C07": "every text, all configurations; data-encoding through its contract", "C08": "every text, all configurations",
               "C09": "every 48-bit and every 128-bit value, all 42 configurations",
               "C16": "domain, host and IP: every value that parsing any text can give (quick: 47 configurations, thorough: 135), both to_uri_authority_string and serialize; idna, std parsing and formatting through contracts. Email formatting: bounded stand-in",
               "C12": "every text, all configurations; std address parsing through its contract", "C13": "every text, all configurations; idna and std address parsing through contracts",
               "C14": "every text, all configurations; idna and std address parsing through contracts",
               "C15": "every text; quick run: 12 configurations, thorough: 108; idna and std address parsing through contracts",
               "C17": "every text, all configurations; url::Url through its contract",
               "C20": "visitors and deserialisation of text kinds for every text (mirvc); of numbers, booleans and floats for every value (Kani); json and phone value formats compared by a bounded stand-in",
               "C22": "every text, all configurations; the underlying parser through its contract",
               "C21": "every byte string, all configurations"}.items():
    CHECKS[_c] = (VC, _n); LEVEL[_c] = "proof"
CHECKS["C10"] = (KANI + "; texts by " + VC, "proof for every char, integer, bool (Kani) and every text (mirvc)")
CHECKS = dict(sorted(CHECKS.items()))
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3'",
     "checks": [{"property": c, "quick_cmd": f"VERIF_TIER=quick python3-vt vp/main.py {c}",
                 "thorough_cmd": f"VERIF_TIER=thorough python3-vt vp/main.py {c}",
                 "evidence_file": f"evidence/{c}.json", "technique": t, "level": LEVEL.get(c, "proof"), "level_note": n}
                for c, (t, n) in CHECKS.items()],
     "not_applicable": [{"property": c, "reason": NA.get(c, "machinery for this property is not built yet")} for c in props if c not in CHECKS],
     "notes": "see DESIGN.md"}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
