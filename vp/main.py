#!/usr/bin/env python3
"""Entry point of every check: python3-vt vp/main.py <property id>."""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *

CHECKS = {p: "checks_diff:diff_check" for p in ("C01 C02 C05 C06 C07 C08 C09 C12 C13 C14 C15 C16 C17 C20 C21 C22").split()}
CHECKS.update({p: "checks_proof:proof_check,checks_diff:diff_check" for p in ("C01 C02 C05 C06 C07 C08 C09 C12 C13 C14 C15 C16 C17 C20 C21 C22").split()})
CHECKS.update({
    "C03": "checks_kani:c03,checks_diff:diff_check", "C04": "checks_kani:c04,checks_diff:diff_check",
    "C10": "checks_kani:c10_kani,checks_proof:proof_check,checks_diff:diff_check", "C11": "checks_kani:c11", "C18": "checks_kani:c18",
    "C20": "checks_kani:c20_kani,checks_proof:proof_check,checks_diff:diff_check",
    "C19": "checks_kani:c19,checks_diff:diff_check",
})


def main():
    pid = sys.argv[1]
    rep = Report(pid)
    for spec in CHECKS[pid].split(","):
        mod, fn = spec.split(":")
        try:
            getattr(__import__(mod), fn)(rep)
        except Exception:
            # a tool limit is never an alarm: the obligation stays undecided and is reported as such
            tb = traceback.format_exc()
            print(tb, file=sys.stderr)
            rep.undecided.append(f"{spec}: internal error: {tb[-1500:]}")
    sys.exit(rep.finish())


main()
