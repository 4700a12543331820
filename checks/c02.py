#!/usr/bin/env python3
"""C02: prime implicants are exact."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, ftrec, treerec
from c01 import random_cases, enumerated


def main():
    c = check.Check("C02")
    c.model_check("FtLaws")
    full = enumerated(c, "FtEnum.cfg", None if not c.quick else 4000)
    cases = [{"seed": i, "m": m, "runs": [["bdd", 20, True]], "vary": False} for i, m in enumerate(full)]
    c.conform("FtTrace", cases, ftrec.rec, rule="fault trees enumerated by FtEnum.tla, prime implicants")
    cases = list(random_cases(c, c.n(4000, 50000), "rnd", lambda r: [["bdd", 20, True]]))
    c.conform("FtTrace", cases, ftrec.rec, rule="seeded random fault-tree DAGs, prime implicants")
    treerec.conform(c, 500, 5000, lambda r: [["bdd", 90, True, "-", False]] * 2, what="prime implicants")
    c.finish()


if __name__ == "__main__":
    check.run(main)
