#!/usr/bin/env python3
"""C03: the order limit truncates exactly."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, ftrec, treerec
from c01 import random_cases, ALGS


def main():
    c = check.Check("C03")
    runs = lambda r: [[a, l, False] for a in ALGS for l in (0, 1, 2, 3, 4, 5)] + [["bdd", l, True] for l in (0, 1, 2, 3, 4)]
    cases = list(random_cases(c, c.n(1200, 20000), "rnd", runs))
    c.conform("FtTrace", cases, ftrec.rec, rule="seeded random fault-tree DAGs; limits 0-5 for every algorithm and for prime implicants")
    treerec.conform(c, 500, 5000, lambda r: [[a, r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 8]), pi, "-", False] for a, pi in (("bdd", False), ("zbdd", False), ("mocus", False), ("bdd", True))], what="limits 0-8")
    c.finish()


if __name__ == "__main__":
    check.run(main)
