#!/usr/bin/env python3
"""C15: only models with valid numeric domains are analysed."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import check, exprgen


def main():
    c = check.Check("C15")
    n = c.n(6000, 80000)
    c.conform("ExprTrace", ({"seed": "C15/%s/%d" % (c.seed, i), "kind": "border"} for i in range(n)), exprgen.rec,
              rule="seeded models of 1-2 event expressions and up to 2 parameters with arguments on and around the borders of every documented domain")
    c.assumptions += ["the sample domain of an expression is the natural interval extension of ExprDomain.tla; comparisons closer than 1e-9 of inexact numbers are left undecided"]
    c.finish()


if __name__ == "__main__":
    check.run(main)
