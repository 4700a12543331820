#!/usr/bin/env python3
"""C14: expressions evaluate to their documented values."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import check, exprgen


def main():
    c = check.Check("C14")
    n = c.n(1000, 12000)
    c.conform("ExprTrace", ({"seed": "C14/%s/%d" % (c.seed, i), "kind": "value"} for i in range(n)), exprgen.rec,
              rule="seeded models of 10 event expressions over up to 4 shared parameters, all operators nested up to depth 4, values rescaled into 0..1; "
                   "6 reported digits against exact evaluation in the specification")
    c.assumptions += ["expressions whose value changes by more than 1e-7 under a relative perturbation of 1e-10 are not generated"]
    c.finish()


if __name__ == "__main__":
    check.run(main)
