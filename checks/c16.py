#!/usr/bin/env python3
"""C16: references resolve by the documented scoping rules."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import check, srcrec

RUNS = [[True, True, False, "analyze", 1], [True, True, False, "analyze", 3], [False, True, False, "analyze", 2]]


def main():
    c = check.Check("C16", targets=("scram", "scramd", "java"))
    cases = []
    for i in range(c.n(3000, 30000)):
        r = c.rng("scope", i)
        cases.append(dict(seed="%d-scope-%d" % (c.seed, i), kind="scope", mut=0, wild=r.choice([0, .03, .1, .3]), runs=RUNS[:r.choice([1, 2, 3])]))
    c.conform("SourceTrace", cases, srcrec.rec, rule="containers, roles, names and references drawn at random from few names; several presentations per source")
    c.assumptions += ["the container of the reference comes first, then public elements by name or any element by its full path",
                      "observed through the products and probabilities of every top gate"]
    c.finish()


if __name__ == "__main__":
    check.run(main)
