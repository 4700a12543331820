#!/usr/bin/env python3
"""C09: uncertainty analysis."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import check, uncrec


def cases(c, kind, n, **kw):
    for i in range(n):
        r = c.rng(kind, i)
        alg = r.choice(["bdd", "bdd", "bdd", "zbdd", "mocus"])
        approx = r.choice(["none", "none", "rare-event", "mcub"]) if alg == "bdd" else r.choice(["rare-event", "mcub"])
        d = dict(seed="C09/%s/%s/%d" % (c.seed, kind, i), kind=kind, alg=alg, approx=approx, mt=r.choice(["100", "8760", "1"]),
                 nq=r.choice([1, 2, 4, 5, 10, 20]), nb=r.choice([1, 2, 5, 7, 20]), phases=kind in ("tree", "ccf") and r.random() < .3)
        if approx != "none":
            d["coherent"] = True
        d.update(kw)
        if kind in ("tree", "ccf") and not d["phases"]:
            d["chain"] = r.choice([[2, 6], [3, 4], [1, 10]])
        yield d


def main():
    c = check.Check("C09")
    c.assumptions += ["statistics of many trials are compared within 7 standard errors of the exact moments and distribution functions",
                      "random inputs of histories are histogram deviates with bins of relative width 1e-14, standing for the values of their atoms"]
    if not c.args.replay:
        c.model_check("UncertLaws")
    cs = list(cases(c, "tree", c.n(220, 4000), chain=[6, 1], big=[20000])) + list(cases(c, "constant", c.n(20, 300), chain=[1, 3], big=[100])) \
        + list(cases(c, "pairs", c.n(8, 60), chain=[30, 25])) + list(cases(c, "fresh", c.n(8, 60), chain=[300, 1])) \
        + list(cases(c, "ccf", c.n(60, 800), chain=[6, 1], big=[20000])) + list(cases(c, "dist", c.n(150, 3000)))
    c.conform("UncertTrace", cs, uncrec.rec,
              rule="seeded trees with shared, derived and inline random inputs, phases, approximations: histories trial by trial, many trials against exact moments, continuous distributions")
    c.finish()


if __name__ == "__main__":
    check.run(main)
