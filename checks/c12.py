#!/usr/bin/env python3
"""C12: alignment phases are analysed in isolation."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import check, sysrec


def cases(c, n):
    for i in range(n):
        r = c.rng("al", i)
        run = dict(alg=r.choice(["bdd", "bdd", "zbdd", "mocus"]), mt=r.choice(["100", "8760", "1"]), imp=r.random() < .2)
        if r.random() < .25:
            run["approx"] = r.choice(["rare-event", "mcub"])
        if r.random() < .25:
            run["step"] = {"100": "25", "8760": "3000", "1": "0.3"}[run["mt"]]
        yield {"seed": "C12/%s/%d" % (c.seed, i), "kind": "al", "bad": i % 5 == 4, "runs": [run]}


def main():
    c = check.Check("C12")
    c.conform("SysTrace", cases(c, c.n(1200, 25000)), sysrec.rec, rule="seeded models with 1-2 alignments of 1-4 phases setting house events (also repeatedly), with and without event trees, one in five ill formed")
    c.finish()


if __name__ == "__main__":
    check.run(main)
