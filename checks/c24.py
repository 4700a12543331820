#!/usr/bin/env python3
"""C24: the analysed top events are the right ones."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import check, sysrec


def cases(c, n):
    for i in range(n):
        r = c.rng("top", i)
        run = dict(alg=r.choice(["bdd", "bdd", "zbdd", "mocus"]), prob=r.random() < .8)
        if run["prob"] and r.random() < .25:
            run["approx"] = r.choice(["rare-event", "mcub"])
        yield {"seed": "C24/%s/%d" % (c.seed, i), "kind": "top", "runs": [run]}


def main():
    c = check.Check("C24")
    c.conform("SysTrace", cases(c, c.n(1200, 25000)), sysrec.rec, rule="seeded models of 1-3 fault trees (with components) with several gates without parents, initiating events with and without event trees, alignments")
    c.finish()


if __name__ == "__main__":
    check.run(main)
