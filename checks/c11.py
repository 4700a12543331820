#!/usr/bin/env python3
"""C11: event-tree sequences collect exactly their paths."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import check, sysrec

KNOWN = ["sequence-value-above-one", "sequence-value-negative", "collected-expression-tests-functional-event"]


def cases(c, n):
    for k in KNOWN:
        yield {"seed": "C11/" + k, "kind": "known", "key": k, "runs": [dict()]}
    for i in range(n):
        r = c.rng("et", i)
        runs = [dict(alg=r.choice(["bdd", "bdd", "zbdd", "mocus"]), mt=r.choice(["100", "50"]))]
        if r.random() < .3:
            runs.append(dict(alg=r.choice(["bdd", "zbdd"]), approx=r.choice(["rare-event", "mcub"]), mt="100"))
        yield {"seed": "C11/%s/%d" % (c.seed, i), "kind": "et", "runs": runs}


def main():
    c = check.Check("C11")
    c.conform("SysTrace", cases(c, c.n(1500, 30000)), sysrec.rec, keyfn=lambda case, tr, f: [case["key"]] if "key" in case else [],
              rule="seeded models with 1-3 event trees (forks, named branches, links, rules, conditions on states, house settings) collecting formulas or expressions")
    c.finish()


if __name__ == "__main__":
    check.run(main)
