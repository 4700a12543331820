#!/usr/bin/env python3
"""C13: substitutions act as documented."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import check, sysrec


def cases(c, n):
    for i in range(n):
        r = c.rng("sub", i)
        nd = i % 2 == 1
        run = dict(alg=r.choice(["bdd", "zbdd", "mocus"]), imp=r.random() < .15)
        if nd and r.random() < .9 or r.random() < .3:
            run["approx"] = r.choice(["rare-event", "mcub"])
        elif run["alg"] == "bdd" and r.random() < .25:
            run["pi"] = True
        if not nd and r.random() < .3:
            run["lim"] = r.randint(1, 3)
        runs = [run]
        if r.random() < .3:
            runs.append(dict(alg=r.choice(["bdd", "zbdd", "mocus"]), approx=run.get("approx", "none")))
        yield {"seed": "C13/%s/%d" % (c.seed, i), "kind": "sub", "nondecl": nd, "bad": i % 6 == 5, "runs": runs}


def main():
    c = check.Check("C13")
    c.conform("SysTrace", cases(c, c.n(2400, 40000)), sysrec.rec, rule="seeded models with 1-3 substitutions, declarative (every algorithm and calculation) or not (rare-event and mcub), some interfering, one in six ill formed")
    c.finish()


if __name__ == "__main__":
    check.run(main)
