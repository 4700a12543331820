#!/usr/bin/env python3
"""C06: rare-event and min-cut-upper-bound approximations."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import check, quantrec, treerec


def cases(c, n):
    for i in range(n):
        r = c.rng("a", i)
        gen = {}
        if r.random() < .3:
            gen = dict(n=r.randint(4, 7), ng=r.randint(6, 20))
        if r.random() < .6:
            gen["coherent"] = True
        alg = lambda: r.choice(["bdd", "zbdd", "mocus"])
        lim = lambda: r.choice([20, 20, 20, r.randint(0, 4)])
        runs = [dict(alg=alg(), approx="rare-event", lim=lim()), dict(alg=alg(), approx="mcub", lim=lim())]
        if r.random() < .5:
            runs.append(dict(alg=alg(), approx=r.choice(["rare-event", "mcub"]), mt=r.choice(["100", "5"]),
                             step=r.choice(["25", "2"])))
        yield {"seed": "C06/%s/%d" % (c.seed, i), "gen": gen, "runs": runs, "time": r.random() < .3}


def main():
    c = check.Check("C06")
    c.model_check("QuantLaws")
    c.conform("QuantTrace", cases(c, c.n(4000, 60000)), quantrec.rec,
              rule="seeded random trees, probabilities 0-1; both approximations, every algorithm, random order limits, some with curves")
    treerec.conform(c, 250, 4000, lambda r: [[r.choice(["bdd", "zbdd", "mocus"]), 90, False, a, False] for a in ("mcub", "rare-event")], what="approximations")
    c.finish()


if __name__ == "__main__":
    check.run(main)
