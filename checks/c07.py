#!/usr/bin/env python3
"""C07: importance factors."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import check, quantrec, treerec


def cases(c, n):
    for i in range(n):
        r = c.rng("i", i)
        gen = {}
        if r.random() < .3:
            gen = dict(n=r.randint(4, 7), ng=r.randint(6, 20))
        runs = [dict(alg="bdd", imp=True)]
        x = r.random()
        if x < .35:
            runs.append(dict(alg=r.choice(["bdd", "zbdd", "mocus"]), approx=r.choice(["rare-event", "mcub"]), imp=True,
                             lim=r.choice([20, r.randint(0, 4)])))
        elif x < .5:
            runs.append(dict(alg="bdd", pi=True, imp=True))
        elif x < .6:
            runs.append(dict(alg=r.choice(["zbdd", "mocus"]), imp=True))
        elif x < .7:
            runs.append(dict(alg="bdd", imp=True, lim=r.randint(0, 3)))
        elif x < .8:
            runs.append(dict(alg="bdd", imp=True, mt="20", step="10"))
        yield {"seed": "C07/%s/%d" % (c.seed, i), "gen": gen, "runs": runs, "time": r.random() < .25}


def main():
    c = check.Check("C07")
    if not c.quick:
        c.model_check("QuantLaws")
    c.conform("QuantTrace", cases(c, c.n(2000, 40000)), quantrec.rec,
              rule="seeded random trees; importance of every event with exact and approximate probabilities, prime implicants, limits, time steps")
    treerec.conform(c, 250, 4000, lambda r: [["bdd", 90, False, "exact", True], [r.choice(["zbdd", "mocus"]), 90, False, "mcub", True]], what="importance")
    c.finish()


if __name__ == "__main__":
    check.run(main)
