#!/usr/bin/env python3
"""C05: exact top-event probability, product probabilities and contributions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import check, quantrec, treerec


def cases(c, n):
    for i in range(n):
        r = c.rng("q", i)
        gen = {}
        if r.random() < .3:
            gen = dict(n=r.randint(4, 7), ng=r.randint(6, 20))
        runs = [dict(alg="bdd"), dict(alg=r.choice(["zbdd", "mocus"]))]
        if r.random() < .4:
            runs.append(dict(alg="bdd", pi=True))
        if r.random() < .3:
            runs.append(dict(alg="bdd", lim=r.randint(0, 3)))
        yield {"seed": "C05/%s/%d" % (c.seed, i), "gen": gen, "runs": runs}


def main():
    c = check.Check("C05")
    c.conform("QuantTrace", cases(c, c.n(4000, 60000)), quantrec.rec,
              rule="seeded random trees with random probabilities (0, 1, tiny, ordinary); exact probability with every algorithm")
    treerec.conform(c, 500, 5000, lambda r: [["bdd", 90, False, "exact", False], ["bdd", 90, r.random() < .5, "exact", False]], what="exact probability")
    c.finish()


if __name__ == "__main__":
    check.run(main)
