#!/usr/bin/env python3
"""C10: common-cause groups expand to their published models."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ccfrec, check


def cases(c, n):
    for i in range(n):
        r = c.rng("ccf", i)
        time = r.random() < .25
        runs = []
        x = r.random()
        runs.append(dict(alg=r.choice(["bdd", "bdd", "zbdd", "mocus"]), ccf=True, imp=r.random() < .3))
        if x < .3:
            runs.append(dict(alg="bdd", ccf=False))
        elif x < .6:
            runs.append(dict(alg=r.choice(["bdd", "zbdd", "mocus"]), approx=r.choice(["rare-event", "mcub"]), ccf=True))
        elif x < .7 and time:
            runs.append(dict(alg="bdd", ccf=True, mt="20", step="10"))
        elif x < .8:
            runs.append(dict(alg=r.choice(["bdd", "zbdd", "mocus"]), ccf=True, lim=r.randint(0, 3)))
        yield {"seed": "C10/%s/%d" % (c.seed, i), "time": time, "runs": runs, "maxv": 10 if r.random() < .3 else 8}


def prime(c, n):
    for i in range(n):
        yield {"seed": "C10p/%s/%d" % (c.seed, i), "maxv": 7, "runs": [dict(alg="bdd", ccf=True, pi=True)]}


def invalid(c, n):
    for i in range(n):
        r = c.rng("bad", i)
        yield {"seed": "C10b/%s/%d" % (c.seed, i), "maxv": 7, "bad": r.choice(ccfrec.BAD), "runs": [dict(alg="bdd", ccf=r.random() < .5)]}


def main():
    c = check.Check("C10")
    cs = list(cases(c, c.n(1500, 20000))) + list(prime(c, c.n(200, 3000))) + list(invalid(c, c.n(1000, 15000)))
    c.conform("CcfTrace", cs, ccfrec.rec,
              rule="seeded trees with 1-2 groups of every model, 2-5 members, implicit and explicit levels; products, probabilities and importance with and without expansion; groups made illegal in one place")
    c.finish()


if __name__ == "__main__":
    check.run(main)
