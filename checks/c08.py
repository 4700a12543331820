#!/usr/bin/env python3
"""C08: probability over time and safety integrity levels."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import check, quantrec


def cases(c, n):
    for i in range(n):
        r = c.rng("t", i)
        gen = dict(n=r.randint(2, 5), ng=r.choice([1, 2, 3, 4, 6]))
        runs = []
        for _ in range(2):
            mt = r.choice(["8760", "100", "1", "0.5", "48", "0", "10000"])
            k = r.choice([1, 2, 3, 4, 5, 7, 2.5, 3.3, 0.5])
            step = "%g" % (float(mt) / k) if float(mt) else "1"
            alg = r.choice(["bdd", "bdd", "bdd", "zbdd", "mocus"])
            approx = r.choice(["none", "none", "rare-event", "mcub"]) if alg == "bdd" else r.choice(["none", "rare-event", "mcub"])
            runs.append(dict(alg=alg, approx=approx, mt=mt, step=step, sil=r.random() < .75))
        yield {"seed": "C08/%s/%d" % (c.seed, i), "gen": gen, "runs": runs, "time": r.random() < .85}


def main():
    c = check.Check("C08")
    c.conform("QuantTrace", cases(c, c.n(1500, 20000)), quantrec.rec,
              rule="seeded random trees with time-dependent and constant probabilities; random mission times and steps (dividing and not), SIL on or off")
    c.finish()


if __name__ == "__main__":
    check.run(main)
