#!/usr/bin/env python3
"""C04: results do not depend on algorithm or presentation."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import check, presrec

HEAVY = {"das9701", "das9601", "nus9601", "cea9601", "edf9203"}      # minutes with some algorithm


def main():
    c = check.Check("C04")
    c.model_check("PresentLaws")
    files = sorted(f for f in os.listdir(presrec.REPO + "/input/Aralia") if f.endswith(".xml"))
    cases = []
    for rep in range(c.n(1, 6)):
        for f in files:
            heavy = f[:-4] in HEAVY
            if heavy and c.quick:
                continue
            cases.append(dict(seed="%d-%s-%d" % (c.seed, f, rep), file="Aralia/" + f, runs=6 if c.quick else 12, lim=5 if c.quick else 7,
                              cap=3000 if c.quick else 50000, questions=2, timeout=4 if c.quick else 60))
    c.conform("PresentTrace", cases, presrec.rec, rule="the published benchmark trees of input/Aralia: every algorithm, rewritten, renamed, reordered and distributed over files")
    cases = [dict(seed="%d-net-%d" % (c.seed, i), kind=["coherent", "literal", "mixed"][i % 3], runs=8, lim=4 + i % 4, cap=2000, questions=2,
                  timeout=3 if c.quick else 20) for i in range(c.n(250, 6000))]
    c.conform("PresentTrace", cases, presrec.rec, rule="random trees of 25-110 events, in the same way")
    cases = [dict(seed="%d-whole-%d" % (c.seed, i), runs=6) for i in range(c.n(500, 15000))]
    c.conform("PresentTrace", cases, presrec.rec_whole, rule="sources of every construct (groups, event trees, alignments, substitutions): names, order, files and algorithms")
    c.finish()


if __name__ == "__main__":
    check.run(main)
