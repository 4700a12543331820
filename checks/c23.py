#!/usr/bin/env python3
"""C23: the fault-tree generator."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import check, genrec


def main():
    c = check.Check("C23")
    cases = [dict(seed="%d-gen-%d" % (c.seed, i), kind="ok") for i in range(c.n(500, 6000))]
    cases += [dict(seed="%d-edge-%d" % (c.seed, i), kind="edge") for i in range(c.n(500, 6000))]
    cases += [dict(seed="%d-big-%d" % (c.seed, i), kind="big") for i in range(c.n(12, 150))]
    c.conform("GenTrace", cases, genrec.rec, rule="random parameters in and around the admissible ones; repeated in another process, nested, in the Aralia format")
    c.assumptions += ["quantities of the summary are recomputed from the file", "mix of connectives of large models within seven standard deviations"]
    c.finish()


if __name__ == "__main__":
    check.run(main)
