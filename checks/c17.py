#!/usr/bin/env python3
"""C17: exactly the well-formed models are accepted."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import check, srcrec

# [probability analysis, exact quantification, groups expanded, mode, files]
RUNS = [[True, True, False, "analyze", 1], [False, True, False, "validate", 1], [True, False, False, "analyze", 3], [False, True, True, "validate", 2],
        [True, True, True, "analyze", 2], [True, False, True, "validate", 3], [False, True, False, "analyze", 2], [True, True, False, "validate", 3]]


def main():
    c = check.Check("C17", targets=("scram", "scramd", "java"))
    cases = []
    for i in range(c.n(5000, 60000)):
        r = c.rng("all", i)
        broken = r.random() < .15
        mut = 0 if broken else r.choice([0, 0, 1, 1, 1, 1, 2, 3])
        runs = r.sample(RUNS, r.choice([1, 2, 3]))
        if broken:
            runs.append(r.choice(RUNS) + [r.choice(srcrec.BROKEN)])
        cases.append(dict(seed="%d-all-%d" % (c.seed, i), kind="all", mut=mut, wild=0 if broken else r.choice([0, 0, .02, .05]), runs=runs))
    c.conform("SourceTrace", cases, srcrec.rec, rule="whole models drawn at random, most with one to three mutations; several presentations, modes and options per source")
    c.assumptions += ["only sources valid for the schema are generated: the schema itself is not specified",
                      "a defect of the source makes the run end with status 1, whatever the analysis; some combinations with options are defects too"]
    c.finish()


if __name__ == "__main__":
    check.run(main)
