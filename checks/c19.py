#!/usr/bin/env python3
"""C19: serialisation round-trips the model."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import check, serrec


def main():
    c = check.Check("C19")
    cases = [dict(seed="%d-serial-%d" % (c.seed, i), gens=2 if i % 5 else 3) for i in range(c.n(3000, 40000))]
    c.conform("SerialTrace", cases, serrec.rec, rule="models of fault trees with labels, attributes, every connective, constants and exponentials; unusual names and texts; saved two or three times over")
    c.assumptions += ["constructs outside fault trees, gates, basic and house events, constants and exponentials are not saved by scram and not judged",
                      "the order of definitions in the file is no part of the model"]
    c.finish()


if __name__ == "__main__":
    check.run(main)
