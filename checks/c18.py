#!/usr/bin/env python3
"""C18: the report states the results and inventory faithfully."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import check, reprec, rng


def main():
    c = check.Check("C18")
    schema = os.path.join(check.VERIF, "build", "report_schema.json")
    json.dump(rng.patterns("/repo/share/report.rng"), open(schema, "w"))
    os.environ["SCHEMA"] = schema
    cases = [dict(seed="%d-report-%d" % (c.seed, i), n=2) for i in range(c.n(1000, 12000))]
    c.conform("ReportTrace", cases, reprec.rec, rule="well-formed sources with unused elements and unusual names x analysis settings x ways to write the report")
    c.assumptions += ["an element is used when something refers to it (formulas, expressions, instructions, branches)",
                      "well-formed XML as read by Python's expat"]
    c.finish()


if __name__ == "__main__":
    check.run(main)
