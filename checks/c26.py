#!/usr/bin/env python3
"""C26: the editor's analyses are of the document it shows, with the settings it shows."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import check, workrec

PROP = "C26"


def cases(c):
    o = c.model_check("WorkEnum")
    hs = sorted(json.loads(json.loads(x)[6:]) for x in o.splitlines() if "@HIST" in x)
    c.cov.setdefault("enumerated", []).append({"clicks": len(hs)})
    out = []
    for k in range(0, len(hs), 40):
        out.append({"seed": "clicks", "clicks": hs[k:k + 40]})
    for k in range(c.n(500, 8000)):
        r = c.rng("session", k)
        out.append({"seed": "%d.%d" % (c.seed, k), "len": r.choice([12, 25, 40])})
    return out


def main():
    c = check.Check(PROP, targets=("guiwin", "java"))
    c.conform("WorkTrace", cases(c), workrec.rec,
              rule="every reachable state of the settings dialog and every click in it; random sessions of settings, runs, result tables, exported reports, edits, undo and new documents")
    c.finish()


if __name__ == "__main__":
    check.run(main)
