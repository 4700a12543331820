#!/usr/bin/env python3
"""C21: editor undo and redo restore the model exactly."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import check, guigen, guirec, tlc

PROP, VIEWS = "C21", False
WALK = ["undo", "undo", "redo", "redo", "undo", "redo", "undo", "undo", "redo"]


def cases(c):
    out = []
    for i, ln in ((1, 2), (2, 2), (3, 1)):
        hs = guigen.histories(c.model_check("EditorEnum", env={"LEN": str(ln), "INITIAL": str(i)}))
        c.cov.setdefault("enumerated", []).append({"initial": i, "length": ln, "histories": len(hs)})
        if len(hs) > c.n(500, 10**9):
            hs = c.rng("hist", i).sample(hs, c.n(500, 10**9))
        walk = [{"op": o} for o in (WALK if ln == 2 else ["undo", "redo", "undo", "redo"])]
        for h in hs:
            n = sum(x["op"] not in ("undo", "redo") for x in h)
            if n == ln:
                out.append({"model": guigen.INITIAL[i - 1], "log": h + walk})
    for i in (2, 3, 4):
        for part in range(c.n(3 if i < 4 else 2, 24)):
            o = c.model_check("EditorEnum", cfg="EditorSim.cfg", env={"LEN": str(30 if part % 3 else 12), "INITIAL": str(i)}, workers=1,
                              args=["-simulate", "num=%d" % c.n(60, 200), "-seed", str(c.rng("sim", i, part).randrange(10**6)), "-depth", "40"])
            for h in guigen.thin(guigen.histories(o)):
                n = 0   # then everything is undone and redone
                for x in h:
                    n += -1 if x["op"] == "undo" else 1
                out.append({"model": guigen.INITIAL[i - 1], "log": h + [{"op": "undo"}] * n + [{"op": "redo"}] * n})
    for n, k in enumerate(out):
        r = c.rng("case", n)
        if VIEWS:
            k["views"] = True
            k["attach"] = [[0, r.choice([-1, 0, 1, 2])]] + ([[r.randrange(1, len(k["log"])), 0]] if r.random() < .4 else [])
            for a in k["attach"]:   # the rows that a search keeps
                if r.random() < .4:
                    a.append(sorted(r.sample("a b c g h k n p r".split(), r.choice([1, 3, 4]))))
        elif r.random() < .3 or len(k["log"]) > 12:
            k["save"] = [len(k["log"]), r.randrange(len(k["log"]) + 1)]
    return out


def main():
    c = check.Check(PROP, targets=("gui", "java"))
    c.conform("EditorTrace", cases(c), guirec.rec,
              rule="histories explored by TLC in EditorEnum (all pairs of commands on small models, sampled from larger ones; random long ones), each followed by undoing and redoing, replayed on the real QUndoStack")
    c.finish()


if __name__ == "__main__":
    check.run(main)
