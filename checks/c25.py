#!/usr/bin/env python3
"""C25: the editor's window edits, saves and reopens exactly the document it shows."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import check, guigen, winrec

PROP = "C25"
el, basic = guigen.el, guigen.basic
# files of the sessions; two of them can be opened together
MODELS = [
    dict(name="M", trees=[dict(name="F", label="")], els=[basic("a", expr="c:0.12345678901"), el("g", "gate", label="L", conn="null", args=["a"], ft="F")]),
    guigen.INITIAL[2],
    dict(name="", trees=[dict(name="T", label="")],
         els=[basic("p", "", expr="x:1.23456789e-05,8760"), basic("q", "l", "Undeveloped", "x:0.5,10"), basic("u", "", "Basic", "none", ""),
              basic("v", expr="c:1e-300"), el("w", "house", label="W"),
              el("s", "gate", conn="atleast", min=3, args=["p", "q", "u", "v"], ft="T"), el("t", "gate", conn="nor", args=["s", "w", "z"], ft="T"),
              el("z", "gate", conn="not", args=["w"], ft="T")]),
]


def deep(r):
    """A document of many gates with a single top gate."""
    n = r.choice([4, 6, 9])
    kids = {k: [] for k in range(n)}
    for k in range(1, n):
        for j in set(r.randrange(max(0, k - 4), k) for _ in range(r.choice([1, 1, 2]))):
            kids[j].append("d%d" % k)
    es = [basic("x%d" % k) for k in range(4)]
    for k in range(n):
        a = kids[k] + r.sample([e["id"] for e in es[:4]], max(0, r.choice([2, 2, 3]) - len(kids[k])))
        r.shuffle(a)
        es.append(el("d%d" % k, "gate", conn=r.choice(["and", "or"]) if len(a) > 1 else "null", args=a, ft="D"))
    return dict(name="", trees=[dict(name="D", label="")], els=es)


def cases(c):
    out = []
    # every dialog that a few gestures reach, accepted in the specification
    docs = os.path.join(c.scratch, "docs.json")
    with open(docs, "w") as f:
        json.dump([winrec.model(m) for m in MODELS], f)
    files = [["m%d.xml" % n, m] for n, m in enumerate(MODELS)] + [["bad.xml", None]]
    for ln, cmds, quick in ((5, 1, 1200), (2, 2, 600)) if c.quick else ((6, 1, 15000), (3, 2, 8000)):
        o = c.model_check("WindowEnum", env={"LEN": str(ln), "CMDS": str(cmds), "DOCS": docs})
        hs = [json.loads(json.loads(x)[6:]) for x in o.splitlines() if "@HIST" in x]
        hs = [h for h in hs if len(h["log"]) == cmds]
        c.cov.setdefault("enumerated", []).append({"gestures": ln, "dialogs": cmds, "sessions": len(hs)})
        hs.sort(key=json.dumps)
        n = max(1, int(quick * c.args.scale))
        # the dialogs that take most gestures are the most
        by = {}
        for h in hs:
            by.setdefault((h["doc"], len(h["log"][-1]["g"]), h["log"][-1]["id"] == ""), []).append(h)
        r = c.rng("enum", ln, cmds)
        for b in by.values():
            r.shuffle(b)
        pick = []
        while len(pick) < min(n, len(hs)):
            pick += [b.pop() for b in by.values() if b]
        for h in pick:
            log = [{"e": "open", "files": ["m%d.xml" % (h["doc"] - 1)], "p": [], "b": ""}] + h["log"]
            out.append({"files": files, "log": log})
    for k in range(c.n(400, 8000)):
        r = c.rng("session", k)
        fs = list(files) + [["deep.xml", deep(r)]]
        r.shuffle(fs)
        out.append({"files": fs, "seed": "%d.%d" % (c.seed, k), "len": r.choice([8, 20, 40]), "walk": r.random() < .4})
    return out


def main():
    c = check.Check(PROP, targets=("guiwin", "java"))
    c.conform("WindowTrace", cases(c), winrec.rec,
              rule="every dialog within a few gestures of WindowEnum, replayed in the real window, all of its history undone and redone, then saved and read again; random sessions, drawn from what it shows: dialogs for adding and editing with valid and invalid entries, removal, undo, redo, names, files")
    c.finish()


if __name__ == "__main__":
    check.run(main)
