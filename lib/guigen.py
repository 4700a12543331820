"""Histories of editor commands, drawn from EditorEnum.tla by TLC."""
import json
import tlc

NONE = dict(label="", attrs=[], flavor="", expr="", p="", state=False, conn="", min=0, args=[], ft="")


def el(id, kind, **kw):
    return dict(NONE, id=id, kind=kind, **kw)


def basic(id, label="", flavor="Basic", expr="c:0.5", p="0.5", attrs=()):
    a = [list(x) for x in attrs] + ([["flavor", "undeveloped", ""]] if flavor == "Undeveloped" else [])
    return el(id, "basic", label=label, flavor=flavor, expr=expr, p=p, attrs=a)


# the initial models of EditorEnum (INITIAL = 1, 2, 3, 4)
INITIAL = [
    dict(name="", trees=[], els=[]),
    dict(name="M", trees=[dict(name="F", label="")],
         els=[basic("a"), el("g", "gate", label="L", conn="null", args=["a"], ft="F")]),
    dict(name="", trees=[dict(name="F", label="tree"), dict(name="G", label="")],
         els=[basic("a", "La", attrs=[["flavor", "conditional", "str"], ["note", "1", ""]]),
              basic("b", "", "Undeveloped", "none", "", [["note", "2", "t"]]), el("h", "house", state=True),
              el("g", "gate", conn="atleast", min=2, args=["a", "b", "h"], ft="F", attrs=[["x", "y", ""]]),
              el("k", "gate", label="L", conn="and", args=["g", "a"], ft="F"),
              el("r", "gate", conn="xor", args=["h", "b"], ft="G")]),
    dict(name="D", trees=[dict(name="F", label="")],
         els=[basic("a"), basic("b", "", "Undeveloped"), el("h", "house", state=False),
              el("k", "gate", conn="or", args=["g", "p", "n"], ft="F"), el("g", "gate", conn="and", args=["a", "n"], ft="F"),
              el("p", "gate", conn="atleast", min=2, args=["n", "b", "h"], ft="F"), el("n", "gate", conn="nand", args=["a", "b"], ft="F")])]


def histories(out):
    """The printed histories, one per common beginning (all successors of the last state are printed)."""
    seen, res = set(), []
    for line in out.splitlines():
        if "@HIST" in line:
            h = json.loads(json.loads(line)[6:])
            res.append(h)
    return res


def thin(hs):
    seen, res = set(), []
    for h in hs:
        k = json.dumps(h[:-1])
        if k not in seen:
            seen.add(k)
            res.append(h)
    return res
