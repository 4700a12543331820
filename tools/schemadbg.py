#!/usr/bin/env python3
"""Which elements of a report are invalid for share/report.rng (debugging aid): schemadbg.py FILE.xml | replay.json"""
import json, os, sys
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import rng

P = rng.patterns("/repo/share/report.rng")
NO, EM = dict(k="no"), dict(k="e")


def grp(ps):
    if any(p["k"] == "no" for p in ps):
        return NO
    q = [p for p in ps if p["k"] != "e"]
    return EM if not q else q[0] if len(q) == 1 else dict(k="group", ps=q)


def cho(ps):
    q = [p for p in ps if p["k"] != "no"]
    return NO if not q else q[0] if len(q) == 1 else dict(k="choice", ps=q)


def nul(p):
    return p["k"] in ("e", "star", "text") or p["k"] == "group" and all(map(nul, p["ps"])) or p["k"] == "choice" and any(map(nul, p["ps"]))


def fits(p, v, ks):
    k = p["k"]
    if k == "data":
        ok = p["type"] == "string" or p["type"] in ks
        for q in p["params"]:
            ok = ok and "number" in ks and {"minInclusive": float(v) >= float(q["v"]), "maxInclusive": float(v) <= float(q["v"]), "minExclusive": float(v) > float(q["v"]), "maxExclusive": float(v) < float(q["v"])}[q["n"]]
        return ok
    return k == "text" or k == "e" and v == "" or k == "value" and v == p["v"] or k == "choice" and any(fits(x, v, ks) for x in p["ps"]) or k == "group" and all(fits(x, v, ks) for x in p["ps"])


def att(p, a):
    k = p["k"]
    if k == "attr":
        return EM if p["n"] == a["n"] and fits(p["p"], a["v"], a["k"]) else NO
    if k == "choice":
        return cho([att(x, a) for x in p["ps"]])
    if k == "group":
        return cho([NO if att(x, a)["k"] == "no" else grp(p["ps"][:j] + [att(x, a)] + p["ps"][j + 1:]) for j, x in enumerate(p["ps"])])
    if k == "star":
        d = att(p["p"], a)
        return NO if d["k"] == "no" else grp([d, p])
    return NO


def names(p, s):
    if p["k"] == "attr":
        s.add(p["n"])
    for x in p.get("ps", []):
        names(x, s)
    if p["k"] == "star":
        names(p["p"], s)
    return s


elems = {}


def index(p):
    if p["k"] == "elem":
        elems.setdefault(p["n"], []).append(p)
    for x in p.get("ps", []):
        index(x)
    if "p" in p:
        index(p["p"])


index(P)


def walk(x, pa):
    for y in x["c"]:
        walk(y, pa + "/" + x["t"])
    if x["t"] not in elems:
        print(pa, x["t"], "unknown element")
        return
    if not x["c"] and x["x"] and not any(fits(q["p"], x["x"], x["k"]) for q in elems[x["t"]]) and not x["a"]:
        print(pa, x["t"], "text", x["x"][:60])
    best = None
    for q in elems[x["t"]]:
        bad, p = [], q["p"]
        for a in x["a"]:
            d = att(p, a)
            if d["k"] == "no":
                bad.append((a["n"], a["v"]))
            else:
                p = d
        best = bad if best is None or len(bad) < len(best) else best
    if best:
        print(pa, x["t"], "attributes", best)


f = sys.argv[1]
if f.endswith(".json"):
    for l in json.load(open(f))["lines"]:
        if any("schema" in w for w in l["why"]):
            print("--", l["event"]["req"])
            walk(l["event"]["r"], "")
else:
    walk(rng.tree(ET.parse(f).getroot()), "")
