"""Recording runs on sources (events of SourceTrace.tla)."""
import os, random, re
import xml.etree.ElementTree as ET
import sc, srcgen, xinc

BROKEN = ["truncated", "attribute", "element", "no name", "bad name", "root", "value", "empty", "missing file", "file twice", "text", "include of no file", "include of itself"]


def corrupt(w, texts, kind, rnd):
    """Make one of the files invalid whatever it means; None if there is no place for it."""
    if kind.startswith("include"):
        texts = xinc.split(w, texts, rnd, .6, "missing" if kind == "include of no file" else "cycle")
        return texts and (texts, None)
    i = rnd.randrange(len(texts))
    name, text = texts[i]
    root = ET.fromstring(text)
    els = list(root.iter())
    if kind == "truncated":
        new = text[:rnd.randint(text.index("<opsa-mef"), len(text) - 3)]
    elif kind == "empty":
        new = ""
    elif kind == "attribute":
        rnd.choice(els).set("zz", "1")
    elif kind == "element":
        x = rnd.choice(els)
        x.insert(rnd.randint(0, len(x)), ET.Element("zz"))
    elif kind in ("no name", "bad name"):
        xs = [x for x in els if x.tag.startswith("define-") or (kind == "no name" and x.tag in ("event", "gate", "basic-event", "house-event", "parameter"))]
        if not xs:
            return None
        x = rnd.choice(xs)
        if kind == "no name":
            del x.attrib["name"]
        else:
            x.set("name", rnd.choice(["", "a.b", "1a", "a b", "a-", "-a", "a--b", "a:b", "a$"]))
    elif kind == "root":
        root.tag = rnd.choice(["opsa", "scram", "define-fault-tree"])
    elif kind == "text":
        x = rnd.choice(els)
        x.text = (x.text or "") + "words"
    elif kind == "value":
        xs = [x for x in els if x.tag in ("float", "constant")]
        if not xs:
            return None
        x = rnd.choice(xs)
        x.set("value", rnd.choice(["zz", "", "1,5", "0x"]))
    elif kind == "missing file":
        return texts, [rnd.randrange(len(texts) + 1), "no-such-file.xml"]
    elif kind == "file twice":
        return texts, [rnd.randrange(len(texts) + 1), name]
    if kind not in ("truncated", "empty"):
        new = '<?xml version="1.0"?>\n' + ET.tostring(root, encoding="unicode")
    return texts[:i] + [(name, new)] + texts[i + 1:], None


def fields(err):
    """What an error message says, by field."""
    f = dict(re.findall(r"^(MEF reference|MEF base path|MEF Element type|MEF Element ID|MEF Container|Cycle): (.*)$", err, re.M))
    return dict(cls=(re.findall(r"scram::(?:\w+::)?(\w+)", err.split("\n")[0]) or [""])[0],
                ref=f["MEF reference"].split(".") if "MEF reference" in f else [], base=f.get("MEF base path", ""), type=f.get("MEF Element type", ""),
                id=f.get("MEF Element ID", ""), at=f.get("MEF Container", ""), cycle=f["Cycle"].split("->") if "Cycle" in f else [])


def run(w, m, rnd, o, mode, nfiles, broken=""):
    texts = srcgen.present(m, rnd, nfiles)
    extra = None
    if broken:
        c = corrupt(w, texts, broken, rnd)
        texts, extra, broken = (c[0], c[1], broken) if c else (texts, None, "")
    if not broken and rnd.random() < .3:
        texts = xinc.split(w, texts, rnd)
    files = [w.write(n, t) for n, t in texts]
    if extra:
        files.insert(extra[0], w.path(extra[1]))
    out = w.path("o.xml")
    if os.path.exists(out):
        os.unlink(out)
    alg = rnd.choice(["--bdd", "--zbdd", "--mocus"]) if not o["prob"] or not o["exact"] else "--bdd"
    args = [alg, "-o", out] + (["--probability"] if o["prob"] else []) + ([] if o["exact"] else ["--mcub"]) + (["--ccf"] if o["ccf"] else [])
    if alg != "--bdd" and o["exact"]:
        args = ["--bdd", "-o", out]
    rc, err = w.run(args + (["--validate"] if mode == "validate" else []) + files)
    plain = not (m["et"] or m["al"] or m["sub"] or o["ccf"])
    ev = dict(e="run", o=o, mode=mode, rc=rc, broken=broken, said=fields(err), err=err[-400:], msg=len(err.strip()) > 5, out=os.path.exists(out), judge=plain and mode != "validate", res=[])
    if rc == 0 and ev["judge"]:
        for s in sc.parse_report(out).iter("sum-of-products"):
            ps = []
            for p in s.findall("product"):
                ids = ["~" + c[0].get("name") if c.tag == "not" else c.get("name") for c in p]
                ps.append(dict(ids=ids, p=p.get("probability") or ""))
            ev["res"].append(dict(id=s.get("name"), p=ps))
    return ev


def rec(w, case):
    """case: {seed, kind, mut, wild | m: source, runs: [[prob, exact, ccf, mode, nfiles(, kind of corruption)]]}"""
    m = case["m"] if "m" in case else srcgen.gen(case)
    rnd = random.Random("x%s" % case["seed"])
    return [dict(e="load", m=m)] + [run(w, m, rnd, dict(prob=p, exact=x, ccf=c), mode, nf, *b) for p, x, c, mode, nf, *b in case["runs"]]
