"""Recording reports (events of ReportTrace.tla)."""
import hashlib, json, os, random, re
import xml.etree.ElementTree as ET
import rng, srcgen, srcrec

EXOTIC = ["a1", "ñandú", "Ж", "x_1", "Gate-7", "événement", "名前", "z·9", "A-b-c", "Ω_ω", "IÇ", "a" * 40, "and", "true", "event", "T0", "ß", "deadbeef", "e5", "inf"]
OPT = dict(algorithm=None, approximation=None, prime="--prime-implicants", limit="--limit-order", mission="--mission-time", step="--time-step",
           trials="--num-trials", quantiles="--num-quantiles", bins="--num-bins", seed="--seed", probability="--probability", sil="--sil",
           importance="--importance", uncertainty="--uncertainty", ccf="--ccf")


def rename(m, r):
    """Replace some names consistently by unusual ones."""
    names = set()

    def collect(x):
        for k in ("n",):
            if isinstance(x.get(k), str) and x[k]:
                names.add(x[k])
    srcgen.walk(m, collect)
    for d in m["def"]:
        if d["k"] == "ccf":
            names.update(d["mem"])
    for t in m["et"]:
        names.update(t["fe"])
    pick = r.sample(sorted(names), min(len(names), r.randint(1, 8)))
    to = dict(zip(pick, r.sample(EXOTIC, len(pick))))
    f = lambda s: to.get(s, s)
    g = lambda p: ".".join(f(s) for s in p.split("."))

    def fix(x):
        if isinstance(x.get("n"), str):
            x["n"] = f(x["n"])
        if "p" in x and "up" in x:
            x["p"], x["up"] = g(x["p"]), g(x["up"])
        if "b" in x and isinstance(x["b"], str):
            x["b"] = g(x["b"])
        if isinstance(x.get("r"), list) and x.get("t") != "const":
            x["r"] = [f(s) for s in x["r"]]
        if "src" in x:
            x["src"] = [[f(s) for s in p] for p in x["src"]]
        if "mem" in x:
            x["mem"] = [f(s) for s in x["mem"]]
        if "fe" in x:
            x["fe"] = [f(s) for s in x["fe"]]
        if "fe" not in x and "ins" not in x and isinstance(x.get("t"), str) and set(x) == {"n", "t"}:
            x["t"] = f(x["t"])
    srcgen.walk(m, fix)
    return to


def model(case):
    r = random.Random("r%s" % case["seed"])
    m = srcgen.gen(dict(seed=case["seed"], kind="all", mut=0, wild=0))
    m["name"] = r.choice(["", "", "M", "Modèle-1", "x_y"])

    def zero(x):     # conditions that fail
        if x.get("k") == "if" and r.random() < .5:
            x["x"] = dict(k="v", v="0", r=[], u="", x=[])
    srcgen.walk(m, zero)
    k = r.random()
    if k < .35:      # elements nothing refers to
        for kind, n in (("basic", "nb"), ("house", "nh"), ("param", "np")):
            if r.random() < .6:
                b = r.choice([""] + [x["p"] for x in m["box"]])
                rl = r.choice(["", "private"]) if b else ""
                d = dict(k=kind, n=n, b=b, r=rl)
                d.update(dict(s=True) if kind == "house" else dict(e=srcgen.val(r)))
                if kind == "param":
                    d["u"] = ""
                m["def"].append(d)
        if r.random() < .5:
            m["ie"].append(dict(n="Inone", t=""))
        if m["et"] and r.random() < .6:
            t = r.choice(m["et"])
            t["fe"].append("Fnone")
            t["sq"].append(dict(n="Snone", ins=[]))
    if r.random() < .1:      # certain events
        def sure(x):
            if x.get("o") == "or" and isinstance(x.get("a"), list) and not any(y["t"] == "const" for y in x["a"]):
                x["a"].append(dict(x=False, t="const", r=["true"]))
        srcgen.walk(m["def"], sure)
    if r.random() < .5:
        rename(m, r)
    return m


def requests(r):
    """Requests a command line can carry: [[setting, value], ...]."""
    q = []
    if r.random() < .25:
        q.append(["prime", True])
    if r.random() < (.1 if q else .6):
        q.append(["algorithm", r.choice(["bdd", "zbdd", "mocus"])])
    if r.random() < (.08 if ["prime", True] in q else .4):
        q.append(["approximation", r.choice(["rare-event", "mcub"])])
    if r.random() < .25:
        q.append(["limit", r.choice(["1", "2", "3"])])
    if r.random() < .3:
        q.append(["mission", r.choice(["100", "0.5", "12345.678", "8760"])])
    if r.random() < .3:
        q.append(["step", r.choice(["25", "1000", "3000"])])
        if r.random() < .6:
            q.append(["sil", True])
    for k, p in (("probability", .7), ("importance", .45), ("uncertainty", .35), ("ccf", .5)):
        if r.random() < p:
            q.append([k, True])
    if r.random() < .5:
        q.append(["seed", r.choice(["0", "7", "2147483647"])])
    q.append(["trials", r.choice(["2", "3", "10", "50"])])
    if r.random() < .4:
        q.append(["quantiles", r.choice(["1", "2", "7"])])
    if r.random() < .4:
        q.append(["bins", r.choice(["1", "3", "11"])])
    return q


def args(q):
    out = []
    for k, v in q:
        out += ["--" + v] if OPT[k] is None else [OPT[k]] if v is True else [OPT[k], v]
    return out


TIMES = ("time", "products", "probability", "importance", "uncertainty")


FACTORS = ("MIF", "CIF", "DIF", "RAW", "RRW")


def snap(v):      # differences of rounding errors
    return "0" if abs(float(v)) < 1e-9 else "%.3g" % float(v)


def digest(root):
    root = ET.fromstring(ET.tostring(root))
    for e in root.iter():
        e.tail = None
        if not (e.text or "").strip():
            e.text = None
    info = root.find("information")
    if info is not None:
        for e in [x for x in info if x.tag == "time"]:
            e.text = ""
        for e in info.iter("calculation-time"):
            for y in e:
                y.text = ""
    for e in root.iter("warning"):     # lists of names
        if (e.text or "").startswith("Unused"):
            head, _, tail = e.text.partition(": ")
            e.text = head + ": " + " ".join(sorted(tail.split()))
    for e in root.iter("measure"):
        if float(e.find("standard-deviation").get("value")) < 1e-9:    # all of the sample is one value but for rounding
            for h in e.findall("histogram"):
                e.remove(h)
        for y in e.iter():
            for k in y.attrib:
                if k in ("value", "lower-bound", "upper-bound"):
                    y.set(k, snap(y.get(k)))

    def canon(e):     # the order of results, products and members is no part of it
        return (e.tag, sorted((k, snap(v) if k in FACTORS else v) for k, v in e.attrib.items()), e.text or "", sorted(canon(y) for y in e))
    return hashlib.sha1(repr(canon(root)).encode()).hexdigest()[:12]


HEADS = r"^(Unused [a-z ]+|In event tree [^,]+, unused [a-z ]+): (.*)$"


def report(path):
    root = ET.parse(path).getroot()
    t = rng.tree(root)
    t["w"] = []
    for x in root.iter("warning"):
        g = re.match(HEADS, x.text or "", re.S)
        t["w"].append(dict(h=g.group(1), n=g.group(2).split(" "), g=g.group(1).startswith("Unused")) if g else dict(h=x.text or "", n=[], g=False))
    return root, t


def rec(w, case):
    """case: {seed, n} or {m, reqs: [[requests]]}"""
    m = case["m"] if "m" in case else model(case)
    r = random.Random("x%s" % case["seed"])
    evs = [dict(e="load", m={k: v for k, v in m.items() if k != "name"}, nm=m["name"])]
    reqs = case.get("reqs") or [requests(r) for _ in range(case["n"])]
    EMPTY = dict(t="", a=[], x="", k=[], c=[], w=[])
    for q in reqs:
        texts = srcgen.present(m, r, r.choice([1, 1, 2, 3]))
        files = [w.write(n, t) for n, t in texts]
        out = w.path("o.xml")
        ev = dict(e="report", req=q, rc=0, r=EMPTY, same=[], flat=True, err="")
        for form in ("", "flat", "stdout", "project"):
            if os.path.exists(out):
                os.unlink(out)
            a = args(q)
            if form == "project":
                p = w.write("p.xml", '<?xml version="1.0"?>\n<scram><model>%s</model><options/></scram>\n' % "".join("<file>%s</file>" % os.path.basename(f) for f in files))
                rc, err = w.run(["--project", p, "--output", out] + a)
            elif form == "stdout":
                rc, err = w.run(a + files)
                out2 = w.path("stdout")
            else:
                rc, err = w.run(a + (["--no-indent", "-o", out] if form else ["-o", out]) + files)
            ev["rc"], ev["err"] = rc, err[-300:]
            if rc:
                break
            try:
                root, t = report(out2 if form == "stdout" else out)
            except ET.ParseError as x:
                ev["rc"], ev["err"] = 98, "not well-formed: %s" % x
                break
            ev["same"].append(digest(root))
            if form == "":
                ev["r"] = t
            if form == "flat":
                ev["flat"] = not re.search(r"^[ \t]", open(out, encoding="utf-8").read(), re.M)
            if len(m["et"]) and form == "flat" and r.random() < .5:
                break
        evs.append(ev)
    return evs
