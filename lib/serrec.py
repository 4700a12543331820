"""Recording saved models (events of SerialTrace.tla)."""
import hashlib, json, os, random
import xml.etree.ElementTree as ET
import reprec

NAMES = ["a", "b", "c", "d", "e", "f", "g", "h", "k", "x", "y", "z", "A", "B", "Top", "e1", "G-2", "événement", "名前", "x_1", "and", "true", "Ж", "a" * 60]
CHARS = ["a", "b", "word", " ", " ", "&", "<", ">", '"', "'", "]]>", "]]", "&amp;", "&#10;", "é", "名", "\u00a0", "%s", "--", "\n", "\t", "\r", "-->", "0", ".", ";", "  ", "\U0001f600", "\x7f"]


def text(r, plain=False):
    s = "".join(r.choice(CHARS[:3] if plain or r.random() < .4 else CHARS) for _ in range(r.randint(1, 6))).strip(" \n\t\r\u00a0")
    return s or "w"


def esc(s, r, attr):
    out = ""
    for ch in s:
        if ch in "&<" or ch == ">" or ch in "\"'" and (attr or r.random() < .3):
            out += {"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;", "'": "&apos;"}[ch]
        elif ch in "\r" or ch in "\n\t" and (attr or r.random() < .5):
            out += "&#%d;" % ord(ch)
        elif ord(ch) > 127 and r.random() < .2:
            out += "&#x%x;" % ord(ch)
        else:
            out += ch
    return out


def number(r, hi=1.0):
    k = r.random()
    if k < .15:
        v = r.choice([0.0, 1.0, 0.5, 0.1, 1e-7, 1e-300, 5e-324, 0.3, 2.2250738585072014e-308, 1 / 3, 0.1 + 0.2, 1 - 2.0 ** -53])
    elif k < .5:
        v = r.random()
    elif k < .75:
        v = r.random() * 10.0 ** -r.randint(1, 20)
    else:
        v = float("%.*g" % (r.randint(1, 9), r.random()))
    return repr(v * hi if v * hi <= hi else v)


def expr(r, d=0):
    k = r.random()
    if d == 0 and k < .1:
        return dict(k="none", v="", x=[])
    if d == 0 and k < .3:
        return dict(k="exp", v="", x=[dict(k="c", v=number(r), x=[]), dict(k="c", v=number(r, r.choice([1.0, 8760.0])), x=[])])
    return dict(k="c", v=number(r), x=[])


def head(r, plain):
    lab = text(r, plain) if r.random() < .4 else ""
    att = []
    if r.random() < .35:
        for n in r.sample(NAMES, r.randint(1, 3)):
            att.append(dict(n=n, v=text(r, plain), t=text(r, plain) if r.random() < .4 else ""))
    return dict(lab=lab, att=att)


def gen(r, ops):
    plain = r.random() < .3
    m = dict(nm=r.choice(["", "M", "Modèle-1"]), **head(r, plain), ft=[], gate=[], basic=[], house=[])
    names = r.sample(NAMES, len(NAMES))
    leaves = []
    for _ in range(r.randint(1, 6)):
        n = names.pop()
        m["basic"].append(dict(n=n, **head(r, plain), e=expr(r)))
        leaves.append(n)
    for _ in range(r.choice([0, 0, 1, 2])):
        n = names.pop()
        m["house"].append(dict(n=n, **head(r, plain), s=r.random() < .5))
        leaves.append(n)
    m["ft"] = [dict(n=n, **head(r, plain)) for n in r.sample(["F", "F2", "Дерево", "a", "model-data"], r.choice([1, 1, 2, 3]))]
    pool = list(leaves)
    for i in range(r.randint(1, 6)):
        n = names.pop()
        ft = m["ft"][i % len(m["ft"])]["n"]
        o = r.choice(ops)
        na = {"null": 1, "not": 1, "xor": 2, "iff": 2, "imply": 2}.get(o) or r.randint(3 if o == "atleast" else 1 if o == "cardinality" else 2, 5)
        if na > len(pool):
            o, na = "null", 1
        a = [dict(x=o not in ("null", "not") and r.random() < .25, n=x, c="") for x in r.sample(pool, na)]
        if o != "not" and r.random() < .12:
            a[r.randrange(na)] = dict(x=False, n="", c=r.choice(["true", "false"]))
        k = mx = 0
        if o == "atleast":
            k = r.randint(2, na - 1)
        if o == "cardinality":
            k = r.randint(0, na)
            mx = r.randint(k, na)
        m["gate"].append(dict(n=n, ft=ft, **head(r, plain), f=dict(o=o, k=k, m=mx, a=a)))
        pool.append(n)
    m["ft"] = [t for t in m["ft"] if any(g["ft"] == t["n"] for g in m["gate"])]
    return m


OPS = ["and", "or", "not", "null", "nand", "nor", "xor", "atleast", "and", "or", "atleast", "iff", "imply", "cardinality"]


def present(m, r):
    """One file that says what m says."""
    def head(x):
        s = "<label>%s%s%s</label>" % (r.choice(["", " "]), esc(x["lab"], r, False), r.choice(["", "  "])) if x["lab"] else ""
        if x["att"]:
            s += "<attributes>%s</attributes>" % "".join('<attribute name="%s" value="%s"%s/>' % (q["n"], esc(q["v"], r, True), ' type="%s"' % esc(q["t"], r, True) if q["t"] else "") for q in x["att"])
        return s

    def arg(a):
        if a["c"]:
            x = '<constant value="%s"/>' % a["c"]
        else:
            t = "gate" if any(g["n"] == a["n"] for g in m["gate"]) else "basic-event" if any(b["n"] == a["n"] for b in m["basic"]) else "house-event"
            x = r.choice(['<event name="%s"/>', '<event name="%%s" type="%s"/>' % t, '<%s name="%%s"/>' % t]) % a["n"]
        return "<not>%s</not>" % x if a["x"] else x

    def formula(f):
        s = "".join(map(arg, f["a"]))
        at = {"atleast": ' min="%d"' % f["k"], "cardinality": ' min="%d" max="%d"' % (f["k"], f["m"])}.get(f["o"], "")
        return s if f["o"] == "null" else "<%s%s>%s</%s>" % (f["o"], at, s, f["o"])

    def num(v):
        x = float(v)
        if x == int(x) and r.random() < .4:
            return '<int value="%d"/>' % x
        if x in (0.0, 1.0) and r.random() < .4:
            return '<bool value="%s"/>' % ("true" if x else "false")
        return '<float value="%s"/>' % r.choice([v, v, "%.20g" % x, "%.17e" % x])

    def ex(e):
        return "" if e["k"] == "none" else num(e["v"]) if e["k"] == "c" else "<exponential>%s</exponential>" % "".join(map(ex, e["x"]))
    data = [('<define-basic-event name="%s">%s%s</define-basic-event>' % (b["n"], head(b), ex(b["e"]))) for b in m["basic"]]
    data += [('<define-house-event name="%s">%s%s</define-house-event>' % (h["n"], head(h), "" if not h["s"] and r.random() < .3 else '<constant value="%s"/>' % str(h["s"]).lower())) for h in m["house"]]
    own = {t["n"]: [] for t in m["ft"]}
    rest = []
    for x in data:
        (r.choice(list(own.values())) if r.random() < .3 else rest).append(x)
    parts = []
    for t in m["ft"]:
        kids = ['<define-gate name="%s">%s%s</define-gate>' % (g["n"], head(g), formula(g["f"])) for g in m["gate"] if g["ft"] == t["n"]] + own[t["n"]]
        r.shuffle(kids)
        parts.append('<define-fault-tree name="%s">%s%s</define-fault-tree>' % (t["n"], head(t), "".join(kids)))
    r.shuffle(rest)
    if rest:
        parts.append("<model-data>%s</model-data>" % "".join(rest))
    r.shuffle(parts)
    return '<?xml version="1.0"?>\n<opsa-mef%s>%s%s</opsa-mef>\n' % (' name="%s"' % m["nm"] if m["nm"] else "", head(m), "".join(parts))


def doc(x):
    def val(k, v):
        try:
            return repr(float(v)) if k == "value" and x.tag == "float" else v
        except ValueError:
            return v
    return dict(t=x.tag, a=[dict(n=k, v=val(k, v)) for k, v in x.attrib.items()], x="" if len(x) else x.text or "", c=[doc(y) for y in x])


def digest(data):
    root = ET.fromstring(data)

    def canon(e):
        kids = [canon(y) for y in e]
        if e.tag in ("opsa-mef", "define-fault-tree", "model-data"):
            kids.sort()
        return (e.tag, sorted(e.attrib.items()), "" if len(e) else e.text or "", kids)
    return hashlib.sha1(repr(canon(root)).encode()).hexdigest()[:12]


def results(w, f, prob):
    out = w.path("o.xml")
    if os.path.exists(out):
        os.unlink(out)
    rc, err = w.run(["--bdd", "-o", out] + (["--probability", "--importance"] if prob else []) + [f])
    return "rc %d %s" % (rc, err[:200]) if rc else reprec.digest(ET.parse(out).getroot())


def rec(w, case):
    """case: {seed, gens} or {m, gens, seed}: the model saved, and what was saved loaded and saved again, gens times."""
    r = random.Random(case["seed"])
    m = case.get("m") or gen(r, OPS)
    prob = all(b["e"]["k"] != "none" for b in m["basic"])
    f = w.write("m0.xml", present(m, r))
    evs = [dict(e="model", m=m)]
    NONE = dict(t="", a=[], x="", c=[])
    res0 = results(w, f, prob)
    for i in range(case["gens"]):
        rc, err = w.run(["--serialize", f])
        ev = dict(e="saved", rc=rc, err=err[-300:], doc=NONE, same="", res=[res0, ""])
        evs.append(ev)
        if rc:
            break
        data = open(w.path("stdout"), "rb").read()
        try:
            root = ET.fromstring(data)
        except ET.ParseError as x:
            ev.update(rc=98, err=str(x))
            break
        ev["doc"], ev["same"] = doc(root), digest(data)
        f = w.path("m%d.xml" % (i + 1))
        open(f, "wb").write(data)
        ev["res"] = [res0, results(w, f, prob)]
    return evs
