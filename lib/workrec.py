"""Recording analyses in the editor's window (events of WorkTrace.tla)."""
import os, random, re
import ftrec, guirec, quantrec, sc, winrec
from expr import c, op, MT
from quantrec import num

CONN = ["and", "or", "and", "or", "atleast", "xor", "not", "nand", "nor", "null"]


def prob(r):
    x = r.random()
    if x < .3:
        return "x:%d.%de-%d,8760" % (r.randint(1, 9), r.randint(0, 9), r.randint(4, 6)) if r.random() < .4 else "x:%d.%de-%d,%d" % (
            r.randint(1, 9), r.randint(0, 9), r.randint(2, 5), r.choice([10, 100, 8760]))
    return "c:" + (r.choice(["0", "1", "0.5", "0.1", "1e-5", "0.01"]) if x < .5 else "%.6g" % r.random())


def element(i, kind, **kw):
    return dict(dict(id=i, kind=kind, label="", flavor="Basic" if kind == "basic" else "", expr="none" if kind == "basic" else "", state=False,
                     conn="", min=0, args=[], ft="", attrs=[]), **kw)


def document(r):
    """A document of one or two trees; every tree has one top gate."""
    n, nh = r.choice([2, 3, 4, 5, 5, 6, 6]), r.choice([0, 0, 1, 2])
    coherent = r.random() < .65
    els = [element("e%d" % i, "basic", flavor=r.choice(["Basic", "Undeveloped"]), expr="none" if r.random() < .05 else prob(r)) for i in range(1, n + 1)]
    els += [element("h%d" % i, "house", state=r.random() < .5) for i in range(1, nh + 1)]
    leaves = [e["id"] for e in els]
    # house events are rare arguments
    leaves = leaves[:n] * 2 + leaves[n:]
    trees, below = [], []
    for t in ["F", "G"][:r.choice([1, 1, 2])]:
        mine, free = [], []
        ng = r.choice([1, 2, 3, 4, 5, 6])
        for j in range(1, ng + 1):
            i = "%s%d" % (t.lower(), j)
            args = list(free) if j == ng else r.sample(free, min(len(free), r.choice([0, 1, 2])))
            pool = [x for x in leaves + leaves + leaves[:n] + mine + below if x not in args]
            while pool and (len(args) < 2 or r.random() < .5) and len(args) < 5:
                x = r.choice(pool)
                pool = [y for y in pool if y != x]
                args.append(x)
            conn = r.choice(["and", "or", "and", "or", "atleast"] if coherent else CONN)
            if j == ng and r.random() < .5:
                conn = r.choice(["or", "or", "atleast"])
            if conn in ("not", "null") and j < ng:
                args = args[:1]
            elif conn in ("not", "null") or (conn == "xor" and len(args) != 2) or (conn == "atleast" and len(args) < 3):
                conn = r.choice(["and", "or"])
            r.shuffle(args)
            els.append(element(i, "gate", conn=conn, min=r.randint(2, len(args) - 1) if conn == "atleast" else 0, args=args, ft=t))
            mine.append(i)
            free = [x for x in free + [i] if x not in args]
        trees.append(dict(name=t, label=""))
        below += mine
    r.shuffle(els)
    return dict(name=r.choice(["", "M"]), trees=trees, els=els)


class Doc:
    """A document the window shows, as the specification reads it."""

    def __init__(self, m):
        by = {e["id"]: e for e in m["els"]}
        self.basic = sorted(i for i in by if by[i]["kind"] == "basic")
        self.house = sorted(i for i in by if by[i]["kind"] == "house")
        self.gate = []

        def visit(i):
            if i not in self.gate and by[i]["kind"] == "gate":
                for a in by[i]["args"]:
                    visit(a)
                self.gate.append(i)
        for i in sorted(by):
            visit(i)
        num = {i: k for k, i in enumerate(self.basic, 1)}
        num.update({i: 500 + k for k, i in enumerate(self.house, 1)})
        num.update({i: 100 + k for k, i in enumerate(self.gate, 1)})

        def value(x):
            if x["k"] == "none":
                return c("0")
            return c(x["v"]) if x["k"] == "c" else op("exponential", c(x["v"]), MT if x["t"] == "T" else c(x["t"]))
        self.json = dict(N=len(self.basic), H=[by[i]["state"] for i in self.house],
                         G=[dict(o=by[i]["conn"], k=by[i]["min"], m=0, a=[num[a] for a in by[i]["args"]]) for i in self.gate],
                         P=[value(by[i]["expr"]) for i in self.basic], par=[],
                         miss=[k for k, i in enumerate(self.basic, 1) if by[i]["expr"]["k"] == "none"],
                         tops=[self.gate.index(t["top"]) + 1 for t in m["trees"] if t["top"]])
        self.els = m["els"]

    def g(self, name):
        return self.gate.index(name) + 1 if name in self.gate else 0


def literals(doc, text):
    pos, neg = [], []
    for x in text.split(" \u22c5 ") if text else []:
        (neg if x[0] == "\u00ac" else pos).append(doc.basic.index(x.lstrip("\u00ac")) + 1)
    return [ftrec.mask(pos), ftrec.mask(neg)]


def tables(doc, g, row, results):
    """A result as its tables give it."""
    bad = []
    prods, order = [], []
    rows = results[0]["rows"]
    for x in rows:
        order.append(int(x[1]))
        prods.append(dict(c=literals(doc, x[0]), p=num(x[2], bad) if len(x) > 2 else "0", r=num(x[3], bad) if len(x) > 3 else ""))
    if all(float(p["p"]) == 0 for p in prods):
        for p in prods:
            p["r"] = ""
    imp = []
    if len(results) > 2:
        for x in results[2]["rows"]:
            v = dict(zip(("p", "mif", "cif", "dif", "raw", "rrw"), [num(y, bad) for y in x[2:]]))
            imp.append(dict(v, v=doc.basic.index(x[0]) + 1, occ=int(x[1])))
    return dict(g=g, p=row["k"][1] if len(row["k"]) > 1 else "0", prods=prods, ord=order, adj=False, imp=imp, nimp=len(imp), bad=bad)


def inside(t):
    m = re.search(r"\(([^()]*)\)\s*$", t)
    return m.group(1) if m else "?"


GESTURES = ["bdd", "zbdd", "mocus", "primeImplicants", "probability", "importance", "approx", "rareEvent", "mcub"]


def clicks(r):
    gs = []
    if r.random() < .3:
        gs.append(dict(k="order", n=20))
    if r.random() < .15:
        gs += [dict(k="importance")] * r.choice([1, 1, 2])
    for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6])):
        x = r.random()
        if x < .08:
            gs.append(dict(k="order", n=r.choice([0, 1, 2, 2, 3, 20, 20, 99, 120])))
        elif x < .3:
            gs.append(dict(k="time", x=r.choice([1, 10, 100, 8760, 12.5, 5000, 1e6, 0.25e4])))
        else:
            gs.append(dict(k=r.choice(GESTURES + ["importance"])))
    return gs


def dialog_state(s):
    return dict(alg="+".join(a for a in ("bdd", "zbdd", "mocus") if s[a]), pi=s["pi"], prob=s["prob"], imp=s["imp"], box=s["approx"],
                kind="+".join(k for k, x in (("rare-event", "rare"), ("mcub", "mcub")) if s[x]), order=s["order"], time=s["time"])


def edit(r, doc):
    """(request, script) of an edit, mostly one that matters to the results."""
    e = r.choice(doc.els)
    gs = []
    if e["kind"] == "basic":
        gs = [dict(k="hasExpr", n=0)] if r.random() < .1 else [dict(k="hasExpr", n=1), dict(k="etype", n=0), dict(k="const", v="%.4g" % r.random())] \
            if r.random() < .6 else [dict(k="hasExpr", n=1), dict(k="etype", n=1), dict(k="rate", v="%de-%d" % (r.randint(1, 9), r.randint(3, 6)))]
    elif e["kind"] == "house":
        gs = [dict(k="state", n=0 if e["state"] else 1)]
    elif r.random() < .7:
        gs = [dict(k="conn", n=r.choice([0, 1] if len(e["args"]) > 1 else [4, 7]))]
    else:
        gs = [dict(k="addenter", v="n%d" % r.randint(1, 3))]
    if len(doc.basic) > 6 and gs[-1]["k"] == "addenter":
        gs = []
    return dict(c="edit", kind=e["kind"], id=e["id"]), [dict(ok=r.random() < .95, g=gs)]


def create(r, k):
    """The dialogs that make a document of a new one."""
    basic = lambda i: dict(c="add", s=[dict(ok=True, g=[dict(k="name", v="b%d" % i), dict(k="type", n=r.choice([1, 2])), dict(k="etype", n=r.randrange(2))]
                                            + [dict(k="const", v="%.3g" % r.random()), dict(k="rate", v="%de-4" % r.randint(1, 9))])])
    out = [basic(i) for i in range(1, k + 1)]
    out.append(dict(c="add", s=[dict(ok=True, g=[dict(k="name", v="top"), dict(k="type", n=3), dict(k="ft", v="T")] +
                                     [dict(k="addenter", v="b%d" % i) for i in range(1, k + 1)] + [dict(k="conn", n=r.choice([0, 1]))])]))
    return out


def rec(w, case):
    """case: {seed, len} or {clicks: [[gestures of one dialog] ...]}"""
    w = winrec.WinWorker(base=os.path.dirname(w.dir))
    try:
        return session(w, case)
    finally:
        w.close()


def session(w, case):
    r = random.Random(case["seed"])
    evs = [dict(e="begin")]
    docs = [document(r) for _ in range(2)]
    paths = []
    for k, d in enumerate(docs):
        paths.append(w.path("m%d.xml" % k))
        with open(paths[-1], "w") as f:
            f.write(guirec.model_xml(d))
    st = dict(doc=None, last=None, rows=[])

    def ask(ev, c, s=(), **kw):
        """One request; None ends the session."""
        a = w.ask(c=c, s=list(s), **kw)
        ev.update(gone=a is None, err=a["err"] if a else "")
        if a is not None and not a["err"] and "modified" not in a:
            ev["err"] = "nothing shown"
        evs.append(ev)
        return a if a and not ev["err"] else None

    def look(ev, a):
        if "model" not in a:
            st["doc"] = None
            return
        d = st["doc"] = Doc(winrec.model(a["model"], ""))
        pr = {x["c"][0]: x["c"][2] for x in a["tables"]["basic"]}
        num = lambda t: winrec.canon(t)
        ev.update(pr=[num(pr.get(i, "?")) for i in d.basic], hasReport=a["hasReport"], on=a["on"], m=d.json,
                  tabs=sum(1 for t in a["tabs"] if t.startswith(("Products:", "Importance:"))))
        st["rows"] = [dict(g=d.g(x["c"][0]), k=[inside(y["c"][0]) for y in x["k"]]) for x in a["report"]]
        st["last"] = a["index"], a["count"], a["model"]

    def change(c, s=(), fresh=False, **kw):
        before = st["last"]
        a = ask(ev := dict(e="doc", fresh=fresh), c, s, **kw)
        if a is None:
            return False
        look(ev, a)
        if st["doc"] is None or (not fresh and st["last"] == before):
            evs.pop()      # nothing happened
        return True

    def settings(gs, ok):
        a = ask(ev := dict(e="settings", ok=ok), "settings", [dict(ok=ok, g=gs)])
        if a is None:
            return False
        d = a["dialogs"][0] if len(a["dialogs"]) == 1 and a["dialogs"][0]["d"] == "settings" else None
        if d is None:
            ev["err"] = "no dialog of the settings"
            return False
        full = lambda g: dict(k=g["k"], n=g.get("n", 0), x=repr(float(g.get("x", 0))))
        ev.update(open=dialog_state(d["open"]), steps=[dict(g=full(g), d=dialog_state(x)) for g, x in zip(gs, d["steps"])])
        look(ev, a)
        return True

    if ask(ev := dict(e="begin"), "start") is None:
        ev["e"] = "doc"
        return evs
    evs.pop()
    if "clicks" in case:
        if not change("open", [dict(files=paths[:1])], fresh=True):
            return evs
        for log in case["clicks"]:
            for gs in log:
                if not settings([dict(k=k) for k in gs], True):
                    return evs
            back = dialog_state_back(evs[-1])
            if not settings(back, True):
                return evs
        return evs
    if r.random() < .25:
        bad = r.choice(["", "", "", "", "file", "model", "options"])
        s, text = project(r, paths[0])
        if bad == "model":
            text = text.replace("m0.xml", "none.xml")
        if bad == "options":
            text = text.replace("<limits>", "<limits><none/>")
        if bad != "file":
            with open(w.path("project.xml"), "w") as f:
                f.write(text)
        # an analysis of probabilities needs them
        bad = bad or (s["prob"] and any(e["kind"] == "basic" and e["expr"] == "none" for e in docs[0]["els"]))
        a = ask(ev := dict(e="project", bad=bool(bad), set=s), "project", [dict()], file=w.path("project.xml"))
        if a is None:
            if not ev["gone"] and bad:      # the program says so and ends
                ev.update(err="", taken=False, critical=True, has=False)
            return evs
        look(ev, a)
        ev.update(taken=a["taken"], critical=any(x["d"] == "message" and x["icon"] == "critical" for x in a["dialogs"]), has=st["doc"] is not None)
    for k in range(case["len"]):
        d = st["doc"]
        what = "open" if d is None else r.choice("settings settings run run run results results results results results export edit edit undo redo open open open new".split())
        if d is None and r.random() < .15:
            what = "new"
        has = d is not None and bool(st["rows"])
        if what in ("open", "new"):
            if d is not None and r.random() < .6:
                continue
            if d is None and r.random() < .3 and not settings(clicks(r), True):
                return evs
            # what is open is dropped; opening adds to it
            ok = change("new", [dict(b="Discard")], fresh=True) and (what == "new" or change("open", [dict(files=[r.choice(paths)])], fresh=True))
            if ok and what == "new":
                for x in create(r, r.choice([2, 3])):
                    ok = ok and change(x["c"], x["s"])
        elif what == "settings":
            ok = settings(clicks(r), r.random() < .85)
        elif what == "edit" and d.els:
            req, s = edit(r, d)
            ok = change(req.pop("c"), s, **req)
        elif what in ("undo", "redo"):
            ok = change(what)
        elif what == "run":
            before = d.json
            a = ask(ev := dict(e="run"), "run", [dict()])
            ok = a is not None
            if ok:
                look(ev, a)
                ev.update(critical=any(x["d"] == "message" and x["icon"] == "critical" for x in a["dialogs"]), same=before == st["doc"].json, rows=st["rows"])
        elif what == "results" and has:
            n = r.randrange(len(st["rows"]))
            a = ask(ev := dict(e="results"), "results", n=n)
            ok = a is not None
            if ok:
                row, res = st["rows"][n], a["results"]
                ev.update(g=d.g(a["name"]), opened=all(x["opened"] for k, x in enumerate(res) if k != 1), probTable=len(res) > 1 and res[1]["opened"])
                ev["r"] = tables(d, ev["g"], row, res) if ev["opened"] else dict(g=ev["g"])
                if not ev["opened"]:
                    ok = False
        elif what == "export" and has:
            p = w.path("report.xml")
            if os.path.exists(p):
                os.remove(p)
            a = ask(ev := dict(e="export"), "export", [dict(files=[p])])
            ok = a is not None
            if ok:
                ev.update(ok=os.path.exists(p), tops=[], time="0", order="")
                if ev["ok"]:
                    root = sc.parse_report(p)
                    ev["tops"] = quantrec.collect(root.find("results"), lambda s: dict(g=d.g(s.get("name"))), lambda x: d.basic.index(x.get("name")) + 1)
                    ev["time"], ev["order"] = root.findtext(".//mission-time") or "", root.findtext(".//product-order") or ""
        else:
            continue
        if not ok:
            return evs
    return evs


def project(r, path):
    """(settings, text) of a project of one file."""
    alg = r.choice(["bdd", "bdd", "zbdd", "mocus"])
    approx = r.choice(["rare-event", "mcub"] + ["none"] * (2 if alg == "bdd" else 0))
    pi = alg == "bdd" and approx == "none" and r.random() < .4
    imp = r.random() < .5
    prob = imp or r.random() < .6
    s = dict(alg=alg, pi=pi, prob=prob, imp=imp, approx=approx, order=r.choice([1, 2, 3, 20, 20, 20]), time=r.choice(["8760", "10", "12.5", "100"]))
    x = '<algorithm name="%s"/>' % alg + ("<prime-implicants/>" if pi else "") + '<analysis probability="%s" importance="%s"/>' % (
        str(prob).lower(), str(imp).lower()) + ('<approximation name="%s"/>' % approx if approx != "none" else "") \
        + "<limits><product-order>%d</product-order><mission-time>%s</mission-time></limits>" % (s["order"], s["time"])
    return s, '<?xml version="1.0"?>\n<scram><model><file>%s</file></model><options>%s</options></scram>\n' % (path, x)


def dialog_state_back(ev):
    """Clicks that lead back to the first settings."""
    last = ev["steps"][-1]["d"] if ev["steps"] else ev["open"]
    gs = ["bdd"] + (["primeImplicants"] if last["pi"] else []) + (["rareEvent"] if last["box"] else []) + (["approx"] if last["box"] else []) \
        + (["probability"] if last["prob"] else [])
    return [dict(k=k) for k in gs]
