"""Recording one model in many presentations (events of PresentTrace.tla)."""
import glob, hashlib, os, random
import xml.etree.ElementTree as ET
import reprec, sc, xinc

TRUE = 1000000
REPO = "/repo"
DUAL = {"and": "nor", "or": "nand", "nand": "or", "nor": "and"}


def gate(o, a, k=0, m=0):
    return dict(o=o, k=k, m=m, a=list(a))


class Net:
    """N events, gates in an order in which arguments precede their users."""

    def __init__(self, n, gates, probs):
        self.n, self.g, self.p = n, gates, probs

    def roots(self):
        used = {abs(a) for g in self.g for a in g["a"]}
        return [j for j in range(1, len(self.g) + 1) if self.n + j not in used]


def load(path):
    """A model of one fault tree with flat or nested formulas."""
    root = ET.parse(path).getroot()
    ev, defs, probs = {}, {}, []
    for d in root.iter("define-gate"):
        defs[d.get("name")] = [x for x in d if x.tag not in ("label", "attributes")][0]
    for d in root.iter("define-basic-event"):
        ev[d.get("name")] = len(ev) + 1
        f = d.find("float")
        probs.append(f.get("value") if f is not None else None)
    n = len(ev)
    gates, num = [], {}

    def ref(x):
        if x.tag == "not" and x[0].tag not in ("and", "or", "not", "xor", "atleast"):
            return -ref(x[0])
        if x.tag in ("event", "gate", "basic-event"):
            name = x.get("name")
            return ev[name] if name in ev else n + of(name)
        return n + add(x)

    def add(x):
        if x.tag in ("event", "gate", "basic-event"):
            g = gate("null", [ref(x)])
        else:
            g = gate(x.tag, [ref(y) for y in x], int(x.get("min", 0)), int(x.get("max", 0)))
        gates.append(g)
        return len(gates)

    def of(name):
        if name not in num:
            num[name] = None
            num[name] = add(defs[name])
        return num[name]
    import sys
    sys.setrecursionlimit(10000)
    for name in defs:
        of(name)
    return Net(n, gates, probs)


def random_net(r, kind):
    """Trees too large to enumerate."""
    n = r.randint(25, 110)
    ng = r.randint(n // 3, n)
    ops = ["and", "or", "or", "atleast"]
    if kind == "mixed":
        ops += ["xor", "nand", "nor", "not", "iff", "imply", "cardinality"][:r.randint(1, 7)]
    neg = 0 if kind == "coherent" else r.choice([.02, .1])
    span = r.choice([4, 10, 25])
    gates, unused = [], []
    for j in range(1, ng + 1):
        o = r.choice(ops)
        k = {"xor": 2, "iff": 2, "imply": 2, "not": 1}.get(o) or r.randint(3 if o == "atleast" else 2, r.choice([3, 4, 4, 6]))
        last = j == ng
        pool = set()
        if last:
            o, k = r.choice(["and", "or"]), max(2, len(unused))
            pool = set(unused)
        elif unused and r.random() < .5:
            pool.add(unused.pop(r.randrange(len(unused))))
        while len(pool) < k:
            if gates and r.random() < .45:
                pool.add(n + r.randint(max(1, len(gates) - span), len(gates)))
            else:
                pool.add(r.randint(1, n))
        a = sorted(pool)
        r.shuffle(a)
        a = [-x if r.random() < neg and o != "not" else x for x in a]
        kk = r.randint(2, k - 1) if o == "atleast" else r.randint(0, k) if o == "cardinality" else 0
        gates.append(gate(o, a, kk, r.randint(kk, k) if o == "cardinality" else 0))
        used = {abs(x) for x in a}
        unused = [u for u in unused if u not in used] + [n + j]
    seen = {abs(a) for g in gates for a in g["a"]}       # events not used are left out
    ids = {x: i for i, x in enumerate(sorted(x for x in seen if x <= n), 1)}
    m = len(ids)
    for g in gates:
        g["a"] = [(1 if a > 0 else -1) * (ids[abs(a)] if abs(a) <= n else abs(a) - n + m) for a in g["a"]]
    return Net(m, gates, [None] * m)


def rewrite(r, t, rate):
    """Rewritings of Present.tla and the gates that result (cluster gates at the end)."""
    N, G = t.n, t.g
    first = N + len(G) + 1
    out, new = [], [dict(g, a=list(g["a"])) for g in G]
    extra = []
    touched = set()
    for j in range(1, len(G) + 1):
        if r.random() > rate:
            continue
        g = G[j - 1]
        o, a, n = g["o"], g["a"], len(g["a"])
        nxt = first + len(extra)
        wide = n > 5
        rules = ["perm"] if o != "imply" else []
        if o in DUAL:
            rules += ["dual", "invert"]
            if o in ("and", "or") and n > 2:
                rules += ["assoc", "assoc"]
        inl = [abs(x) - N for x in a if x > 0 and N < x < TRUE and G[x - N - 1]["o"] == o and o in ("and", "or")]
        if inl:
            rules += ["inline"]
        if not wide:
            rules += ["wrap"]
            if o in ("xor", "iff", "not", "imply"):
                rules += ["invert", "expand"]
            if o in ("atleast", "cardinality") and n <= 4:
                rules += ["expand", "expand"]
            if o == "atleast":
                rules += ["card"]
            if o in ("and", "or"):
                rules += ["absorb", "neutral"]
            rules += ["clone"] if any(N < abs(x) < TRUE and len(G[abs(x) - N - 1]["a"]) < 5 for x in a) else []
        if not rules:
            continue
        rule = r.choice(rules)
        w, cl = [], None
        sh = lambda x: r.sample(x, len(x))
        if rule == "perm":
            cl = [dict(g, a=sh(a))]
        elif rule == "dual":
            cl = [gate(DUAL[o], [-x for x in a])]
        elif rule == "invert":
            pos = {"nand": "and", "nor": "or", "and": "nand", "or": "nor", "xor": "iff", "iff": "xor", "not": "null"}.get(o)
            if o == "imply":
                cl = [gate("and", [a[0], -a[1]]), gate("not", [nxt])]
            else:
                cl = [gate(pos, a), gate("not", [nxt])]
        elif rule == "assoc":
            s = r.sample(a, r.randint(2, n - 1))
            cl = [gate(o, s), gate(o, [x for x in a if x not in s] + [nxt])]
        elif rule == "inline":
            i = r.choice(inl)
            rest = [x for x in a if x != N + i] + [x for x in G[i - 1]["a"] if x not in a]
            if len({abs(x) for x in rest}) < len(rest) or len(rest) > 12 or len(rest) < 2:
                continue
            w, cl = [i], [gate(o, sh(rest))]
        elif rule == "wrap":
            i = r.randrange(n)
            if r.random() < .5:
                cl = [gate("null", [a[i]]), dict(g, a=[nxt if x == i else a[x] for x in range(n)])]
            elif o == "not":
                cl = [gate("not", [a[0]]), gate("null", [nxt])]
            else:
                cl = [gate("null" if a[i] < 0 else "not", [abs(a[i])]), dict(g, a=[-nxt if x == i else a[x] for x in range(n)])]
        elif rule == "card":
            cl = [gate("cardinality", a, g["k"], n)]
        elif rule == "expand":
            if o == "xor":
                x, y = a
                cl = [gate("and", [x, -y]), gate("and", [-x, y]), gate("or", [nxt, nxt + 1])]
            elif o == "iff":
                x, y = a
                cl = [gate("and", [x, y]), gate("nor", [x, y]), gate("or", [nxt, nxt + 1])]
            elif o == "imply":
                cl = [gate("or", [-a[0], a[1]])]
            elif o == "not":
                cl = [gate("null", [-a[0]])]
            else:
                lo, hi = g["k"], (n if o == "atleast" else g["m"])
                import itertools
                terms = [s for k in range(lo, hi + 1) for s in itertools.combinations(range(n), k)]
                if o == "atleast":
                    terms = [s for s in terms if len(s) == lo]
                    subs = [[a[i] for i in s] for s in terms]
                else:
                    subs = [[a[i] if i in s else -a[i] for i in range(n)] for s in terms]
                if n < 2 or len(subs) < 2 or any(len(s) < 2 for s in subs):
                    continue
                cl = [gate("and", s) for s in subs]
                cl.append(gate("or", [nxt + i for i in range(len(cl))]))
        elif rule == "absorb":
            x = r.choice(a)
            y = r.randint(1, N)
            if abs(x) == y:
                continue
            cl = [gate("and" if o == "or" else "or", [x, y]), gate(o, a + [nxt])]
        elif rule == "neutral":
            if any(abs(x) == TRUE for x in a):
                continue
            cl = [gate(o, sh(a + [TRUE if o == "and" else -TRUE]))]
        elif rule == "clone":
            x = r.choice([x for x in a if N < abs(x) < TRUE and len(G[abs(x) - N - 1]["a"]) < 5])
            i = abs(x) - N
            w = [i]
            cl = [dict(G[i - 1]), dict(g, a=[(nxt if y > 0 else -nxt) if y == x else y for y in a])]
        out.append(dict(g=j, inl=w, first=nxt, c=cl))
        new[j - 1] = cl[-1]
        extra += cl[:-1]
    return out, new + extra


def names(r, t, ng, style):
    """Names of events and of gates."""
    ev = ["e%d" % i for i in range(1, t.n + 1)]
    gs = ["g%d" % j for j in range(1, ng + 1)]
    if style == "shuffled":
        both = ev + gs
        r.shuffle(both)
        return both[:t.n], both[t.n:]
    if style == "new":
        pool = ["%s%s%d" % (r.choice("abxyzABZ_é名"), r.choice(["", "q", "_", "-"]), i) for i in range(t.n + ng)]
        pool = [p if p[0] != "_" else "u" + p for p in pool]
        r.shuffle(pool)
        return pool[:t.n], pool[t.n:]
    return ev, gs


OPX = {"atleast": ' min="%(k)d"', "cardinality": ' min="%(k)d" max="%(m)d"'}


def render(r, t, gates, ev, gs, plain, files):
    """The texts of the files."""
    n = t.n
    kind = lambda b: "basic-event" if b <= n else "gate"

    def arg(a):
        b = abs(a)
        if b == TRUE:
            return '<constant value="%s"/>' % ("true" if a > 0 else "false")
        nm = ev[b - 1] if b <= n else gs[b - n - 1]
        f = 0 if plain else r.randrange(3)
        s = ('<%s name="%s"/>' % (kind(b), nm), '<event name="%s"/>' % nm, '<event name="%s" type="%s"/>' % (nm, kind(b)))[f]
        return "<not>%s</not>" % s if a < 0 else s

    def formula(g):
        s = "".join(map(arg, g["a"]))
        return s if g["o"] == "null" else "<%s%s>%s</%s>" % (g["o"], OPX.get(g["o"], "") % g, s, g["o"])
    live, todo = set(), [n + j for j in t.roots()]      # gates nothing refers to are left out
    while todo:
        x = todo.pop()
        if n < x < TRUE and x not in live:
            live.add(x)
            todo += [abs(a) for a in gates[x - n - 1]["a"]]
    gx = ['<define-gate name="%s">%s</define-gate>' % (gs[j], formula(g)) for j, g in enumerate(gates) if n + j + 1 in live]
    dx = ['<define-basic-event name="%s">%s</define-basic-event>' % (ev[i], '<float value="%s"/>' % t.p[i] if t.p[i] else "") for i in range(n)]
    if not plain:
        r.shuffle(gx)
        r.shuffle(dx)
    ft, tops = list(gx), []
    if not plain and r.random() < .5:      # some definitions inside of the fault tree, some in components
        k = r.randint(0, len(dx))
        ft += dx[:k]
        dx = dx[k:]
        r.shuffle(ft)
        if r.random() < .5:
            k = r.randint(1, len(ft))
            ft = ft[k:] + ['<define-component name="Comp">%s</define-component>' % "".join(ft[:k])]
            r.shuffle(ft)
    tops.append('<define-fault-tree name="%s">%s</define-fault-tree>' % ("FT" if plain else r.choice(["FT", "e1", "Дерево"]), "".join(ft)))
    while dx:
        k = len(dx) if plain else r.randint(1, len(dx))
        tops.append("<model-data>%s</model-data>" % "".join(dx[:k]))
        dx = dx[k:]
    if not plain:
        r.shuffle(tops)
    parts = [[] for _ in range(files)]
    for x in tops:
        r.choice(parts).append(x)
    return ['<?xml version="1.0"?>\n<opsa-mef>%s</opsa-mef>\n' % "".join(p) for p in parts]


def number(s):
    try:
        v = float(s)
    except (TypeError, ValueError):
        return "?"
    return s if v - v == 0 else "?"


def results(path, evn, gtn):
    root = sc.parse_report(path).find("results")
    tops = {}
    for s in root.iter("sum-of-products"):
        ps = []
        for p in s.findall("product"):
            ps.append(tuple(sorted((-evn[c[0].get("name")] if c.tag == "not" else evn[c.get("name")]) for c in p)))
        ps.sort()
        tops[s.get("name")] = dict(g=gtn[s.get("name")], np=int(s.get("products")), ne=int(s.get("basic-events")),
                                   dist=[int(x) for x in s.get("distribution", "").split()],
                                   dig=hashlib.sha1(repr(ps).encode()).hexdigest()[:16], some=ps, p=number(s.get("probability", "0")), imp=[])
    for s in root.iter("importance"):
        tops[s.get("name")]["imp"] = sorted(([evn[b.get("name")], int(b.get("occurrence"))] + [number(b.get(k)) for k in ("MIF", "CIF", "DIF", "RAW", "RRW")]
                                             for b in s if b.tag != "label"), key=lambda x: x[0])
    return list(tops.values())


def base(case):
    r = random.Random("b%s" % case["seed"])
    if "file" in case:
        t = load(REPO + "/input/" + case["file"])
    else:
        t = random_net(r, case["kind"])
    t.p = [("%.3g" % (10 ** -r.uniform(.5, 4)) if p is None or r.random() < .5 else p) for p in t.p]
    return t


def rec(w, case):
    """case: {seed, file | kind, cap, runs}: one model in several presentations with several algorithms."""
    r = random.Random("p%s" % case["seed"])
    t = base(case)
    coherent = all(g["o"] in ("and", "or", "atleast", "null") and all(a > 0 for a in g["a"]) for g in t.g)
    trace = [dict(e="base", N=t.n, G=t.g, roots=t.roots(), coherent=coherent)]
    slow = set()
    pres = {}

    def presentation(k):
        if k not in pres:
            rr = random.Random("%s/%d" % (case["seed"], k))
            rw, gates = ([], t.g) if k == 0 or rr.random() < .25 else rewrite(rr, t, rr.choice([.1, .4, .8]))
            ev, gs = names(rr, t, len(gates), "plain" if k == 0 else rr.choice(["plain", "shuffled", "shuffled", "new"]))
            nf = 1 if k == 0 else rr.choice([1, 1, 2, 3])
            ts = [("p%d_%d.xml" % (k, i), x) for i, x in enumerate(render(rr, t, gates, ev, gs, k == 0, nf))]
            if k and rr.random() < .3:
                ts = xinc.split(w, ts, rr, .3 if len(gates) < 50 else .05, tag="inc%d_" % k)
            fs = [w.write(n, x) for n, x in ts]
            rr.shuffle(fs)
            pres[k] = (fs, {x: i for i, x in enumerate(ev, 1)}, {x: j for j, x in enumerate(gs, 1)})
            trace.append(dict(e="present", rw=rw))
        return pres[k]

    def run(q, k):
        fs, evn, gtn = presentation(k)
        out = w.path("o.xml")
        if os.path.exists(out):
            os.unlink(out)
        a = ["--" + q["alg"], "-l", q["lim"], "-o", out] + (["--prime-implicants"] if q["pi"] else [])
        a += ["--probability"] * (q["ap"] != "-") + ["--importance"] * q["imp"] + ["--" + q["ap"]] * (q["ap"] in ("mcub", "rare-event"))
        rc, err = w.run(a + fs, timeout=case.get("timeout", 5))
        name = "l%s %s %s%s" % (q["lim"], q["ap"], "pi" if q["pi"] else "mcs", " imp" if q["imp"] else "")
        ev = dict(e="run", q=name, alg=q["alg"], exact=q["ap"] == "exact", rc=rc, err=err[-200:], tops=[])
        if rc == 0:
            ev["tops"] = results(out, evn, gtn)
        else:
            if rc == -14:
                slow.add((q["alg"], q["ap"], q["pi"]))
        return ev
    lim = case.get("lim", 6)
    best = None
    while lim > 0:
        q = dict(alg="zbdd", lim=lim, pi=False, ap="-", imp=False)
        ev = run(q, 0)
        if ev["rc"] == 0 and max(x["np"] for x in ev["tops"]) <= case["cap"]:
            best = ev
            break
        if ev["rc"] not in (0, -14):
            best = ev
            break
        lim -= 1 if ev["rc"] == 0 else 2
    slow.clear()
    if best is None:
        return trace
    for x in best["tops"]:     # some products, judged by the meaning of the model
        x["some"] = [list(p) for p in r.sample(x["some"], min(len(x["some"]), 3 if len(t.g) < 200 else 1))]
    trace.append(best)
    few = best["rc"] == 0 and max(x["np"] for x in best["tops"]) <= 3000
    qs = [dict(lim=lim, pi=False, ap="-", imp=False)]
    for _ in range(case.get("questions", 2)):
        ap = r.choice(["exact", "rare-event", "mcub", "exact"])
        qs.append(dict(lim=lim, pi=not coherent and ap == "exact" and r.random() < .4, ap=ap, imp=few and r.random() < .5))
    n = 0
    for i in range(case["runs"]):
        q = dict(r.choice(qs) if i >= len(qs) else qs[i])
        q["alg"] = "bdd" if q["ap"] == "exact" or q["pi"] else r.choice(["bdd", "zbdd", "mocus"])
        if (q["alg"], q["ap"], q["pi"]) in slow:
            continue
        ev = run(q, r.choice([0, 1, 2, 3, 4]))
        for x in ev["tops"]:
            x["some"] = []
        trace.append(ev)
    return trace


def rec_whole(w, case):
    """case: {seed, runs}: a source of every construct in several presentations."""
    import copy
    import srcgen
    r = random.Random("w%s" % case["seed"])
    m = srcgen.gen(dict(seed=case["seed"], kind="all", mut=0, wild=0))
    m["name"] = "M"

    def state(x):
        if x.get("k") == "set":
            x["v"] = r.choice(["true", "false"])
    srcgen.walk(m, state)
    trace = [dict(e="whole", seed=str(case["seed"]))]
    qs = [r.choice([("exact", []), ("rare-event", ["--rare-event"]), ("mcub", ["--mcub"])]) for _ in range(2)]
    extra = (["--ccf"] if r.random() < .5 else []) + (["--importance"] if r.random() < .6 else []) + (["--mission-time", "100"] if r.random() < .3 else [])
    for i in range(case["runs"]):
        name, a = qs[i % 2]
        alg = "bdd" if name == "exact" else r.choice(["bdd", "zbdd", "mocus"])
        m2, back = m, {}
        if i and r.random() < .6:
            m2 = copy.deepcopy(m)
            to = reprec.rename(m2, r)
            back = {v: k for k, v in to.items()}
            if len(set(to.values()) & set(all_names(m))) > 0:      # would merge two names
                m2, back = m, {}
        nf = r.choice([1, 2, 3]) if i else 1
        ts = [("w%d_%s" % (i, n), x) for n, x in srcgen.present(m2, random.Random("%s/%d" % (case["seed"], i)), nf)]
        if i and r.random() < .3:
            ts = xinc.split(w, ts, r)
        fs = [w.write(n, x) for n, x in ts]
        r.shuffle(fs)
        out = w.path("o.xml")
        if os.path.exists(out):
            os.unlink(out)
        rc, err = w.run(["--" + alg, "--probability", "-o", out] + a + extra + fs)
        ev = dict(e="result", q=name + (" " + alg if m["sub"] else ""), alg=alg, rc=rc, err=err[-200:], res=[])
        if rc == 0:
            root = sc.parse_report(out)
            for e in root.iter():
                for k in ("name", "initiating-event", "alignment", "phase", "ccf-group"):
                    if e.get(k):
                        e.set(k, ".".join(back.get(x, x) for x in e.get(k).split(".")))
            for y, e in elements(root.find("results")):
                shape, nums = canon(e)
                ev["res"].append(dict(t=e.tag, id=" ".join("%s=%s" % kv for kv in sorted(y.items())),
                                      d=hashlib.sha1(repr(shape).encode()).hexdigest()[:12], n=[number(x) for x in nums]))
            ev["res"].sort(key=lambda x: (x["t"], x["id"], x["d"]))
        trace.append(ev)
    return trace


def all_names(m):
    import srcgen
    out = set()

    def collect(x):
        if isinstance(x.get("n"), str):
            out.add(x["n"])
        for k in ("mem", "fe"):
            if isinstance(x.get(k), list):
                out.update(x[k])
    srcgen.walk(m, collect)
    return out


NUMBERS = ("probability", "contribution", "value", "MIF", "CIF", "DIF", "RAW")


def canon(e):
    """The shape of an element, whatever the order of its parts, and its numbers in the order of the shape."""
    kids = sorted((canon(x) for x in e), key=lambda k: repr(k[0]))
    shape = (e.tag, sorted((k, v) for k, v in e.attrib.items() if k not in NUMBERS + ("RRW",)), (e.text or "").strip(), [k[0] for k in kids])
    return shape, [e.get(k) for k in NUMBERS if k in e.attrib] + [x for k in kids for x in k[1]]


def elements(results):
    for e in results:
        ident = {k: v for k, v in e.attrib.items() if k in ("name", "alignment", "phase", "initiating-event")}
        yield ident, e
