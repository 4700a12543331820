"""Models with common-cause groups, and the recording of their analyses (events of CcfTrace.tla)."""
import itertools, random, re
import expr, ft, ftrec, quantrec, sc
from expr import c, op, MT

MODELS = ["beta-factor", "MGL", "alpha-factor", "phi-factor"]


def levels(model, m, L):
    return [m] if model == "beta-factor" else list(range(2 if model == "MGL" else 1, L + 1))


def factors(r, model, lv, npar, rand):
    """Legal factor expressions for the levels lv."""
    def fx(v):
        k = r.random()
        if k < .15:
            return op("mul", c(v), c("1"))
        if k < .25 and npar:
            return op("mul", c(v), op("sub", c("1"), op("mul", c("0"), expr.par(r.randint(1, npar)))))
        return c(v)
    if model in ("beta-factor", "MGL"):
        return [fx(r.choice(["0", "1", "0.5"]) if r.random() < .12 else expr.dec(r)) for _ in lv]
    if model == "alpha-factor":
        while True:
            vs = [r.choice(["0", "1"]) if r.random() < .15 else expr.dec(r) for _ in lv]
            if any(float(v) for v in vs):
                return [fx(v) for v in vs]
    # phi: the values add up to one
    n = 10 ** r.choice([1, 2, 4])
    cut = sorted(r.randint(0, n) for _ in lv[1:])
    vs = [b - a for a, b in zip([0] + cut, cut + [n])]
    d = len(str(n)) - 1
    return [fx("%.*f" % (d, v / n)) for v in vs]


def gen_group(r, mem, npar, time=False, L=None):
    model = r.choice(MODELS)
    m = len(mem)
    L = L or r.randint(2 if model == "MGL" else 1, m)
    lv = levels(model, m, L)
    fs = factors(r, model, lv, npar, False)
    if time and r.random() < .6:
        q = quantrec.time_expr(r, npar)
    else:
        q = c(quantrec.const_p(r))
    form = r.random()
    if form < .4:
        f = [dict(lv=0, x=x) for x in fs]
    elif form < .7:
        f = [dict(lv=k, x=x) for k, x in zip(lv, fs)]
        if r.random() < .5:
            r.shuffle(f)
    else:   # a first level given, the rest follow
        f = [dict(lv=k if (i == 0 or r.random() < .5) else 0, x=x) for i, (k, x) in enumerate(zip(lv, fs))]
    return dict(model=model, mem=mem, q=q, f=f)


def nvars(n, groups):
    free = n - sum(len(g["mem"]) for g in groups)
    return free + sum(len(events(g)) for g in groups)


def max_level(g):
    if g["model"] == "beta-factor":
        return len(g["mem"])
    return len(g["f"]) + (1 if g["model"] == "MGL" else 0)


def events(g):
    m = len(g["mem"])
    lv = [1, m] if g["model"] == "beta-factor" else range(1, min(max_level(g), m) + 1)
    return [s for k in lv for s in itertools.combinations(g["mem"], k)]


def variables(n, groups, ccf):
    if not ccf:
        return [dict(g=0, s=[b]) for b in range(1, n + 1)]
    inside = {b for g in groups for b in g["mem"]}
    out = [dict(g=0, s=[b]) for b in range(1, n + 1) if b not in inside]
    for j, g in enumerate(groups, 1):
        out += [dict(g=j, s=sorted(s)) for s in events(g)]
    return out


def gen_model(case):
    r = random.Random(case["seed"])
    time = case.get("time")
    maxv = case.get("maxv", 10)
    while True:
        n = r.randint(2, 6)
        t = ft.gen(r, n=n, ng=r.randint(1, 7)) if r.random() < .7 else ft.gen(r, **({"n": n, "ng": 2} if n < 4 else {"n": n}))
        n = t.n
        par = [c("%de-4" % r.randint(1, 90))] if r.random() < .3 else []
        ev = list(range(1, n + 1))
        r.shuffle(ev)
        groups = []
        for _ in range(r.choice([1, 1, 1, 2])):
            m = r.choice([2, 2, 3, 3, 4, 5])
            if len(ev) < m:
                continue
            mem, ev = ev[:m], ev[m:]
            groups.append(gen_group(r, mem, len(par), time))
        if groups and nvars(n, groups) <= maxv:
            break
    P = [quantrec.time_expr(r, len(par)) if time and r.random() < .6 else c(quantrec.const_p(r)) for _ in range(n)]
    if case.get("bad"):
        corrupt(r, groups[r.randrange(len(groups))], case["bad"])
    return t, P, par, groups


BAD = ["level-low", "level-high", "level-twice", "level-gap", "factor", "dist", "phi", "alpha", "single", "edge", "dup"]


def corrupt(r, g, kind):
    """Make a group (probably) illegal."""
    m = len(g["mem"])
    f = g["f"]
    j = r.randrange(len(f))
    if kind == "level-low":
        f[j]["lv"] = 1 if g["model"] in ("MGL", "beta-factor") else 0
        if g["model"] == "beta-factor":
            f[j]["lv"] = r.randint(1, m)
    elif kind == "level-high":
        if r.random() < .5:
            f[-1]["lv"] = m + 1
        else:
            while len(f) < m + 2:
                f.append(dict(lv=0, x=c("0")))
    elif kind == "level-twice":
        f.append(dict(f[j]))
    elif kind == "level-gap":
        if len(f) > 1:
            x = f.pop(j)
        else:
            f[0]["lv"] = m
    elif kind == "factor":
        f[j]["x"] = r.choice([c("-0.1"), c("1.001"), c("2"), op("uniform-deviate", c("0.1"), c("1.5")),
                              op("normal-deviate", c("0.5"), c("0.1")), op("normal-deviate", c("0.1"), c("0.1"))])
    elif kind == "dist":
        g["q"] = r.choice([c("-0.1"), c("1.5"), op("uniform-deviate", c("0.5"), c("1.5")), op("lognormal-deviate", c("0.5"), c("10"), c("0.95"))])
    elif kind == "phi":
        f[j]["x"] = r.choice([c("0.3"), op("add", f[j]["x"], c(r.choice(["1e-5", "5e-5", "2e-4", "1e-3"]))),
                              op("sub", f[j]["x"], c(r.choice(["1e-5", "5e-5", "2e-4"]))),
                              op("mul", f[j]["x"], op("uniform-deviate", c("0.5"), c("1.5")))])
    elif kind == "alpha":
        for x in f:
            x["x"] = c(r.choice(["0", "0.0"]))
        if r.random() < .3:
            f[j]["x"] = c("1e-9")
    elif kind == "single":
        g["mem"] = g["mem"][:1]
    elif kind == "edge":
        f[j]["x"] = r.choice([c("0"), c("1"), op("uniform-deviate", c("0"), c("1"))])
    elif kind == "dup":
        g["mem"] = g["mem"] + [g["mem"][0]]


def group_xml(t, j, g, r):
    mem = "".join('<basic-event name="%s"/>' % t.bname[b - 1] for b in g["mem"])
    # a sequence of factors, or single factor elements
    fs = "".join("<factor%s>%s</factor>" % (' level="%d"' % f["lv"] if f["lv"] else "", expr.xml(f["x"])) for f in g["f"])
    if len(g["f"]) > 1 or r.random() < .5:
        fs = "<factors>%s</factors>" % fs
    dist = "<distribution>%s</distribution>" % expr.xml(g["q"])
    lab = "<label>group %d</label>" % j if r.random() < .2 else ""
    return '<define-CCF-group name="C%d" model="%s">%s<members>%s</members>%s%s</define-CCF-group>' % (j, g["model"], lab, mem, dist, fs)


def render(t, P, par, groups, r):
    inside = {b for g in groups for b in g["mem"]}
    data = [x for i, x in enumerate(t.data_xml([expr.xml(p) for p in P])) if i + 1 not in inside]
    gx = t.gates_xml(r)
    md = ['<define-parameter name="p%d">%s</define-parameter>' % (i, expr.xml(x)) for i, x in enumerate(par, 1)]
    comp, top = [], []
    for j, g in enumerate(groups, 1):
        x = group_xml(t, j, g, r)
        k = r.random()
        if k < .4:
            gx.insert(r.randint(0, len(gx)), x)
        elif k < .55:
            comp.append('<define-component name="K%d">%s</define-component>' % (j, x))
        else:
            top.append(x)
    for x in data:
        (md if r.random() < .7 else gx).append(x)
    r.shuffle(md)
    parts = ['<define-fault-tree name="FT">%s%s</define-fault-tree>' % ("".join(gx), "".join(comp)),
             "<model-data>%s</model-data>" % "".join(md)] + top
    r.shuffle(parts)
    return '<?xml version="1.0"?>\n<opsa-mef>%s</opsa-mef>\n' % "".join(parts)


def rec(w, case):
    """case: {seed, time, bad, maxv, runs: [kwargs of quantrec.run with ccf]}"""
    t, P, par, groups = gen_model(case)
    r = random.Random("x%s" % case["seed"])
    f = w.write("m.xml", render(t, P, par, groups, r))
    m = dict(t.json(), P=P, par=par, groups=groups)
    tr = []
    for k in case["runs"]:
        ccf = k["ccf"]
        vs = variables(t.n, groups, ccf)
        idx = {(v["g"], tuple(v["s"])): i for i, v in enumerate(vs, 1)}
        sizes = set()

        def key(x):
            if x.tag == "basic-event":
                return idx[(0, (t.bname.index(x.get("name")) + 1,))]
            g = int(re.sub(r".*C", "", x.get("ccf-group")))
            s = tuple(sorted(t.bname.index(b.get("name")) + 1 for b in x.findall("basic-event")))
            sizes.add((g, int(x.get("order")), int(x.get("group-size")), len(s)))
            return idx[(g, s)]
        ev = quantrec.run(w, t, f, key=key, **k)
        ok = ev["rc"] == 0
        tr.append(dict(e="ccf", m=m, ccf=ccf, vars=vs if ok else [], mt=ev["mt"], rc=ev["rc"], sizes=[list(x) for x in sorted(sizes)], err=ev["err"]))
        if ok:
            tr.append(ev)
    return tr
