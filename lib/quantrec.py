"""Recording quantitative analyses (events of QuantTrace.tla)."""
import math, random
import expr, ft, ftrec, sc
from expr import c, op, MT


def num(s, bad):
    try:
        v = float(s)
    except (TypeError, ValueError):
        v = math.nan
    if not math.isfinite(v):
        bad.append(str(s))
        return "0"
    return s


def const_p(r):
    x = r.random()
    if x < .06:
        return "0"
    if x < .12:
        return "1"
    if x < .16:
        return r.choice(["0.1", "0.01", "1e-3", "0.5"])
    if x < .25:
        return "%de-%d" % (r.randint(1, 9), r.randint(3, 9))
    if x < .5:
        return expr.dec(r, 0, .1)
    return expr.dec(r)


def time_expr(r, npar):
    """A probability expression that may depend on the mission time."""
    k = r.random()
    lam = lambda: c("%d.%de-%d" % (r.randint(1, 9), r.randint(0, 9), r.randint(2, 5)))
    if k < .45:
        return op("exponential", lam(), MT)
    if k < .6:
        return op("GLM", c(expr.dec(r, 0, .3)), lam(), lam(), MT)
    if k < .75:
        return op("Weibull", c(r.randint(200, 3000)), c(r.choice(["1", "2", "0.5", "1.5"])), c(r.choice([0, 5, 20])), MT)
    if k < .85:
        return op("sub", c("1"), op("exp", op("neg", op("mul", lam(), MT))))
    if k < .9 and npar:
        return op("exponential", op("abs", expr.par(r.randint(1, npar))), MT)
    return op("exponential", lam(), op("add", MT, c("10")))


def gen_model(case):
    r = random.Random(case["seed"])
    g = dict(case.get("gen", {}))
    if "m" in case:
        m = case["m"]
        t = ft.FT(m["N"], m["H"], m["G"])
    else:
        t = ft.gen(r, **g)
    par, P = [], []
    if case.get("time"):
        for _ in range(r.choice([0, 0, 1, 2])):
            par.append(r.choice([c("%de-4" % r.randint(1, 90)), op("mul", c("1e-5"), c(str(r.randint(1, 99))))]))
        share = r.choice([.75, .75, 1, .2])
        for _ in range(t.n):
            P.append(time_expr(r, len(par)) if r.random() < share else
                     c(const_p(r)) if r.random() < .7 else c(r.choice(["0", "0.1", "0.01", "1e-3", "1e-4", "1e-5"])))
    else:
        ps = case.get("probs")
        for i in range(t.n):
            P.append(c(ps[i] if ps else const_p(r)))
    return t, P, par


def render(t, P, par, rnd=None):
    ps = [expr.xml(x) for x in P]
    extra = "".join('<define-parameter name="p%d">%s</define-parameter>' % (i, expr.xml(x)) for i, x in enumerate(par, 1))
    return t.xml(probs=ps, rnd=rnd, extra="<model-data>%s</model-data>" % extra if extra else "")


def bins(h, bad):
    return [dict(v=num(b.get("value"), bad), lo=num(b.get("lower-bound"), bad), hi=num(b.get("upper-bound"), bad))
            for b in h.findall("bin")]


def collect(results, ident, key):
    """The results of a report, merged over its elements.  ident(elem): identifying fields of a result;
    key(elem): variable number of a basic event element."""
    res = {}

    def of(s):
        i = ident(s)
        k = repr(sorted(i.items()))
        if k not in res:   # a sum-of-products begins every result
            res[k] = dict(i, p="0", prods=[], adj=False, imp=[], nimp=0, curve=[], sil=[], np=-1, ne=-1, dist=[], ord=[],
                          warn="", bad=["no sum-of-products"])
        return res[k]
    out = []
    for s in results.iter("sum-of-products"):
        bad = []
        prods = []
        for p in s.findall("product"):
            pos, neg = [], []
            for x in p:
                (neg if x.tag == "not" else pos).append(key(x[0] if x.tag == "not" else x))
            con = p.get("contribution")
            prods.append(dict(c=[ftrec.mask(pos), ftrec.mask(neg)], p=num(p.get("probability", "0"), bad),
                              r="" if con is None else num(con, bad)))
        r = of(s)
        if r["np"] >= 0:   # a second result of the same name
            r = dict(r)
        r.update(p=num(s.get("probability", "0"), bad), prods=prods, adj="adjusted to 1" in s.get("warning", ""),
                 np=int(s.get("products")), ne=int(s.get("basic-events")), dist=[int(x) for x in s.get("distribution", "").split()],
                 ord=[int(p.get("order")) for p in s.findall("product")], bad=bad,
                 warn="; ".join(x for x in s.get("warning", "").split("; ") if x.startswith("The set")))
        out.append(r)
    for s in results.iter("importance"):
        r = of(s)
        r["nimp"] = int(s.get("basic-events"))
        for b in s:
            if b.tag == "label":
                continue
            r["imp"].append(dict(v=key(b), occ=int(b.get("occurrence")), p=num(b.get("probability"), r["bad"]),
                                 **{k.lower(): num(b.get(k), r["bad"]) for k in ("MIF", "CIF", "DIF", "RAW", "RRW")}))
    for s in results.iter("curve"):
        r = of(s)
        r["curve"] = [[num(p.get("X"), r["bad"]), num(p.get("Y"), r["bad"])] for p in s.findall("point")]
    for s in results.iter("safety-integrity-levels"):
        r = of(s)
        h = s.findall("histogram")
        r["sil"] = [dict(pfdavg=num(s.get("PFD-avg"), r["bad"]), pfhavg=num(s.get("PFH-avg"), r["bad"]),
                         pfd=bins(h[0], r["bad"]), pfh=bins(h[1], r["bad"]))]
    return out + [r for r in res.values() if r["np"] < 0]


def top_events(t, root, key=None):
    bidx = {n: i for i, n in enumerate(t.bname, 1)}
    return collect(root.find("results"), lambda s: dict(g=t.gname.index(s.get("name")) + 1), key or (lambda x: bidx[x.get("name")]))


def run(w, t, f, alg="bdd", approx="none", lim=20, pi=False, imp=False, mt="8760", step="0", sil=False,
        ccf=None, key=None):
    out = w.path("o.xml")
    args = ["--" + alg, "--probability", "-l", lim, "--mission-time", mt, "-o", out]
    if approx == "rare-event":
        args.append("--rare-event")
    elif approx == "mcub":
        args.append("--mcub")
    if pi:
        args.append("--prime-implicants")
    if imp:
        args.append("--importance")
    if float(step):
        args += ["--time-step", step]
    if sil:
        args.append("--sil")
    if ccf:
        args.append("--ccf")
    if alg != "bdd" and approx == "none":   # only the library interface (and the GUI) can ask for this combination
        args = ["@api", "algorithm=" + alg, "approximation=none", "probability=1", "importance=%d" % imp,
                "limit=%d" % lim, "mission=" + mt, "step=" + step, "sil=%d" % sil] + (["ccf=1"] if ccf else []) + ["--", out]
    rc, err = w.run(args + [f])
    ev = dict(e="quant", alg=alg, approx=approx, limited=lim < 20, lim=lim, pi=pi, imp=imp, mt=mt, step=step, sil=sil, rc=rc, tops=[],
              err=err[-300:])
    if rc == 0:
        ev["tops"] = top_events(t, sc.parse_report(out), key)
    return ev


def rec(w, case):
    """case: {seed, gen | m, probs, time, runs: [kwargs of run]}"""
    t, P, par = gen_model(case)
    r = random.Random("x%s" % case["seed"])
    f = w.write("m.xml", render(t, P, par, r))
    tr = [dict(e="load", m=dict(t.json(), P=P, par=par))]
    for k in case["runs"]:
        tr.append(run(w, t, f, **k))
    return tr
