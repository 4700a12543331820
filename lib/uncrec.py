"""Recording uncertainty analyses (events of UncertTrace.tla)."""
import random
from decimal import Decimal
import ccfrec, expr, ft, sc
from expr import c, op, MT
from quantrec import num

WIDTH = Decimal("1e-14")


def atoms(s):
    """A deviate that takes (within WIDTH) only the values of a source."""
    bs = []   # boundary, weight of the bin above it
    for v, w in sorted(zip(map(Decimal, s["v"]), s["w"])):
        lo = v - WIDTH if v == 1 else v
        bs += [(lo, w), (lo + WIDTH, "0")]
    a = [c(f"{bs[0][0]:f}")]
    for i in range(1, len(bs)):
        a += [c(bs[i - 1][1]), c(f"{bs[i][0]:f}")]
    return {"o": "histogram", "a": a}


def source(r):
    k = r.choice([1, 2, 2, 2, 3, 3, 4])
    vs = set()
    while len(vs) < k:
        x = r.random()
        vs.add("0" if x < .08 else "1" if x < .14 else "%d" % 1 + "e-%d" % r.randint(2, 5) if x < .25 else expr.dec(r))
    vs = sorted({Decimal(v): v for v in vs}.values(), key=Decimal)
    w = [r.choice(["1", "1", "2", "3", "0.5", "0"]) for _ in vs]
    if all(x == "0" for x in w):
        w[0] = "1"
    return dict(v=vs, w=w)


class Model:
    def __init__(self, case):
        r = self.r = random.Random(case["seed"])
        self.src, self.inline, self.par, self.groups = [], [], [], []
        kind = case.get("kind", "tree")
        if kind == "fresh":      # two analyses over one parameter
            self.t = ft.FT(2, [], [dict(o="null", k=0, m=0, a=[1]), dict(o="null", k=0, m=0, a=[2])])
        elif kind == "pairs":
            self.t = ft.gen(r, n=r.randint(1, 2) + 1, ng=1, coherent=True, house=0, const=False)
        else:
            self.t = ft.gen(r, n=r.randint(2, 5), ng=r.choice([1, 2, 3, 4, 6]), coherent=case.get("coherent"),
                            house=r.choice([0, 0, 1, 2]) if not case.get("phases") else 2, const=False)
        self.ph = []
        if case.get("phases"):
            fr = r.choice([["0.5", "0.5"], ["0.25", "0.75"], ["0.2", "0.3", "0.5"], ["1"]])
            self.ph = [dict(f=f, h=[[h, r.random() < .5] for h in range(1, len(self.t.house) + 1) if r.random() < .7]) for f in fr]
        det = kind == "constant"
        for _ in range(0 if det else r.choice([1, 1, 2, 2, 3])):
            self.src.append(source(r))
        self.shared = len(self.src)
        # derived parameters refer to the shared sources and earlier derived ones; inline sources come after these in
        # the rendering but their indices must precede: they are drawn first
        plan = []
        for i in range(self.t.n):
            plan.append(self.pick(kind))
        ninl = sum(1 for x in plan if x == "inline")
        self.inl0 = self.shared
        self.src += [source(r) for _ in range(ninl)]
        while self.draws() > 72:
            s = max(self.src, key=lambda s: len(s["v"]))
            s["v"].pop(), s["w"].pop()
            if all(float(x) == 0 for x in s["w"]):
                s["w"][0] = "1"
        n = len(self.src)
        if kind in ("tree", "ccf") and self.shared:
            for _ in range(r.choice([0, 0, 1, 2])):
                j = n + len(self.par)
                ref = [expr.par(r.randint(1, self.shared))] + [expr.par(k) for k in range(n + 1, j + 1)]
                x = r.choice(ref)
                self.par.append(r.choice([op("mul", c(expr.dec(r)), x), op("mean", x, c(expr.dec(r))), op("sub", c("1"), x)]))
        nxt = self.shared
        if kind == "fresh":      # the same expression twice
            x = self.prob("wrap")
            self.P = [x, x]
            return
        self.P = []
        for what in plan:
            if what == "inline":
                nxt += 1
                self.P.append(r.choice([expr.par(nxt), expr.par(nxt), op("mul", c(expr.dec(r)), expr.par(nxt))]))
            else:
                self.P.append(self.prob(what))
        if kind == "ccf":
            self.add_groups()

    def add_groups(self):
        r, t = self.r, self.t
        ev = list(range(1, t.n + 1))
        r.shuffle(ev)
        while True:
            k = min(len(ev), r.choice([2, 2, 3]))
            if k < 2:
                break
            g = ccfrec.gen_group(r, sorted(ev[:k]), 0)
            g["q"] = self.ref() if r.random() < .8 else self.prob("expr")
            if g["model"] in ("beta-factor", "MGL"):     # any probability is a legal factor
                for f in g["f"]:
                    if r.random() < .4:
                        f["x"] = self.ref()
            if ccfrec.nvars(t.n, self.groups + [g]) > 7:
                break
            self.groups.append(g)
            ev = ev[k:]
            if r.random() < .7:
                break

    def draws(self):
        d = 1
        for s in self.src:
            d *= len(s["v"])
        return d

    def pick(self, kind):
        r = self.r
        if kind == "constant":
            return "const"
        if kind in ("fresh", "pairs"):
            return "par" if kind == "pairs" else "wrap"
        return r.choice(["par", "par", "par", "inline", "const", "expr", "expr", "time"])

    def ref(self):
        r, n = self.r, len(self.src)
        return expr.par(r.choice(list(range(1, self.shared + 1)) + [n + j for j in range(1, len(self.par) + 1)]))

    def prob(self, what):
        r = self.r
        if what == "const" or not self.shared:
            return c(r.choice(["0", "1", expr.dec(r), expr.dec(r), expr.dec(r, 0, .01)]))
        if what == "par":
            return self.ref()
        if what == "wrap":
            a = self.ref()
            return r.choice([a, op("sub", c("1"), a), op("mul", c(expr.dec(r)), a), op("mean", c(expr.dec(r)), a)])
        if what == "time":
            return self.timed()
        a, b = self.ref(), self.ref()
        return r.choice([
            lambda: op("mul", a, b), lambda: op("sub", c("1"), a), lambda: op("mean", a, b), lambda: op("min", a, b), lambda: op("max", a, b),
            lambda: op("ite", op("lt", a, c(expr.dec(r))), b, c(expr.dec(r))), lambda: op("ite", op("geq", a, c(expr.dec(r))), b, a),
            lambda: op("mul", op("sub", c("1"), a), b), lambda: op("mul", c(expr.dec(r)), a)])()

    def timed(self):
        """A failure law; any of its parameters may be random."""
        r = self.r
        dev = lambda lo, k: op("add", c(lo), op("mul", c(k), self.ref())) if r.random() < .6 else c(lo)
        pr = lambda: r.choice([self.ref(), c(expr.dec(r)), c("0.1")])
        rate = lambda: dev("%d.%de-%d" % (r.randint(1, 9), r.randint(0, 9), r.randint(3, 4)), "%de-3" % r.randint(1, 9))
        k = r.choice(["exponential", "exponential", "GLM", "Weibull", "periodic-test", "periodic-test", "periodic-test"])
        if k == "exponential":
            return op(k, r.choice([op("mul", c("%d.%de-%d" % (r.randint(1, 9), r.randint(0, 9), r.randint(3, 4))), self.ref()), rate()]), MT)
        if k == "GLM":
            return op(k, pr(), rate(), rate(), MT)
        if k == "Weibull":
            return op(k, dev("%d" % r.randint(20, 500), "300"), dev("0.7", "1.5"), dev("0", "0.1"), MT)
        tau, th = dev("%d" % r.choice([15, 40, 3000]), "60"), dev(r.choice(["0", "5"]), r.choice(["20", "300"]))
        n = r.choice([4, 5, 5, 11])
        if n == 4:
            return op(k, rate(), tau, th, MT)
        if n == 5:
            return op(k, rate(), rate(), tau, th, MT)
        return op(k, rate(), rate(), rate(), tau, th, pr(), dev("1", "10"), {"o": "b", "v": r.random() < .5}, pr(), pr(), MT)

    def json(self):
        return dict(self.t.json(), src=self.src, par=self.par, P=self.P, ph=self.ph, groups=self.groups)

    def place(self, x):
        """Inline sources are written in place."""
        if x["o"] == "par" and self.shared < x["n"] <= len(self.src):
            return atoms(self.src[x["n"] - 1])
        return dict(x, a=[self.place(y) for y in x["a"]]) if "a" in x else x

    def xml(self, rnd):
        n = len(self.src)
        defs = [(k, atoms(self.src[k - 1])) for k in range(1, self.shared + 1)] + [(n + j, x) for j, x in enumerate(self.par, 1)]
        rnd.shuffle(defs)
        extra = "".join('<define-parameter name="p%d">%s</define-parameter>' % (k, expr.xml(x)) for k, x in defs)
        extra = "<model-data>%s</model-data>" % extra if extra else ""
        if self.ph:
            extra += '<define-alignment name="al">%s</define-alignment>' % "".join(
                '<define-phase name="ph%d" time-fraction="%s">%s</define-phase>' % (j, p["f"], "".join(
                    '<set-house-event name="%s"><constant value="%s"/></set-house-event>' % (self.t.hname[h - 1], "true" if s else "false")
                    for h, s in p["h"])) for j, p in enumerate(self.ph, 1))
        if self.groups:
            inside = {b for g in self.groups for b in g["mem"]}
            gx = self.t.gates_xml(rnd) + [x for i, x in enumerate(self.t.data_xml([expr.xml(self.place(x)) for x in self.P]), 1) if i not in inside] \
                + [ccfrec.group_xml(self.t, j, g, rnd) for j, g in enumerate(self.groups, 1)]
            rnd.shuffle(gx)
            return '<?xml version="1.0"?>\n<opsa-mef><define-fault-tree name="FT">%s</define-fault-tree>%s</opsa-mef>\n' % ("".join(gx), extra)
        return self.t.xml(probs=[expr.xml(self.place(x)) for x in self.P], rnd=rnd, extra=extra)


def summary(m):
    bad = []
    q, h, ci, ef = m.find("quantiles"), m.find("histogram"), m.find("confidence-range"), m.find("error-factor")
    n = lambda s: num(s, bad)

    def rows(e, tag):
        return [dict(num=int(x.get("number")), v=n(x.get("value")), lo=n(x.get("lower-bound")), hi=n(x.get("upper-bound")))
                for x in e.findall(tag)]
    return dict(mean=n(m.find("mean").get("value")), sd=n(m.find("standard-deviation").get("value")),
                lo=n(ci.get("lower-bound")), hi=n(ci.get("upper-bound")), ef=n(ef.get("value")),
                pct=[ci.get("percentage"), ef.get("percentage")], q=rows(q, "quantile"), nq=int(q.get("number")),
                b=rows(h, "bin"), nb=int(h.get("number")), bad=bad)


def run(w, t, f, n, seed, approx="none", alg="bdd", mt="100", nq=20, nb=20, ccf=False):
    out = w.path("o.xml")
    args = ["--" + alg, "--uncertainty", "--num-trials", n, "--num-quantiles", nq, "--num-bins", nb, "--seed", seed,
            "--mission-time", mt, "-o", out]
    if ccf:
        args.append("--ccf")
    if approx == "rare-event":
        args.append("--rare-event")
    elif approx == "mcub":
        args.append("--mcub")
    rc, err = w.run(args + [f])
    tops = []
    if rc == 0:
        for m in sc.parse_report(out).iter("measure"):
            ph = m.get("phase") or m.get("phase-name") or ""
            if not ph and m.get("alignment"):
                ph = "?"
            tops.append(dict(g=t.gname.index(m.get("name")) + 1, ph=int(ph[2:]) if ph else 0, u=summary(m)))
    return rc, tops, err[-200:]


def rec(w, case):
    """case: {seed, kind, chain: [seeds, trials], big: [n ...], approx, alg, mt, phases}"""
    r = random.Random("x%s" % case["seed"])
    if case.get("kind") == "dist":
        return rec_dist(w, case)
    m = Model(case)
    t = m.t
    kw = dict(approx=case.get("approx", "none"), alg=case.get("alg", "bdd"), mt=case.get("mt", "100"), nq=case.get("nq", 20), nb=case.get("nb", 20), ccf=bool(m.groups))
    f = w.write("m.xml", m.xml(r))
    tr = [dict(e="uload", m=m.json(), mt=kw["mt"], approx=kw["approx"], nq=kw["nq"], nb=kw["nb"], alg=kw["alg"])]
    S, K = case.get("chain", [0, 0])
    if case.get("kind") == "fresh" or m.ph or len(t.roots()) > 1:
        S, K = S * K, 1
    for _ in range(S):
        seed = r.randint(0, 10 ** 6)
        for n in range(1, K + 1):
            rc, tops, err = run(w, t, f, n, seed, **kw)
            tr.append(dict(e="trial", n=n, seed=seed, rc=rc, tops=tops, err=err))
            if rc:
                return tr
    last = None
    for n in case.get("big", []):
        seed = r.randint(0, 10 ** 6)
        rc, tops, err = run(w, t, f, n, seed, **kw)
        tr.append(dict(e="big", n=n, rc=rc, tops=tops, err=err))
        last = (n, seed, tops)
    if last:
        rc, tops, err = run(w, t, f, last[0], last[1], **kw)
        tr.append(dict(e="again", rc=rc, res=tops, prev=last[2], err=err))
    tr.append(dict(e="uend"))
    return tr


def dist(r):
    """(operator, arguments, slack for clipping to [0, 1])"""
    o = r.choice(["uniform-deviate", "normal-deviate", "lognormal-deviate", "lognormal-deviate", "gamma-deviate", "beta-deviate", "beta-deviate", "histogram"])
    d = lambda a, b: "%.4f" % r.uniform(a, b)
    if o == "uniform-deviate":
        a = r.uniform(0, .8)
        return o, ["%.4f" % a, "%.4f" % r.uniform(a + .05, 1)], "0"
    if o == "normal-deviate":
        m = r.uniform(.2, .8)
        return o, ["%.4f" % m, "%.4f" % (min(m, 1 - m) / r.uniform(6.05, 12))], "1e-6"
    if o == "lognormal-deviate" and r.random() < .5:
        return o, ["%.4f" % r.uniform(-9, -3), d(.1, .5)], "1e-6"
    if o == "lognormal-deviate":
        return o, [d(.001, .02), r.choice(["1.5", "2", "2.5"]), r.choice(["0.95", "0.95", "0.9", "0.8"])], "1e-6"
    if o == "gamma-deviate":
        k = r.choice(["1", "1", "2", "0.7", "3.5"])
        return o, [k, "%.5f" % (r.uniform(.001, .02) / float(k))], "1e-6"
    if o == "beta-deviate":
        return o, r.choice([["1", d(1, 8)], [d(.5, 5), "1"], [d(.8, 6), d(.8, 9)], ["1", "1"]]), "0"
    n = r.randint(1, 4)
    bs = sorted(r.sample(range(0, 101), n + 1))
    a = ["%.2f" % (bs[0] / 100)]
    for i in range(1, n + 1):
        a += [r.choice(["1", "2", "0.5", "3"]), "%.2f" % (bs[i] / 100)]
    return o, a, "0"


def rec_dist(w, case):
    r = random.Random(case["seed"])
    o, A, clip = dist(r)
    x = {"o": o, "a": [c(a) for a in A]}
    where = r.choice(["event", "parameter"])
    t = ft.FT(1, [], [dict(o="null", k=0, m=0, a=[1])])
    extra = '<model-data><define-parameter name="p1">%s</define-parameter></model-data>' % expr.xml(x) if where == "parameter" else ""
    f = w.write("m.xml", t.xml(probs=[expr.xml(expr.par(1) if where == "parameter" else x)], extra=extra))
    n, nq, nb = 20000, r.choice([4, 5, 10, 20]), r.choice([1, 5, 20, 33])
    rc, tops, err = run(w, t, f, n, r.randint(0, 10 ** 6), nq=nq, nb=nb)
    e = dict(e="dist", o=o, A=A, clip=clip, n=n, nq=nq, nb=nb, rc=rc, err=err)
    if rc == 0:
        e["u"] = tops[0]["u"]
    return [e]
