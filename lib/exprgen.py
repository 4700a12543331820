"""Random expressions for C14 and C15, and the recording of the models that use them (events of ExprTrace.tla)."""
import math, random
from fractions import Fraction
import expr, sc
from expr import c, op, MT, PI, par


class Reject(Exception):
    pass


# ---- floating-point estimate, only used to keep badly conditioned cases out ------------------------
class Est:
    def __init__(self, pars, mt, rnd, delta):
        self.rnd, self.delta, self.mt = rnd, delta, float(mt)
        self.pv = []
        for d in pars:
            self.pv.append(self.ev(d))

    def j(self, v):
        if not math.isfinite(v) or abs(v) > 1e12:
            raise Reject
        return v * (1 + self.delta * self.rnd.uniform(-1, 1))

    def ev(self, x):
        o = x["o"]
        if o == "c":
            f = Fraction(x["v"])
            return f if f.denominator & (f.denominator - 1) == 0 and f.denominator < 1 << 20 else self.j(float(f))
        if o == "b":
            return Fraction(int(x["v"]))
        if o == "pi":
            return self.j(math.pi)
        if o == "mt":
            return Fraction(self.mt)
        if o == "par":
            return self.pv[x["n"] - 1]
        if o in ("test-ini", "test-fun"):
            return Fraction(0)
        A = [self.ev(y) for y in x["a"]]
        try:
            exact = all(isinstance(a, Fraction) for a in A)
            v = self.app(o, A, x)
            if isinstance(v, bool) or isinstance(v, int):
                return Fraction(int(v))
            if exact and isinstance(v, Fraction) and v.denominator & (v.denominator - 1) == 0 and v.denominator < 1 << 40:
                return v
            return self.j(float(v))
        except (ValueError, ZeroDivisionError, OverflowError):
            raise Reject

    def app(self, o, A, x):
        F = [float(a) for a in A]
        f = F[0]
        fold = lambda g: __import__("functools").reduce(g, A)
        if o == "neg": return -A[0]
        if o == "add": return fold(lambda a, b: a + b)
        if o == "sub": return fold(lambda a, b: a - b)
        if o == "mul": return fold(lambda a, b: a * b)
        if o == "div": return fold(lambda a, b: a / b)
        if o == "abs": return abs(A[0])
        if o in ("min", "max"): return dict(min=min, max=max)[o](A)
        if o == "mean": return sum(A) / len(A)
        if o in ("ceil", "floor"): return getattr(math, o)(A[0])
        if o in ("acos", "asin", "atan", "cos", "sin", "tan", "cosh", "sinh", "tanh", "exp", "log", "log10", "sqrt"):
            return getattr(math, o)(f)
        if o == "mod": return int(math.fmod(int(f), int(F[1])))
        if o == "pow":
            v = f ** F[1]
            if isinstance(v, complex): raise Reject
            return v
        if o == "not": return not A[0]
        if o == "and": return all(a != 0 for a in A)
        if o == "or": return any(a != 0 for a in A)
        if o == "eq": return A[0] == A[1]
        if o == "df": return A[0] != A[1]
        if o == "lt": return A[0] < A[1]
        if o == "gt": return A[0] > A[1]
        if o == "leq": return A[0] <= A[1]
        if o == "geq": return A[0] >= A[1]
        if o == "ite": return A[1] if A[0] else A[2]
        if o == "switch":
            for i in range(0, len(A) - 1, 2):
                if A[i]: return A[i + 1]
            return A[-1]
        pe = lambda l, t: -math.expm1(-l * t)
        if o == "exponential": return pe(f, F[1])
        if o == "GLM":
            g, l, m, t = F
            return (l - (l - g * (l + m)) * math.exp(-(l + m) * t)) / (l + m)
        if o == "Weibull":
            a, b, t0, t = F
            return 0.0 if t <= t0 else 1 - math.exp(-((t - t0) / a) ** b)
        if o == "periodic-test":
            l, tau, th, t = F[0], F[1 if len(F) == 4 else 2 if len(F) == 5 else 3], F[2 if len(F) == 4 else 3 if len(F) == 5 else 4], F[-1]
            if len(F) > 4:
                mu = F[1] if len(F) == 5 else F[2]
                if abs(l - mu) < 1e-3 * l and l != mu: raise Reject
            if t > th and (t - th) / tau > 12: raise Reject
            d = (t - th) / tau if t > th else 0.3
            if not all(isinstance(a, Fraction) for a in (A[-1],)) or abs(d - round(d)) < 1e-6 and d > 0:
                raise Reject          # a test exactly at the mission time: only with exact values (special cases)
            return 0.4
        if o == "uniform-deviate": return (A[0] + A[1]) / 2
        if o == "normal-deviate": return A[0]
        if o == "lognormal-deviate": return f if len(F) == 3 else math.exp(f + F[1] ** 2 / 2)
        if o == "gamma-deviate": return A[0] * A[1]
        if o == "beta-deviate": return f / (f + F[1])
        if o == "histogram":
            n = (len(A) - 1) // 2
            sw = sum(F[2 * j + 1] for j in range(n))
            return sum((F[2 * j] + F[2 * j + 2]) * F[2 * j + 1] for j in range(n)) / (2 * sw)
        raise KeyError(o)


def estimate(x, pars, mt, delta=0.0, seed=0):
    return float(Est(pars, mt, random.Random(seed), delta).ev(x))


# ---- expressions with (mostly) valid arguments ------------------------------------------------------
DY = ["0", "1", "2", "3", "4", "5", "7", "0.5", "0.25", "1.5", "2.5", "0.125", "10", "-1", "-2", "-0.5", "-3", "-1.5"]


class Gen:
    def __init__(self, r, npar, mt, rand=True):
        self.r, self.npar, self.mt, self.rand = r, npar, mt, rand

    def const(self):
        r = self.r
        k = r.random()
        if k < .45:
            return c(r.choice(DY))
        if k < .75:
            return c("%.*f" % (r.randint(1, 4), r.uniform(-4, 4)))
        if k < .85:
            return c("%.*fe%d" % (r.randint(0, 3), r.uniform(1, 9), r.randint(-4, 2)))
        if k < .9:
            return {"o": "b", "v": r.random() < .5}
        return c(r.randint(-9, 9))

    def pos(self, d=0):
        """A positive expression with a positive sample domain."""
        r = self.r
        k = r.random()
        if d <= 0 or k < .4:
            return c(r.choice(["1", "2", "3", "0.5", "0.25", "1.5", "4", "%.3f" % r.uniform(.01, 5), "%.2fe-%d" % (r.uniform(1, 9), r.randint(1, 3))]))
        if k < .5:
            return op("exp", self.small(d - 1))
        if k < .6:
            return op("add", self.pos(0), op("abs", self.num(d - 1)))
        if k < .7:
            return op("mul", self.pos(d - 1), self.pos(d - 1))
        if k < .75:
            return op("max", self.pos(0), self.num(d - 1))
        if k < .8:
            return op("div", self.pos(d - 1), self.pos(d - 1))
        if k < .85:
            return op("sqrt", self.pos(d - 1))
        if k < .9:
            return op("cosh", self.small(d - 1))
        if k < .95 and self.rand:
            return self.dist(positive=True)
        return op("pow", self.pos(d - 1), self.small(0))

    def small(self, d=0):
        """Values about -3..3."""
        r = self.r
        k = r.random()
        if d <= 0 or k < .4:
            return c(r.choice(["1", "0.5", "-1", "-0.5", "0.25", "2", "%.3f" % r.uniform(-3, 3)]))
        if k < .7:
            return op(r.choice(["sin", "cos", "tanh", "atan"]), self.num(d - 1))
        if k < .85:
            return op("min", c("2"), op("max", c("-2"), self.num(d - 1)))
        return op("neg", self.small(d - 1))

    def prob(self, d=0):
        r = self.r
        k = r.random()
        if d <= 0 or k < .3:
            return c(r.choice(["0", "1", "0.5", "0.25", "%.3f" % r.random(), "%.2fe-%d" % (r.uniform(1, 9), r.randint(2, 6))]))
        if k < .55:
            return self.law(d - 1)
        if k < .65:
            return op("sub", c("1"), self.prob(d - 1))
        if k < .75:
            return op("mul", self.prob(d - 1), self.prob(d - 1))
        if k < .8:
            return op("mean", *[self.prob(d - 1) for _ in range(r.randint(2, 3))])
        if k < .85:
            return op(r.choice(["min", "max"]), *[self.prob(d - 1) for _ in range(r.randint(2, 3))])
        if k < .9:
            return op("ite", self.cond(d - 1), self.prob(d - 1), self.prob(d - 1))
        if k < .95:
            return self.cond(d - 1)
        return op("min", c("1"), op("max", c("0"), self.num(d - 1)))

    def time(self, d=0):
        r = self.r
        k = r.random()
        if k < .6:
            return MT
        if k < .8:
            return c(r.choice(["10", "24", "100", "8760", "0", "0.5", "%.2f" % r.uniform(0, 500)]))
        if k < .9:
            return op("mul", c(r.choice(["0.5", "2", "0.1"])), MT)
        return op("add", MT, c(r.choice(["1", "10"])))

    def rate(self, d=0):
        r = self.r
        if d > 0 and r.random() < .2:
            return op("mul", c("1e-3"), self.pos(d - 1))
        return c("%.*fe-%d" % (r.randint(0, 3), r.uniform(1, 9), r.randint(1, 6)))

    def law(self, d=0):
        r = self.r
        k = r.random()
        if k < .3:
            return op("exponential", c("0") if r.random() < .05 else self.rate(d), self.time())
        if k < .5:
            return op("GLM", self.prob(min(d, 1)), self.rate(d), c("0") if r.random() < .15 else self.rate(d), self.time())
        if k < .65:
            return op("Weibull", c("%.2f" % r.uniform(1, 9000)), self.pos(0) if r.random() < .4 else c(r.choice(["1", "2", "0.5", "1.5", "3"])),
                      c(r.choice(["0", "5", "50", "100"])), self.time())
        T = float(self.mt)
        tau = c("%.*f" % (r.randint(0, 2), r.uniform(.02, 1.3) * T + 1))
        th = c("%.*f" % (r.randint(0, 2), r.choice([0, .1, .3, .9, 1.2]) * T))
        l, mu = self.rate(), self.rate()
        if r.random() < .08:
            mu = c("0")
        if r.random() < .08:
            mu = l
        n = r.choice([4, 5, 11])
        if n == 4:
            return op("periodic-test", l, tau, th, self.time())
        if n == 5:
            return op("periodic-test", l, mu, tau, th, self.time())
        dur = c("%.2f" % (float(tau["v"]) * r.choice([.01, .1, .5, .9])))
        if float(dur["v"]) == 0:
            dur = c("0.01")
        pr = lambda: c(r.choice(["0", "1", "0.5", "%.3f" % r.random(), "0.01"]))
        return op("periodic-test", l, c("0") if r.random() < .1 else self.rate(), mu, tau, th, pr(), dur,
                  {"o": "b", "v": r.random() < .5}, pr(), pr(), self.time())

    def cond(self, d=0):
        r = self.r
        k = r.random()
        if d <= 0 or k < .15:
            return {"o": "b", "v": r.random() < .5}
        if k < .7:
            return op(r.choice(["eq", "df", "lt", "gt", "leq", "geq"]), *((self.num(d - 1), self.num(d - 1)) if r.random() < .6
                      else (c(r.choice(DY)), c(r.choice(DY)))))
        if k < .85:
            return op(r.choice(["and", "or"]), *[self.cond(d - 1) for _ in range(r.randint(2, 3))])
        if k < .95:
            return op("not", self.cond(d - 1))
        return self.num(d - 1)

    def dist(self, positive=False):
        r = self.r
        k = r.random()
        if k < .25:
            a = r.uniform(.01, 2)
            return op("uniform-deviate", c("%.3f" % a), c("%.3f" % (a + r.uniform(.1, 2))))
        if k < .45:
            return op("normal-deviate", c("%.3f" % r.uniform(1, 3)), c("%.3f" % r.uniform(.01, .15)))
        if k < .6:
            if r.random() < .6:
                return op("lognormal-deviate", c("%.3f" % r.uniform(.01, 2)), c(r.choice(["1.5", "2", "3", "10"])), c(r.choice(["0.95", "0.9", "0.99"])))
            return op("lognormal-deviate", c("%.2f" % r.uniform(-3, 1)), c("%.2f" % r.uniform(.1, 1)))
        if k < .7:
            return op("gamma-deviate", c(r.choice(["1", "2", "0.5", "5"])), c("%.3f" % r.uniform(.01, 1)))
        if k < .85:
            return op("beta-deviate", c("%.2f" % r.uniform(.3, 5)), c("%.2f" % r.uniform(.3, 5)))
        n = r.randint(1, 4)
        b = sorted(r.sample(range(1, 40), n + 1))
        a = [c("%.2f" % (b[0] / 20))]
        for x in b[1:]:
            a += [c("%.1f" % r.uniform(.1, 3)), c("%.2f" % (x / 20))]
        return op("histogram", *a)

    def num(self, d=0):
        r = self.r
        k = r.random()
        if d <= 0 or k < .12:
            if self.npar and r.random() < .4:
                return par(r.randint(1, self.npar))
            if r.random() < .05:
                return PI
            if r.random() < .05:
                return MT
            return self.const()
        if k < .36:
            o = r.choice(["add", "sub", "mul", "min", "max", "mean"])
            return op(o, *[self.num(d - 1) for _ in range(r.choice([2, 2, 3, 4]))])
        if k < .42:
            return op("div", self.num(d - 1), *[self.pos(d - 1) for _ in range(r.choice([1, 1, 2]))])
        if k < .46:
            return op("neg", self.num(d - 1))
        if k < .5:
            return op("abs", self.num(d - 1))
        if k < .58:
            return op(r.choice(["sin", "cos", "atan", "tan", "ceil", "floor", "tanh"]), self.num(d - 1))
        if k < .62:
            return op(r.choice(["cosh", "sinh", "exp"]), self.small(d - 1))
        if k < .66:
            return op(r.choice(["acos", "asin"]), op(r.choice(["sin", "cos"]), self.num(d - 1)) if r.random() < .5 else c("%.3f" % r.uniform(-1, 1)))
        if k < .71:
            return op(r.choice(["log", "log10", "sqrt"]), self.pos(d - 1))
        if k < .75:
            return op("mod", self.num(d - 1), op("add", c(r.randint(2, 6)), op("abs", self.num(d - 1))) if r.random() < .4 else c(r.choice([2, 3, 4, 5, -3, "2.9", "-1.5"])))
        if k < .79:
            return op("pow", self.small(d - 1), c(r.choice([1, 2, 3, 4]))) if r.random() < .6 else op("pow", self.pos(d - 1), self.small(d - 1))
        if k < .85:
            return op("ite", self.cond(d - 1), self.num(d - 1), self.num(d - 1))
        if k < .89:
            n = r.randint(0, 3)
            return op("switch", *[self.cond(d - 1) if i % 2 == 0 else self.num(d - 1) for i in range(2 * n)], self.num(d - 1))
        if k < .92:
            return self.cond(d - 1)
        if k < .96 or not self.rand:
            return self.law(d - 1)
        return self.dist()


SPECIAL_PT = [("100", "10", "0"), ("100", "10", "20"), ("64", "16", "0"), ("64", "16", "32"), ("64", "32", "64"), ("10", "0.5", "1"), ("64", "64", "0")]


def value_model(r):
    """A model whose expressions are (nearly always) valid and well conditioned: (mission time, parameters, event expressions)."""
    if r.random() < .12:      # tests exactly at the mission time
        mt, tau, th = r.choice(SPECIAL_PT)
        l, mu = "1e-2", r.choice(["1e-1", "0.25", "1e-2"])
        a = {4: [l, tau, th], 5: [l, mu, tau, th], 11: [l, "2e-2", mu, tau, th, "0.1", "%g" % (float(tau) / r.choice([4, 8, 1])), r.choice([True, False]), "0.9", "0.2"]}
        P = []
        for n, q in a.items():
            P.append(op("periodic-test", *[{"o": "b", "v": v} if isinstance(v, bool) else c(v) for v in q], r.choice([MT, c(mt)])))
        return mt, [], P
    mt = r.choice(["8760", "100", "24", "1", "64", "0.5", "333.3"])
    pars = []
    want = r.choice([0, 0, 1, 2, 4])
    tries = 0
    while len(pars) < want and tries < 50:
        tries += 1
        d = Gen(r, len(pars), mt, rand=r.random() < .3).num(r.choice([0, 1, 2]))
        try:
            v = estimate(d, pars, mt)
            if 1e-6 < abs(v) < 1e6:
                pars.append(d)
        except Reject:
            pass
    P, tries = [], 0
    while len(P) < 10 and tries < 200:
        tries += 1
        g = Gen(r, len(pars), mt, rand=r.random() < .3)
        direct = r.random() < .3
        x = g.prob(r.choice([1, 2, 3])) if direct else g.num(r.choice([1, 2, 2, 3, 3, 4]))
        if expr.size(x) > 60:
            continue
        try:
            v = estimate(x, pars, mt)
            if abs(v) > 1e9:
                continue
            if not direct:
                k = 10.0 ** math.ceil(math.log10(4 * abs(v))) if abs(v) > 1e-9 else 1.0
                x = op("min", c("1"), op("max", c("0"), op("add", c("0.5"), op("div", x, c("%g" % k)))))
            v = estimate(x, pars, mt)
            vs = [estimate(x, pars, mt, 1e-10, s) for s in range(4)]
            if max(abs(w - v) for w in vs) > 1e-7 * abs(v) or v and abs(v) < 1e-9:
                continue
            P.append(x)
        except Reject:
            pass
    return mt, pars, P or [c("0.5")]


# ---- expressions around the borders of their domains -------------------------------------------------
EDGE = ["-1", "-0.5", "0", "0.25", "0.5", "1", "1.5", "2", "3", "-2", "0.75", "1.25"]


def edge(r, npar, d):
    k = r.random()
    if d <= 0 or k < .35:
        if npar and r.random() < .25:
            return par(r.randint(1, npar))
        return c(r.choice(EDGE)) if r.random() < .85 else c("%.2f" % r.uniform(-2, 2))
    if k < .62:
        kind = r.choice(["u", "u", "u", "n", "l", "g", "b", "h", "mt", "law"])
        if kind == "u":
            a, b = sorted(r.sample([-2, -1, -.5, 0, .25, .5, .75, 1, 1.5, 2, 3], 2))
            if r.random() < .06:
                a, b = b, r.choice([a, b])
            return op("uniform-deviate", c("%g" % a), c("%g" % b))
        if kind == "n":
            return op("normal-deviate", c(r.choice(["0.5", "0.75", "1", "0", "3"])), c(r.choice(["0.0625", "0.125", "0.01", "0.25", "0", "-1"] if r.random() < .3 else ["0.0625", "0.01", "0.125"])))
        if kind == "l":
            if r.random() < .5:
                return op("lognormal-deviate", c(r.choice(["0.01", "0.1", "1", "0", "-1"] if r.random() < .3 else ["0.01", "0.1"])), c(r.choice(["2", "3", "1", "0.5"] if r.random() < .3 else ["2", "3"])),
                          c(r.choice(["0.95", "0", "1", "1.5"] if r.random() < .3 else ["0.95", "0.9"])))
            return op("lognormal-deviate", c(r.choice(["-3", "-2", "0"])), c(r.choice(["0.5", "0.25", "1", "0", "-1"] if r.random() < .3 else ["0.5", "1"])))
        if kind == "g":
            return op("gamma-deviate", c(r.choice(["1", "2", "5", "0", "-1"] if r.random() < .3 else ["1", "2", "0.5", "5"])), c(r.choice(["0.05", "0.1", "0.15", "0.25", "0", "-1"] if r.random() < .3 else ["0.05", "0.1", "0.15", "0.2"])))
        if kind == "b":
            return op("beta-deviate", c(r.choice(["1", "2", "0", "-1"] if r.random() < .3 else ["1", "2", "0.5"])), c(r.choice(["1", "3", "0", "-2"] if r.random() < .3 else ["1", "3"])))
        if kind == "h":
            b = [r.choice([0, .25, .5, -.5])]
            a = [c("%g" % b[0])]
            for _ in range(r.randint(1, 3)):
                b.append(b[-1] + r.choice([.125, .25, .5, 0, -.25] if r.random() < .15 else [.125, .25]))
                a += [c(r.choice(["1", "2", "0", "-1"] if r.random() < .12 else ["1", "2", "0.5"])), c("%g" % b[-1])]
            return op("histogram", *a)
        if kind == "mt":
            return MT
        return op("exponential", edge(r, npar, d - 1), edge(r, npar, d - 1))
    u = [("neg", 1), ("abs", 1), ("add", 2), ("sub", 2), ("mul", 2), ("div", 2), ("min", 2), ("max", 2), ("mean", 2), ("ite", 3),
         ("acos", 1), ("asin", 1), ("log", 1), ("log10", 1), ("sqrt", 1), ("mod", 2), ("pow", 2), ("exp", 1), ("sin", 1), ("cos", 1),
         ("atan", 1), ("tan", 1), ("cosh", 1), ("sinh", 1), ("tanh", 1), ("ceil", 1), ("floor", 1), ("not", 1), ("and", 2), ("or", 2), ("eq", 2),
         ("df", 2), ("lt", 2), ("gt", 2), ("leq", 2), ("geq", 2), ("switch", 3), ("exponential", 2), ("GLM", 4), ("Weibull", 4),
         ("periodic-test", 4), ("periodic-test", 5), ("periodic-test", 11), ("add", 3), ("sub", 3), ("mul", 3), ("div", 3)]
    o, n = r.choice(u)
    return strict(r, npar, d - 1, o, n)


def strict(r, npar, d, o, n):
    """An operator of n arguments: mostly valid ones, with one or two from the borders."""
    good = {"GLM": ["0.5", "0.01", "0.1", "10"], "Weibull": ["100", "2", "5", "50"], "exponential": ["0.01", "10"]}.get(o)
    if o == "periodic-test":
        good = {4: ["0.01", "10", "5", "100"], 5: ["0.01", "0.1", "10", "5", "100"],
                11: ["0.01", "0.02", "0.1", "10", "5", "0.25", "2", "1", "0.5", "0.125", "100"]}[n]
    if good is None or r.random() < .1 and n < 5:
        return op(o, *[edge(r, npar, d) for _ in range(n)])
    a = [c(v) for v in good]
    for _ in range(r.choice([0, 1, 1, 1, 2])):
        a[r.randrange(n)] = edge(r, npar, d)
    return op(o, *a)


def bound(x):
    return op("min", c("1"), op("max", c("0"), x))


def border_model(r):
    mt = r.choice(["100", "10", "0", "1"])
    pars = [edge(r, i, 2) for i in range(r.choice([0, 0, 0, 1, 2]))]
    P = []
    for _ in range(r.choice([1, 1, 1, 2])):
        x = edge(r, len(pars), r.choice([1, 2, 2, 3]))
        if r.random() < .03:
            x = c(r.choice(["NaN", "INF", "-INF"]))
        elif r.random() < .5:
            x = bound(x)
        elif r.random() < .4:
            x = op(r.choice(["add", "sub", "mul"]), x, c(r.choice(["0.5", "0.25", "1", "-0.25", "0.75"])))
        P.append(x)
    return mt, pars, P


# ---- recording -----------------------------------------------------------------------------------------
def rec(w, case):
    r = random.Random(case["seed"])
    if "P" in case:
        mt, pars, P = case["mt"], case["par"], case["P"]
    else:
        mt, pars, P = (value_model if case["kind"] == "value" else border_model)(r)
    n = len(P)
    defs = ['<define-parameter name="p%d">%s</define-parameter>' % (i, expr.xml(x, rnd=r)) for i, x in enumerate(pars, 1)]
    defs += ['<define-basic-event name="e%d">%s</define-basic-event>' % (i, expr.xml(x, rnd=r)) for i, x in enumerate(P, 1)]
    r.shuffle(defs)
    gate = "".join('<basic-event name="e%d"/>' % i for i in range(1, n + 1))
    f = w.write("m.xml", '<?xml version="1.0"?>\n<opsa-mef><define-fault-tree name="T"><define-gate name="g">%s</define-gate></define-fault-tree>'
                '<model-data>%s</model-data></opsa-mef>\n' % ("<or>%s</or>" % gate if n > 1 else gate, "".join(defs)))
    out = w.path("o.xml")
    import os
    if os.path.exists(out):
        os.unlink(out)
    rc, err = w.run(["--probability", "--mission-time", mt, "-o", out, f])
    got = [""] * n
    if rc == 0:
        for p in sc.parse_report(out).find("results").iter("product"):
            got[int(p[0].get("name")[1:]) - 1] = num(p.get("probability"))
    ev = dict(e="model", m=dict(P=P, par=pars), mt=mt, rc=rc, err=bool(err.strip()), out=os.path.exists(out), p=got if rc == 0 else [],
              msg=err.strip()[-160:])
    return [ev]


def num(s):
    try:
        return s if math.isfinite(float(s)) else ""
    except (TypeError, ValueError):
        return ""
