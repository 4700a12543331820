"""Recording analyses of large read-once trees (events of ReadOnceTrace.tla)."""
import itertools, math, os, random
import presrec, sc, xinc
from presrec import gate

ONE = {"xor": 2, "iff": 2, "imply": 2, "not": 1, "null": 1}


def counts(g):
    """(number of products of up to any order, of complements): cut sets as (default, number), primes as (true, false)."""
    n = len(g["a"])
    o = g["o"]
    return {"and": {n}, "nand": set(range(n)), "or": set(range(1, n + 1)), "nor": {0}, "atleast": set(range(g["k"], n + 1)),
            "cardinality": set(range(g["k"], g["m"] + 1)), "xor": {1}, "iff": {0, 2}, "not": {0}, "null": {1}, "imply": {1, 2}}[o]


work = [0]     # the largest number of sets the specification handles on the way


def choose(fs, k):
    e = [1] + [0] * k
    for f in fs:
        for i in range(k, 0, -1):
            e[i] += e[i - 1] * f
        work[0] = max(work[0], sum(e))
    return e[k]


def size(n, gates, pi):
    """How many products, to keep the work within bounds."""
    vals, most = [], 0
    work[0] = 0
    for g in gates:
        a = [-g["a"][0], g["a"][1]] if g["o"] == "imply" else g["a"]
        V = counts(g)
        if pi:
            xs = []
            for x in a:
                v = (1, 1) if abs(x) <= n else vals[abs(x) - n - 1]
                xs.append(v if x > 0 else v[::-1])

            def of(W):
                t = 0
                for lo in range(len(a) + 1):
                    for hi in range(lo, len(a) + 1):
                        if all(c in W for c in range(lo, hi + 1)) and lo - 1 not in W and hi + 1 not in W:
                            e = {(0, 0): 1}
                            for x in xs:
                                f = {}
                                for (p, q), c in e.items():
                                    for k, w in (((p, q), 1), ((p + 1, q), x[0]), ((p, q + 1), x[1])):
                                        if k[0] <= lo and k[1] <= len(a) - hi:
                                            f[k] = f.get(k, 0) + c * w
                                e = f
                                work[0] = max(work[0], sum(e.values()))
                            t += e.get((lo, len(a) - hi), 0)
                return t
            vals.append((of(V), of(set(range(len(a) + 1)) - V)))
            most = max(most, *vals[-1])
        else:
            xs = []
            for x in a:
                d, f = (False, 1) if abs(x) <= n else vals[abs(x) - n - 1]
                xs.append((d != (x < 0), f))
            up, down = [f for d, f in xs if d], [f for d, f in xs if not d]
            c = len(up)
            fall = [s for s in range(c + 1) if (s in V) != (c in V)]
            rise = [s for s in range(c, len(a) + 1) if (s in V) != (c in V)]
            vals.append((c in V, (choose(up, c - max(fall)) if fall else 0) + (choose(down, min(rise) - c) if rise else 0)))
            most = max(most, vals[-1][1])
    return max(most, work[0] // 5)


def tree(r, kind):
    n = r.choice([r.randint(8, 14), r.randint(12, 24), r.randint(20, 60)])
    ops = ["and", "or", "or", "atleast"] + (["nand", "nor", "xor", "iff", "imply", "not", "cardinality"] if kind == "mixed" else [])
    neg = .12 if kind == "mixed" else 0
    wide = r.random() < .5
    free = list(range(1, n + 1))
    r.shuffle(free)
    gates = []
    while len(free) > 1 or not gates:
        left = len(free)
        o = r.choice(ops)
        k = ONE.get(o) or min(left, r.randint(2, r.choice([3, 5, 14 if wide else 5, 20 if wide else 4])))
        if o == "atleast" and k < 3:
            o = "or"
        if o == "not" and r.random() < .7:
            continue
        if k > left:
            continue
        r.shuffle(free)
        if r.random() < .6:       # keep deep
            free.sort(key=lambda x: -x if r.random() < .8 else r.random())
        a, free = free[:k], free[k:]
        r.shuffle(a)
        a = [-x if r.random() < neg and k > 1 else x for x in a]
        lo = r.choice([2, k - 1, r.randint(2, k - 1)]) if o == "atleast" else r.randint(0, k) if o == "cardinality" else 0
        hi = r.randint(lo, k) if o == "cardinality" else 0
        if o == "cardinality" and hi - lo == k:
            continue
        gates.append(gate(o, a, lo, hi))
        free.append(n + len(gates))
    return n, gates


def rec(w, case):
    """case: {seed, kind, most, runs: [[alg, lim, pi, approximation, importance]]}"""
    r = random.Random("t%s" % case["seed"])
    pi = any(q[2] for q in case["runs"])
    while True:
        n, gates = tree(r, case["kind"])
        sz = max([size(n, gates, False)] + ([size(n, gates, True)] if pi else []))
        if case.get("least", 2) <= sz <= case["most"]:
            break
    t = presrec.Net(n, gates, [None] * n)
    small = r.random() < .5
    t.p = [r.choice(["0.01", "0.5", "0.9"]) if r.random() < .2 else "%.3g" % (10 ** -r.uniform(.05, 3) if small else r.uniform(.01, .99)) for _ in range(n)]
    trace = [dict(e="load", N=n, G=gates, p=t.p)]
    for i, (alg, lim, pi, ap, imp) in enumerate(case["runs"]):
        rr = random.Random("%s/%d" % (case["seed"], i))
        plain = rr.random() < .3
        rw, gs = ([], gates) if plain or rr.random() < .3 else presrec.rewrite(rr, t, rr.choice([.1, .4, .8]))
        ev, gn = presrec.names(rr, t, len(gs), "plain" if plain else rr.choice(["plain", "shuffled"]))
        fs = [w.write("t%d.xml" % j, x) for j, x in enumerate(presrec.render(rr, t, gs, ev, gn, plain, 1 if plain else rr.choice([1, 1, 2])))]
        out = w.path("o.xml")
        if os.path.exists(out):
            os.unlink(out)
        a = ["--" + alg, "-l", lim, "-o", out] + ["--prime-implicants"] * pi + ["--probability"] * (ap != "-") + ["--importance"] * imp
        a += ["--" + ap] * (ap in ("mcub", "rare-event"))
        rc, err = w.run(a + fs, timeout=5)
        e = dict(e="run", alg=alg, lim=lim, pi=bool(pi), ap=ap, rc=rc, err=err[-200:], p=[], np=-1, ne=-1, dist=[], warn="", total="?", pp=[], imp=[])
        if rc == 0:
            at = {x: k for k, x in enumerate(ev, 1)}
            root = sc.parse_report(out).find("results")
            s = [x for x in root.iter("sum-of-products") if x.get("name") == gn[len(gates) - 1]][0]
            ps = s.findall("product")
            e["p"] = [[-at[c[0].get("name")] if c.tag == "not" else at[c.get("name")] for c in p if c.get("name") or len(c)] for p in ps]
            e["np"], e["ne"] = int(s.get("products")), int(s.get("basic-events"))
            e["dist"] = [int(x) for x in s.get("distribution", "").split()]
            e["warn"] = "; ".join(x for x in s.get("warning", "").split("; ") if "UNITY" in x or "NULL" in x)
            if ap != "-":
                e["total"] = presrec.number(s.get("probability"))
                e["pp"] = [dict(i=j + 1, p=presrec.number(ps[j].get("probability"))) for j in rr.sample(range(len(ps)), min(8, len(ps)))]
            if imp:
                bs = [b for b in root.iter("importance") if b.get("name") == s.get("name")]
                bs = [b for b in bs[0] if b.tag != "label"] if bs else []
                some = rr.sample(range(len(bs)), min(3, len(bs))) if ap == "exact" else []
                e["imp"] = [dict(v=at[b.get("name")], n=int(b.get("occurrence")), m=presrec.number(b.get("MIF")) if j in some else "") for j, b in enumerate(bs)]
        trace.append(e)
    return trace


def conform(c, quick, thorough, runs, kinds=("coherent", "mixed"), what=""):
    """The part of a check that is about large read-once trees; runs(r): the runs of a case."""
    c.model_check("ReadOnceLaws", workers=4)
    cases = []
    for i in range(c.n(quick, thorough)):
        r = c.rng("tree", i)
        cases.append(dict(seed="%s/%s/%d" % (c.prop, c.seed, i), kind=r.choice(kinds), most=600 if c.quick else 2500,
                          least=r.choice([2, 10, 40]), runs=runs(r)))
    c.conform("ReadOnceTrace", cases, rec,
              rule="seeded random trees of 8-60 events, each event and gate used once, gates of up to 20 arguments, presented and rewritten at random; " + what)
