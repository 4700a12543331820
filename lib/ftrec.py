"""Recording product analyses of abstract fault trees (events of FtTrace.tla)."""
import random
import ft, sc


def mask(vs):
    return sum(1 << (v - 1) for v in vs)


def sop_event(t, s):
    idx = {n: i for i, n in enumerate(t.bname, 1)}
    try:
        ps = sc.products(s, idx)
    except KeyError as e:
        return dict(g=t.gname.index(s.get("name")) + 1, p=[], np=-1, ne=-1, dist=[], ord=[], warn="unknown event %s" % e)
    return dict(g=t.gname.index(s.get("name")) + 1, p=[[mask(a), mask(b)] for a, b in ps],
                np=int(s.get("products")), ne=int(s.get("basic-events")),
                dist=[int(x) for x in s.get("distribution", "").split()],
                ord=[int(p.get("order")) for p in s.findall("product")], warn=s.get("warning", ""))


def analyze(w, t, alg, lim, pi, files, extra=()):
    out = w.path("o.xml")
    args = ["--" + alg] + (["--prime-implicants"] if pi else []) + ["-l", lim] + list(extra) + ["-o", out] + files
    rc, err = w.run(args)
    ev = dict(e="analyze", alg=alg, lim=lim, pi=pi, rc=rc, tops=[], err=err[-300:])
    if rc == 0:
        ev["tops"] = [sop_event(t, s) for s in sc.parse_report(out).iter("sum-of-products")]
    return ev


def tree_from(c):
    """The abstract tree of a case: generated from its seed, or given explicitly (enumerated by TLC)."""
    if "m" in c:
        return ft.FT(c["m"]["N"], c["m"]["H"], c["m"]["G"])
    return ft.gen(random.Random(c["seed"]), **c.get("gen", {}))


def rec(w, c):
    """case: {seed, gen | m, runs: [[alg, limit, pi], ...]}"""
    t = tree_from(c)
    rnd = random.Random("x%s" % c["seed"])
    f = w.write("m.xml", t.xml(rnd=rnd if c.get("vary", True) else None))
    pi = any(r[2] for r in c["runs"])
    tr = [dict(e="load", m=t.json(), pi=pi)]
    for alg, lim, p in c["runs"]:
        tr.append(analyze(w, t, alg, lim, p, [f]))
    return tr
