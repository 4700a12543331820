"""Recording whole analyses (events of SysTrace.tla)."""
import os, random
import quantrec, sc, sysgen


def ident(s, x):
    a, p = x.get("alignment"), x.get("phase")
    al = int(a[1:]) if a else 0
    d = dict(al=al, ph=1 + [q["n"] for q in s.al[al - 1]].index(p) if al else 0, s=0, ie=0, g=0)
    if x.get("initiating-event") is not None:
        d.update(k="s", ie=1 + [i["n"] for i in s.ie].index(x.get("initiating-event")), s=int(x.get("name")[1:]))
    else:
        d.update(k="g", g=s.t.gname.index(x.get("name")) + 1)
    return d


def run(w, s, files, alg="bdd", approx="none", lim=20, pi=False, prob=True, imp=False, mt="100", step="0"):
    out = w.path("o.xml")
    if os.path.exists(out):
        os.unlink(out)
    args = ["--" + alg, "-l", lim, "--mission-time", mt, "-o", out]
    if prob:
        args.append("--probability")
    if approx != "none":
        args.append("--" + approx)
    if pi:
        args.append("--prime-implicants")
    if imp:
        args.append("--importance")
    if float(step):
        args += ["--time-step", step]
    if alg != "bdd" and approx == "none":
        args = ["@api", "algorithm=" + alg, "approximation=none", "probability=%d" % prob, "importance=%d" % imp,
                "limit=%d" % lim, "mission=" + mt, "step=" + step, "--", out]
    rc, err = w.run(args + files)
    ev = dict(e="sys", alg=alg, approx=approx, limited=lim < 20, lim=lim, pi=pi, prob=prob, imp=imp, mt=mt, step=step, sil=False,
              rc=rc, err=err[-300:], out=os.path.exists(out) and os.path.getsize(out) > 0, tops=[], xres=[], eta=[])
    if rc == 0:
        root = sc.parse_report(out).find("results")
        bidx = {n: i for i, n in enumerate(s.t.bname, 1)}
        ev["tops"] = quantrec.collect(root, lambda x: ident(s, x), lambda x: bidx[x.get("name")])
        none = [r for r in ev["tops"] if r["k"] == "s" and r["np"] == -1 and not r["imp"] and not r["sil"]]
        ev["tops"] = [r for r in ev["tops"] if r not in none]
        ev["xres"] = [{k: r[k] for k in ("ie", "s", "al", "ph", "curve")} for r in none]
        for x in root.findall("initiating-event"):
            a = x.get("alignment")
            al = int(a[1:]) if a else 0
            bad = []
            ev["eta"].append(dict(ie=1 + [i["n"] for i in s.ie].index(x.get("name")), al=al,
                                  ph=1 + [q["n"] for q in s.al[al - 1]].index(x.get("phase")) if al else 0,
                                  n=int(x.get("sequences")),
                                  seqs=[[int(q.get("name")[1:]), quantrec.num(q.get("value"), bad)] for q in x.findall("sequence")]))
    return ev


def rec(w, case):
    """case: {seed, kind, ..., runs: [kwargs of run]}"""
    s = sysgen.gen(case)
    r = random.Random("x%s" % case["seed"])
    f = w.write("m.xml", s.xml(r))
    return [dict(e="sload", m=s.json())] + [run(w, s, [f], **k) for k in case["runs"]]
