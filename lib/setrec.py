"""Recording analysis settings (events of SettingsTrace.tla)."""
import os, random, xml.etree.ElementTree as ET
import expr, ft, ftrec, quantrec, sc

FLAGS = ["prime", "probability", "sil", "importance", "uncertainty", "ccf"]
COUNTS = ["limit", "trials", "quantiles", "bins", "seed"]
REALS = ["cutoff", "mission", "step"]
OPT = {"limit": "limit-order", "cutoff": "cut-off", "mission": "mission-time", "step": "time-step", "trials": "num-trials",
       "quantiles": "num-quantiles", "bins": "num-bins", "seed": "seed", "prime": "prime-implicants"}
TAG = {"limit": "product-order", "cutoff": "cut-off", "mission": "mission-time", "step": "time-step",
       "trials": "number-of-trials", "quantiles": "number-of-quantiles", "bins": "number-of-bins", "seed": "seed"}
ORDER = ["algorithm", "approximation", "prime", "limit", "cutoff", "trials", "quantiles", "bins", "seed", "mission", "step",
         "probability", "sil", "importance", "uncertainty", "ccf"]


def rec_walk(w, case):
    """case: {walk: [[setting, value]...]}: the real settings driven through one history of requests."""
    walk = case["walk"]
    arg = lambda k, v: "%s=%s" % (k, int(v) if isinstance(v, bool) else v)
    rc, err = w.run(["@api", "settings"] + [arg(k, v) for k, v in walk])
    lines = open(w.path("stdout")).read().splitlines()
    evs = [dict(e="reset")]
    for n, (k, v) in enumerate(walk):
        if n >= len(lines):     # the program ended
            evs.append(dict(e="set", k=k, v=v, ok=False, s={x: "nan" for x in ORDER}, rc=rc))
            break
        f = lines[n].split()
        s = {x: (y == "1" if x in FLAGS else y) for x, y in zip(ORDER, f[1:])}
        evs.append(dict(e="set", k=k, v=v, ok=f[0] == "1", s=s))
    return evs


# ---- whole runs ------------------------------------------------------------------------------------
def model(r):
    """A small model whose results show every setting: two cut sets, a complement, a group, a time dependence."""
    t = ft.gen(random.Random(5), n=4, ng=1, house=0)
    a, b, cc, d = r.sample([1, 2, 3, 4], 4)
    t.gates = [dict(o="and", k=0, m=0, a=[a, b]), dict(o="and", k=0, m=0, a=[cc, -d]), dict(o="or", k=0, m=0, a=[101, 102])]
    t.gname = ["g1", "g2", "top"]
    P = [expr.c("0.%d" % r.randint(1, 6)) for _ in range(4)]
    P[cc - 1] = expr.op("exponential", expr.c("%de-5" % r.randint(1, 30)), expr.MT)
    P[b - 1] = P[a - 1]
    return t, P, (a, b)


def model_xml(t, P, pair):
    r = random.Random(1)
    inside = "".join(t.gate_xml(j, r) for j in (1, 2, 3))
    grouped = ['<define-basic-event name="%s"/>' % t.bname[i - 1] for i in pair]
    data = [x for i, x in enumerate(t.data_xml([expr.xml(p) for p in P]), 1) if i not in pair]
    ccf = '<define-CCF-group name="CCF" model="beta-factor"><members>%s</members><distribution>%s</distribution><factor level="2"><float value="0.2"/></factor></define-CCF-group>' % (
        "".join('<basic-event name="%s"/>' % t.bname[i - 1] for i in pair), expr.xml(P[pair[0] - 1]))
    return ('<?xml version="1.0"?>\n<opsa-mef><define-fault-tree name="F">%s%s</define-fault-tree><model-data>%s</model-data></opsa-mef>\n'
            % (inside, ccf, "".join(data)))


def value(r, k, wild):
    """A value for numeric setting k; (text, malformed)."""
    if wild and r.random() < .25:
        if k in COUNTS:
            return r.choice([("-1", False), ("0", False), ("2147483648", True), ("99999999999", True), ("1.5", True), ("x", True), ("", True)])
        return r.choice([("-1", False), ("-1e-9", False), ("nan", False), ("inf", False), ("1e999", True), ("x", True), ("0x10", True), ("1,5", True)] +
                        ([("1.0000001", False), ("2", False)] if k == "cutoff" else []))
    v = {"limit": ["0", "1", "2", "3", "20", "32000"], "trials": ["1", "2", "7", "100", "1000"], "quantiles": ["1", "2", "20", "13"],
         "bins": ["1", "2", "20", "7"], "seed": ["0", "1", "123456", "2147483647"], "cutoff": ["0", "1", "1e-8", "0.5"],
         "mission": ["100", "8760", "0", "1e3", "0.25"], "step": ["0", "1000", "2500.5", "25", "25"]}[k]
    return r.choice(v), False


def requests(r, p, wild, cli):
    """Requests: list of [setting, value], whether something is malformed."""
    out, bad = [], False
    if r.random() < p:
        out.append(["algorithm", r.choice(["bdd", "bdd", "zbdd", "mocus"])])
    if r.random() < p * .7:
        out.append(["approximation", r.choice(["rare-event", "mcub"])])
    for k, q in (("prime", .35), ("probability", .6), ("sil", .3), ("importance", .4), ("uncertainty", .4), ("ccf", .3)):
        if r.random() < p * q:
            out.append([k, True if cli or k == "prime" else r.random() < .7])
    for k in COUNTS + REALS:
        if r.random() < p * (.7 if k == "step" else .4):
            v, b = value(r, k, wild)
            out.append([k, v])
            bad = bad or b
    r.shuffle(out)
    return out, bad


def project_xml(r, reqs, files):
    d = dict((k, v) for k, v in reqs)
    sp = lambda x: r.choice([x, x, x, " " + x + " ", "\n" + x])
    x = ""
    if "algorithm" in d:
        x += '<algorithm name="%s"/>' % d["algorithm"]
    if "prime" in d:
        x += "<prime-implicants/>"
    an = [(k, v) for k, v in reqs if k in FLAGS and k != "prime"]
    if an or r.random() < .1:
        x += "<analysis%s/>" % "".join(' %s="%s"' % (k, r.choice(["true", "1"] if v else ["false", "0"])) for k, v in an)
    if "approximation" in d:
        x += '<approximation name="%s"/>' % d["approximation"]
    lim = [(k, v) for k, v in reqs if k in TAG]
    if lim or r.random() < .1:
        x += "<limits>%s</limits>" % "".join("<%s>%s</%s>" % (TAG[k], sp(v), TAG[k]) for k, v in lim)
    return '<?xml version="1.0"?>\n<scram%s><model>%s</model><options>%s</options></scram>\n' % (
        r.choice(["", "", ' version="0.11.0"', ' version="0.16.2"']), "".join("<file>%s</file>" % f for f in files), x)


def command(r, reqs):
    out = []
    for k, v in reqs:
        if k in ("algorithm", "approximation"):
            out.append(["--" + v])
        elif k in FLAGS:
            out.append(["--" + OPT.get(k, k)])
        elif k == "limit" and r.random() < .3 and not v.startswith("-"):
            out.append(["-l", v])
        elif r.random() < .5 or v.startswith("-") or v == "":
            out.append(["--%s=%s" % (OPT[k], v)])
        else:
            out.append(["--" + OPT[k], v])
    return out


def spoil(r, opts, reqs):
    """Makes a malformed command line."""
    k = r.choice(["alg", "appr", "unknown", "verb", "dup", "missing", "noinput"])
    if k == "alg":
        opts += [["--" + x] for x in ("bdd", "zbdd", "mocus") if ["--" + x] not in opts][:2]
    elif k == "appr":
        opts += [["--" + x] for x in ("rare-event", "mcub") if ["--" + x] not in opts]
    elif k == "unknown":
        opts.append(["--no-such-option"])
    elif k == "verb":
        opts.append(["--verbosity", r.choice(["8", "-1", "100", "x"])])
    elif k == "dup":
        opts += [["--mission-time", "10"], ["--mission-time", "10"]]
    elif k == "missing":
        opts.append(["--project=/nonexistent/project.xml"]) if not any(o[0].startswith("--project") for o in opts) else opts.append(["--sed"  "d"])
    return k


def observe(root, names):
    info, res = root.find("information"), root.find("results")
    o = dict(prime=False, algorithm="", limit="0", probability=False, approximation="", mission="0", step="0", importance=False,
             uncertainty=False, trials="0", seed="0", ccf=False, sil=False)
    for q in info.findall("calculated-quantity"):
        n = q.get("name")
        if n in ("Prime Implicants", "Minimal Cut Sets"):
            o["prime"] = n == "Prime Implicants"
            o["algorithm"] = {"Binary Decision Diagram": "bdd", "Zero-Suppressed Binary Decision Diagram": "zbdd", "MOCUS": "mocus"}[q.find("calculation-method").get("name")]
            o["limit"] = q.findtext(".//product-order").strip()
        elif n == "Probability Analysis":
            o["probability"], o["approximation"] = True, q.get("approximation")
            o["mission"] = q.findtext(".//mission-time").strip()
            o["step"] = (q.findtext(".//time-step") or "0").strip()
        elif n == "Importance Analysis":
            o["importance"] = True
        elif n == "Uncertainty Analysis":
            o["uncertainty"] = True
            o["trials"] = q.findtext(".//number-of-trials").strip()
            o["seed"] = (q.findtext(".//seed") or "-1").strip()
        elif n == "Common Cause Failure Analysis":
            o["ccf"] = True
        elif n == "Safety Integrity Levels":
            o["sil"] = True
    sop = res.find("sum-of-products")
    m = res.find("measure")
    o.update(top=3, ccfevents=sop.find(".//ccf-event") is not None, rprobability=sop.get("probability") is not None,
             rimportance=res.find("importance") is not None, rmeasure=m is not None,
             quantiles=int(m.find("quantiles").get("number")) if m is not None else 0,
             bins=int(m.find("histogram").get("number")) if m is not None else 0,
             points=len(res.findall("curve/point")), rsil=res.find("safety-integrity-levels") is not None)
    return o


def rec_cli(w, case):
    """case: {seed, n}: n runs with one model."""
    r = random.Random(case["seed"])
    t, P, pair = model(r)
    f = w.write("m.xml", model_xml(t, P, pair))
    evs = [dict(e="sload", m=dict(t.json(), P=P, par=[]))]
    for _ in range(case["n"]):
        wild = r.random() < .4
        useproj = r.random() < .7
        p, bad1 = requests(r, .55, wild and r.random() < .5, False) if useproj else ([], False)
        c, bad2 = requests(r, .45, wild, True)
        bad = bad1 or bad2
        proj = None
        if useproj:
            p2 = [(k, v) for k, v in p]
            # the schema of project files only takes non-negative whole numbers
            bad = bad or any(k in COUNTS and v.startswith("-") for k, v in p)
            proj = w.write("p.xml", project_xml(r, p2, [f]))
        opts = command(r, c)
        if proj:
            opts.append(["--project", proj] if r.random() < .7 else ["--project=" + proj])
        validate = r.random() < .05
        if validate:
            opts.append(["--validate"])
        files = [] if proj else [[f]]
        if r.random() < .12:
            bad = True
            if spoil(r, opts, c) == "noinput":
                opts, files = [o for o in opts if not o[0].startswith("--project")], []
        out = w.path("o.xml")
        if os.path.exists(out):
            os.unlink(out)
        opts.append(r.choice([["-o", out], ["--output", out], ["--output=" + out]]))
        r.shuffle(opts)
        if r.random() < .5:
            opts = files + opts if not opts or r.random() < .5 else opts + files
        else:
            opts = opts + files
        args = [x for o in opts for x in o]
        rc, err = w.run(args)
        ev = dict(e="cli", p=p, c=c, bad=bad, validate=validate, rc=rc, err=err[-300:], args=args,
                  out=os.path.exists(out) and os.path.getsize(out) > 0, obs={}, tops=[], approx="none", limited=True, sil=False)
        if rc == 0 and ev["out"]:
            root = sc.parse_report(out)
            ev["obs"] = observe(root, t)
            bidx = {n: i for i, n in enumerate(t.bname, 1)}
            if not ev["obs"]["ccfevents"] and root.find("results/importance//ccf-event") is None:
                ev["tops"] = quantrec.collect(root.find("results"), lambda x: dict(g=1), lambda x: bidx[x.get("name")])
            else:
                ev["tops"] = [dict(prods=[], p="0")]
        evs.append(ev)
    return evs


def rec(w, case):
    return rec_walk(w, case) if "walk" in case else rec_cli(w, case)
