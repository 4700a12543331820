"""Sources (the input of Source.tla): generation, presentation as files, mutation."""
import copy, random

BOXN = ["A", "B", "C"]
NAMES = ["a", "b", "c", "d", "A", "B"]
UNITS = ["hours", "hours-1", "fit", "bool", "int", "float", "years", "years-1", "demands"]
TYPES = {"gate": "gate", "basic": "basic-event", "house": "house-event", "param": "parameter"}
OPS = ["and", "or", "and", "or", "null", "atleast", "not", "nand", "nor", "xor", "iff", "imply", "cardinality"]


# ---- XML -----------------------------------------------------------------------------------------------
def path(r):
    return ".".join(r)


def arg_xml(a, rnd):
    if a["t"] == "const":
        x = '<constant value="%s"/>' % a["r"][0]
    elif a["t"] == "event":
        x = '<event name="%s"/>' % path(a["r"])
    elif rnd.random() < .4:
        x = '<event name="%s" type="%s"/>' % (path(a["r"]), a["t"])
    else:
        x = '<%s name="%s"/>' % (a["t"], path(a["r"]))
    return "<not>%s</not>" % x if a["x"] else x


def formula_xml(f, rnd):
    args = "".join(arg_xml(a, rnd) for a in f["a"])
    if f["o"] == "null":
        return args
    at = {"atleast": ' min="%d"' % f["k"], "cardinality": ' min="%d" max="%d"' % (f["k"], f["m"])}.get(f["o"], "")
    return "<%s%s>%s</%s>" % (f["o"], at, args, f["o"])


def expr_xml(x):
    if x["k"] == "none":
        return ""
    if x["k"] == "v":
        return '<float value="%s"/>' % x["v"]
    if x["k"] == "p":
        return '<parameter name="%s"%s/>' % (path(x["r"]), ' unit="%s"' % x["u"] if x["u"] else "")
    return "<mul>%s</mul>" % "".join(expr_xml(y) for y in x["x"])


def role(d):
    return ' role="%s"' % d["r"] if d["r"] else ""


def def_xml(d, rnd):
    h = ' name="%s"%s' % (d["n"], role(d))
    if d["k"] == "gate":
        return "<define-gate%s>%s</define-gate>" % (h, formula_xml(d["f"], rnd))
    if d["k"] == "basic":
        return "<define-basic-event%s>%s</define-basic-event>" % (h, expr_xml(d["e"]))
    if d["k"] == "house":
        return "<define-house-event%s>%s</define-house-event>" % (h, "" if not d["s"] and rnd.random() < .3 else '<constant value="%s"/>' % str(d["s"]).lower())
    if d["k"] == "param":
        return "<define-parameter%s%s>%s</define-parameter>" % (h, ' unit="%s"' % d["u"] if d["u"] else "", expr_xml(d["e"]))
    return '<define-CCF-group name="%s" model="beta-factor"><members>%s</members><distribution>%s</distribution><factor level="%d">%s</factor></define-CCF-group>' % (
        d["n"], "".join('<basic-event name="%s"/>' % x for x in d["mem"]), expr_xml(d["e"]), len(d["mem"]), expr_xml(d["fac"]))


def ins_xml(i, rnd):
    k = i["k"]
    if k == "rule":
        return '<rule name="%s"/>' % i["n"]
    if k == "link":
        return '<event-tree name="%s"/>' % i["n"]
    if k == "cf":
        return "<collect-formula>%s</collect-formula>" % formula_xml(i["f"], rnd)
    if k == "ce":
        return "<collect-expression>%s</collect-expression>" % expr_xml(i["x"])
    if k == "set":
        return '<set-house-event name="%s"><constant value="%s"/></set-house-event>' % (i["n"], i.get("v") or rnd.choice(["true", "false"]))
    if k == "if":
        return "<if>%s%s%s</if>" % (expr_xml(i["x"]), ins_xml(i["t"][0], rnd), "".join(ins_xml(x, rnd) for x in i["e"]))
    return "<block>%s</block>" % "".join(ins_xml(x, rnd) for x in i["is"])


def branch_xml(b, rnd):
    t = b["t"]
    x = "".join(ins_xml(i, rnd) for i in b["ins"])
    if t["k"] == "seq":
        return x + '<sequence name="%s"/>' % t["n"]
    if t["k"] == "branch":
        return x + '<branch name="%s"/>' % t["n"]
    return x + '<fork functional-event="%s">%s</fork>' % (t["n"], "".join('<path state="%s">%s</path>' % (p["s"], branch_xml(p["b"], rnd)) for p in t["ps"]))


def present(m, rnd, files=1):
    """The source as a list of file texts: order of definitions and split over files are chosen at random."""
    def box(p):
        kids = [def_xml(d, rnd) for d in m["def"] if d["b"] == p]
        for b in m["box"]:
            if b["up"] == p and p:
                kids.append('<define-component name="%s"%s>%s</define-component>' % (b["n"], role(b), box(b["p"])))
        rnd.shuffle(kids)
        return "".join(kids)
    top = []
    data = []
    for d in m["def"]:
        if d["b"] == "":
            (top if d["k"] == "ccf" else data).append(def_xml(d, rnd))
    rnd.shuffle(data)
    while data:
        n = rnd.randint(1, len(data))
        top.append("<model-data>%s</model-data>" % "".join(data[:n]))
        data = data[n:]
    for b in m["box"]:
        if b["up"] == "":
            top.append('<define-fault-tree name="%s">%s</define-fault-tree>' % (b["n"], box(b["p"])))
    for t in m["et"]:
        sq = ['<define-sequence name="%s">%s</define-sequence>' % (s["n"], "".join(ins_xml(i, rnd) for i in s["ins"])) for s in t["sq"]]
        br = ['<define-branch name="%s">%s</define-branch>' % (q["n"], branch_xml(q["b"], rnd)) for q in t["br"]]
        rnd.shuffle(sq)
        rnd.shuffle(br)
        top.append('<define-event-tree name="%s">%s%s%s<initial-state>%s</initial-state></define-event-tree>' % (
            t["n"], "".join('<define-functional-event name="%s"/>' % f for f in t["fe"]), "".join(sq), "".join(br), branch_xml(t["init"], rnd)))
    for q in m["rule"]:
        top.append('<define-rule name="%s">%s</define-rule>' % (q["n"], "".join(ins_xml(i, rnd) for i in q["ins"])))
    for i in m["ie"]:
        top.append('<define-initiating-event name="%s"%s/>' % (i["n"], ' event-tree="%s"' % i["t"] if i["t"] else ""))
    for a in m["al"]:
        top.append('<define-alignment name="%s">%s</define-alignment>' % (a["n"], "".join(
            '<define-phase name="%s" time-fraction="%s">%s</define-phase>' % (p["n"], p["fr"] / 1000, "".join(ins_xml(i, rnd) for i in p["ins"])) for p in a["ph"])))
    for s in m["sub"]:
        top.append('<define-substitution name="%s"%s><hypothesis>%s</hypothesis>%s<target>%s</target></define-substitution>' % (
            s["n"], ' type="%s"' % s["type"] if s["type"] else "", formula_xml(s["h"], random.Random(1)) if s["h"]["o"] != "null" else arg_xml(s["h"]["a"][0], rnd),
            "<source>%s</source>" % "".join('<basic-event name="%s"/>' % path(r) for r in s["src"]) if s["src"] else "",
            '<constant value="%s"/>' % s["tgt"]["r"][0] if s["tgt"]["t"] == "const" else '<basic-event name="%s"/>' % path(s["tgt"]["r"])))
    rnd.shuffle(top)
    parts = [[] for _ in range(files)]
    for x in top:
        rnd.choice(parts).append(x)
    names = rnd.sample(["m1.xml", "m2.xml", "m3.xml"], files)
    return [(n, '<?xml version="1.0"?>\n<opsa-mef%s>%s</opsa-mef>\n' % ((rnd.choice(["", ' name="M"']) if m.get("name") is None else m["name"] and ' name="%s"' % m["name"]), "".join(p))) for n, p in zip(names, parts)]


# ---- generation ------------------------------------------------------------------------------------------
NONE = dict(k="none", v="", r=[], u="", x=[])


def val(r):
    return dict(k="v", v="0.%03d" % r.randint(1, 900), r=[], u="", x=[])


def pref(ref, u=""):
    return dict(k="p", v="", r=ref, u=u, x=[])


def bpath(b, n):
    return b.split(".") + [n] if b else [n]


class Gen:
    def __init__(self, r, wild=0.05):
        self.r, self.wild = r, wild
        self.names, self.pnames = NAMES, ["p", "q", "A"]
        self.m = dict(box=[], **{"def": []}, et=[], rule=[], ie=[], al=[], sub=[])

    def add(self, k, n, b, **kw):
        d = dict(k=k, n=n, b=b, r=kw.pop("r", ""), **kw)
        self.m["def"].append(d)
        return d

    def boxes(self):
        r, m = self.r, self.m
        for n in r.sample(["F", "A", "B"], r.choice([1, 1, 2])):
            m["box"].append(dict(p=n, up="", n=n, r=""))
        for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
            up = r.choice([b["p"] for b in m["box"] if b["p"].count(".") < 3])
            n = r.choice(BOXN)
            p = up + "." + n
            if p not in [b["p"] for b in m["box"]]:
                m["box"].append(dict(p=p, up=up, n=n, r=r.choice(["", "", "private", "public"])))

    def private(self, d):
        if d["r"]:
            return d["r"] == "private"
        p = d["b"]
        while p:
            b = next(x for x in self.m["box"] if x["p"] == p)
            if b["r"]:
                return b["r"] == "private"
            p = b["up"]
        return False

    def free(self, b, n, kinds, rl):
        """Whether a name can be used (only steers generation)."""
        for d, nm in self.named():
            if (d["k"] in kinds or (d["k"] == "ccf" and "basic" in kinds and nm != d["n"])) and nm == n:
                if d["b"] == b and b or not self.private(d) and not rl:
                    return False
        return True

    def named(self):
        for d in self.m["def"]:
            yield d, d["n"]
            if d["k"] == "ccf":
                for x in d["mem"]:
                    yield d, x

    def place(self, kinds, model_ok, names=None):
        r, names = self.r, names or self.names
        for _ in range(60):
            b = r.choice([x["p"] for x in self.m["box"]] + ([""] if model_ok else []))
            n = r.choice(names)
            rl = "" if not b else r.choice(["", "", "private", "public"])
            d = dict(b=b, r=rl)
            if self.free(b, n, kinds, self.private(d)):
                return b, n, rl
        return None

    def spell(self, d, name, base):
        """A reference to the element, made from container base."""
        r = self.r
        full = bpath(d["b"], name)
        opts = []
        if d["b"]:
            opts.append(full)
        if not self.private(d):
            opts += [[name]] * 2
        if base and d["b"] == base:
            opts += [[name]] * 3
        if base and d["b"].startswith(base + "."):
            opts += [d["b"][len(base) + 1:].split(".") + [name]] * 3
        if r.random() < self.wild or not opts:
            opts = [[name], full, full[1:] or full, full[-2:]]
        return r.choice(opts)

    def event_ref(self, d, name, base):
        t = "event" if self.r.random() < .6 else TYPES.get(d["k"], "basic-event")
        if self.r.random() < self.wild / 4:
            t = self.r.choice(["gate", "basic-event", "house-event"])
        return dict(x=False, t=t, r=self.spell(d, name, base))

    def formula(self, pool, base, mono=False):
        """pool: [(definition, name)] of events that may be arguments."""
        r = self.r
        o = r.choice(OPS[:7] if mono else OPS)
        n = {"null": 1, "not": 1, "xor": 2, "iff": 2, "imply": 2}.get(o, r.choice([2, 2, 3, 4]))
        if o == "atleast":
            n = max(n, 3)
        n = min(n, len(pool))
        if n < 2 and o not in ("null", "not") or o == "atleast" and n < 3:
            o, n = "null", 1
        a = [self.event_ref(d, nm, base) for d, nm in r.sample(pool, n)]
        for x in a:
            if o != "null" and o != "not" and r.random() < .15:
                x["x"] = True
        if r.random() < .05:
            a[0] = dict(x=False, t="const", r=[r.choice(["true", "false"])])
        k = m = 0
        if o == "atleast":
            k = r.randint(2, n - 1)
        if o == "cardinality":
            k = r.randint(0, n)
            m = r.randint(k, n)
        return dict(o=o, k=k, m=m, a=a)

    def expr(self, params, base):
        r = self.r
        if params and r.random() < .6:
            d = r.choice(params)
            u = d["u"] if r.random() < .3 else "" if r.random() < 1 - self.wild / 4 else "hours"
            p = pref(self.spell(d, d["n"], base), u)
            return p if r.random() < .8 else dict(k="mul", v="", r=[], u="", x=[p, val(r)])
        return val(r)

    def fault_trees(self, nb=None, ng=None):
        r = self.r
        self.boxes()
        params = []
        for _ in range(r.choice([0, 1, 2, 3])):
            at = self.place({"param"}, True, self.pnames)
            if at:
                d = self.add("param", at[1], at[0], r=at[2], e=NONE, u=r.choice(["", "", r.choice(UNITS)]))
                d["e"] = self.expr(params, at[0])
                params.append(d)
        leaves = []
        for _ in range(nb or r.randint(2, 6)):
            at = self.place({"gate", "basic", "house"}, True)
            if at:
                leaves.append((self.add("basic", at[1], at[0], r=at[2], e=self.expr(params, at[0])), at[1]))
        if r.random() < .3:
            at = self.place({"ccf"}, True, ["g", "A"])
            if at:
                b = at[0]
                mem = [n for n in ["m", "n", "a", "b"] if self.free(b, n, {"gate", "basic", "house"}, self.private(dict(b=b, r="")))][:r.choice([2, 2, 3])]
                if len(mem) >= 2:
                    d = self.add("ccf", at[1], b, mem=mem, e=self.expr(params, b), fac=self.expr(params, b))
                    leaves += [(d, x) for x in mem]
        for _ in range(r.choice([0, 0, 1, 2])):
            at = self.place({"gate", "basic", "house"}, True)
            if at:
                leaves.append((self.add("house", at[1], at[0], r=at[2], s=r.random() < .5), at[1]))
        gates = []
        for _ in range(ng or r.randint(1, 6)):
            at = self.place({"gate", "basic", "house"}, False)
            if at and leaves:
                pool = leaves + gates * 2
                pool = [x for i, x in enumerate(pool) if x not in pool[:i]]
                f = self.formula(pool, at[0])
                gates.append((self.add("gate", at[1], at[0], r=at[2], f=f), at[1]))
        self.leaves, self.gates, self.params = leaves, gates, params
        return self.m

    # ---- event trees ------------------------------------------------------------------------------------
    def ins(self, d=0):
        r = self.r
        k = r.random()
        if k < .4 or d > 2:
            if self.kind == "cf":
                return dict(k="cf", f=self.formula(self.leaves + self.gates, ""))
            return dict(k="ce", x=dict(k="mul", v="", r=[], u="", x=[dict(val(r), v="0.01"), self.expr(self.params, "")]))
        house = [x["n"] for x in self.m["def"] if x["k"] == "house" and not self.private(x)]
        if k < .55 and house:
            return dict(k="set", n=r.choice(house))
        if k < .75:
            return {"k": "if", "x": self.expr(self.params, "") if r.random() < .5 else val(r), "t": [self.ins(d + 1)], "e": [self.ins(d + 1)] if r.random() < .5 else []}
        if k < .9 and self.rules:
            return dict(k="rule", n=r.choice(self.rules))
        return dict(k="block", **{"is": [self.ins(d + 1) for _ in range(r.randint(0, 2))]})

    def some(self):
        return [self.ins() for _ in range(self.r.choice([0, 0, 1, 2]))]

    def branch(self, fe, order, named, seqs, depth):
        r = self.r
        ins = self.some()
        if order < len(fe) and depth < 3 and r.random() < (.9 if depth == 0 else .5):
            f = r.randint(order + 1, len(fe))
            ps = [dict(s=s, b=self.branch(fe, f, named, seqs, depth + 1)) for s in r.sample(["yes", "no", "half"], r.choice([1, 2, 2]))]
            return dict(ins=ins, t=dict(k="fork", n=fe[f - 1], ps=ps))
        cand = [n for n, o in named if o > order]
        if cand and r.random() < .5:
            return dict(ins=ins, t=dict(k="branch", n=r.choice(cand), ps=[]))
        return dict(ins=ins, t=dict(k="seq", n=r.choice(seqs), ps=[]))

    def event_trees(self):
        r, m = self.r, self.m
        self.kind = r.choice(["cf", "cf", "ce"])
        self.rules = []
        for n in ["R1", "R2"][:r.choice([0, 1, 2])]:
            body = [self.ins(1) for _ in range(r.randint(1, 2))]
            m["rule"].append(dict(n=n, ins=body))
            self.rules.append(n)
        nt = r.choice([1, 1, 2, 3])
        sq = []
        for i in range(nt, 0, -1):
            mine = ["S%d%s" % (i, x) for x in "ab"[:r.randint(1, 2)]]
            defs = []
            for q in mine:
                ins = self.some()
                if i < nt and r.random() < .6:
                    ins.append(dict(k="link", n="T%d" % r.randint(i + 1, nt)))
                defs.append(dict(n=q, ins=ins))
            fe = r.sample(["F1", "F2", "F3"], r.randint(1, 3))
            named, br = [], []
            for n in ["B1", "B2"][:r.choice([0, 1, 2])]:
                o = r.randint(1, len(fe) + 1)
                br.append(dict(n=n, b=self.branch(fe, o - 1, list(named), mine, 1)))
                named.append((n, o))
            m["et"].append(dict(n="T%d" % i, fe=fe, sq=defs, br=br, init=self.branch(fe, 0, named, mine, 0)))
            sq += mine
        for n in ["I1", "I2"][:r.choice([1, 1, 2])]:
            m["ie"].append(dict(n=n, t=r.choice(["T1", "T1", "T%d" % nt, ""])))

    def alignments(self):
        r, m = self.r, self.m
        house = [x["n"] for x in m["def"] if x["k"] == "house" and not self.private(x)]
        for n in ["L1", "L2"][:r.choice([1, 1, 2])]:
            cut = sorted(r.sample(range(1, 1000), r.choice([0, 1, 2])))
            fr = [b - a for a, b in zip([0] + cut, cut + [1000])]
            m["al"].append(dict(n=n, ph=[dict(n="P%d" % i, fr=x, ins=[dict(k="set", n=r.choice(house))] if house and r.random() < .6 else [])
                                        for i, x in enumerate(fr, 1)]))

    def substitutions(self):
        r, m = self.r, self.m
        basics = [x for x in self.leaves if x[0]["k"] in ("basic", "ccf")]
        if len(basics) < 3:
            return
        ref = lambda x: dict(x=False, t="basic-event", r=self.spell(x[0], x[1], ""))
        for n in ["U1", "U2"][:r.choice([1, 1, 2])]:
            decl = r.random() < .6
            o = r.choice(["null", "and", "and", "or"] + (["atleast"] if decl else []))
            hs = r.sample(basics, {"null": 1, "atleast": 3}.get(o, r.choice([2, 2, min(3, len(basics))])))
            h = dict(o=o, k=2 if o == "atleast" else 0, m=0, a=[ref(x) for x in hs])
            src = [] if decl else [ref(r.choice(hs if r.random() < .7 else basics))["r"]]
            tgt = dict(x=False, t="const", r=["false" if decl else "true"]) if r.random() < .3 else ref(r.choice(basics))
            m["sub"].append(dict(n=n, h=h, src=src, tgt=tgt, type=r.choice([""] * 12 + ["delete-terms", "recovery-rule", "exchange-event"])))


# ---- mutation: one change somewhere, usually for the worse -----------------------------------------------
def walk(x, f):
    """Apply f to every record of a source."""
    if isinstance(x, dict):
        f(x)
        for v in x.values():
            walk(v, f)
    elif isinstance(x, list):
        for v in x:
            walk(v, f)


def mutate(r, m):
    recs = []
    walk(m, recs.append)
    args = [x for x in recs if "t" in x and isinstance(x.get("t"), str) and "r" in x and "x" in x]
    forms = [x for x in recs if "o" in x and "a" in x]
    exprs = [x for x in recs if x.get("k") in ("v", "p", "mul") and "x" in x]
    ins = [x for x in recs if x.get("k") in ("rule", "link", "set") and "n" in x]
    blists = [x for x in recs if "ins" in x]
    targets = [x for x in recs if x.get("k") in ("seq", "branch", "fork")]
    names = ["R1", "R2", "T1", "T2", "T3", "B1", "B2", "S1a", "S1b", "S2a", "S3a", "F1", "F2", "F3", "zz"]
    k = r.choice(["arg", "arg", "form", "form", "dup-arg", "expr", "unit", "ins", "ins+", "target", "target", "fork", "rename", "rename",
                  "copy", "role", "move", "drop", "swap", "members", "none", "phase", "sub", "fe", "kind", "rules"])
    d = m["def"]
    if k == "arg" and args:
        a, b = r.choice(args), r.choice(args)
        if r.random() < .5:
            a["r"] = list(b["r"])
        else:
            a["r"] = r.choice([a["r"][1:] or ["zz"], a["r"] + ["a"], ["zz"], [r.choice(["F", "A"])] + a["r"]])
    elif k == "form" and forms:
        f = r.choice(forms)
        q = r.choice(["o", "k", "less", "more"])
        if q == "o":
            f["o"] = r.choice(OPS)
        elif q == "k":
            f["k"], f["m"] = r.randint(0, 5), r.randint(0, 5)
        elif q == "less" and len(f["a"]) > 1:
            f["a"].pop(r.randrange(len(f["a"])))
        elif args:
            f["a"].append(copy.deepcopy(r.choice(args)))
        if f["o"] in ("null", "not"):
            f["a"] = f["a"][:1]
            f["a"][0]["x"] = False
        if f["o"] in ("xor", "iff", "imply"):   # the schema demands two
            f["a"] = (f["a"] * 2)[:2]
    elif k == "dup-arg" and forms:
        f = r.choice(forms)
        if f["o"] not in ("null", "not", "xor", "iff", "imply"):
            a = copy.deepcopy(r.choice(f["a"]))
            if a["t"] != "const" and r.random() < .5:
                a["x"] = not a["x"]
            f["a"].append(a)
    elif k == "expr" and exprs:
        x = r.choice(exprs)
        ps = [p for p in d if p["k"] == "param"]
        if ps:
            p = r.choice(ps)
            x.update(pref(bpath(p["b"], p["n"]) if p["b"] and r.random() < .7 else [p["n"]]))
    elif k == "unit" and exprs:
        x = r.choice(exprs)
        if x["k"] == "p":
            x["u"] = r.choice(UNITS)
    elif k == "ins" and ins:
        r.choice(ins)["n"] = r.choice(names)
    elif k == "ins+" and blists and (m["rule"] or m["et"]):
        x = r.choice(blists)
        new = dict(k=r.choice(["rule", "link", "link"]), n=r.choice(["R1", "R2", "T1", "T2", "T3"]))
        if x.get("fr"):
            pass
        elif r.random() < .5:
            br = [[new], []] if r.random() < .5 else [[dict(k="block", **{"is": []})], [new]]
            x["ins"].append({"k": "if", "x": dict(k="v", v="0.1", r=[], u="", x=[]), "t": br[0], "e": br[1]} if r.random() < .7 else dict(k="block", **{"is": [new]}))
        else:
            x["ins"].append(new)
    elif k == "rules" and m["et"]:     # rules that use one another, maybe in a cycle
        while len(m["rule"]) < 2 and not any(x["n"] == "R%d" % (len(m["rule"]) + 1) for x in m["rule"]):
            m["rule"].append(dict(n="R%d" % (len(m["rule"]) + 1), ins=[dict(k="block", **{"is": []})]))
        some = lambda: dict(k="v", v="0.1", r=[], u="", x=[])
        for a, b in [(z[:2], z[2:]) for z in r.choice([["R1R2"], ["R2R1"], ["R1R2", "R2R1"], ["R1R2", "R2R1"], ["R1R1"]])]:
            new, none = dict(k="rule", n=b), dict(k="block", **{"is": []})
            for _ in range(r.choice([0, 1, 1, 2])):
                new = r.choice([lambda y: {"k": "if", "x": some(), "t": [y], "e": []}, lambda y: {"k": "if", "x": some(), "t": [none], "e": [y]},
                                lambda y: {"k": "if", "x": some(), "t": [y], "e": [none]}, lambda y: dict(k="block", **{"is": [none, y]})])(new)
            for x in m["rule"]:
                if x["n"] == a:
                    x["ins"].append(new)
        t = r.choice(m["et"])
        r.choice(t["sq"])["ins"].append(dict(k="rule", n=r.choice(["R1", "R2"])))
    elif k == "target" and targets:
        x = r.choice(targets)
        if x["k"] == "fork":
            x["n"] = r.choice(["F1", "F2", "F3"])
        elif r.random() < .6:
            x.update(k="branch", n=r.choice(["B1", "B2", "B2", "zz"]))
        else:
            x.update(k="seq", n=r.choice(["S1a", "S1b", "S2a", "S3a", "zz"]))
    elif k == "fork" and targets:
        x = r.choice(targets)
        if x["k"] == "fork":
            x["ps"].append(copy.deepcopy(r.choice(x["ps"])))
            if r.random() < .5:
                x["ps"][-1]["s"] = "other"
    elif k == "rename":
        pool = d + m["box"] + m["et"] + m["rule"] + m["ie"] + m["al"] + m["sub"] + [s for t in m["et"] for s in t["sq"] + t["br"]] + [p for a in m["al"] for p in a["ph"]]
        x = r.choice(pool)
        if x in m["box"]:
            same = [b for b in m["box"] if b["up"] == x["up"]]
            n, old = r.choice([b["n"] for b in same] + ["A", "Z"]), x["p"]
            if not any(b["p"] == (x["up"] + "." + n if x["up"] else n) for b in m["box"] if b is not x):   # identical paths would merge the containers
                x["n"], x["p"] = n, (x["up"] + "." + n if x["up"] else n)
                for y in m["box"]:
                    for key in ("up", "p"):
                        if y is not x and (y[key] == old and key == "up" or y[key].startswith(old + ".")):
                            y[key] = x["p"] + y[key][len(old):]
                for y in d:
                    if y["b"] == old or y["b"].startswith(old + "."):
                        y["b"] = x["p"] + y["b"][len(old):]
        else:
            x["n"] = r.choice([y["n"] for y in pool if y not in m["box"]])
    elif k == "copy":
        pool = r.choice([x for x in (d, m["et"], m["rule"], m["ie"], m["al"], m["sub"]) if x])
        pool.append(copy.deepcopy(r.choice(pool)))
        if pool is m["et"]:
            pool[-1]["n"] = r.choice(["T9", pool[-1]["n"]])
    elif k == "role":
        x = r.choice(d + m["box"])
        if not (x in m["box"] and not x["up"]) and x.get("k") != "ccf":
            x["r"] = r.choice(["private", "public", ""])
    elif k == "move":
        x = r.choice(d)
        if x["k"] != "gate":
            x["b"] = r.choice([b["p"] for b in m["box"]] + [""])
            if not x["b"] and r.random() < .8:
                x["r"] = ""
    elif k == "drop":
        pool = r.choice([x for x in (d, m["et"], m["rule"]) if x])
        pool.pop(r.randrange(len(pool)))
    elif k == "swap" and args:
        r.choice(args)["t"] = r.choice(["gate", "basic-event", "house-event"])
        for a in args:
            if a["r"] in (["true"], ["false"]) and a["t"] != "const":
                a["t"] = "const"
    elif k == "members":
        g = [x for x in d if x["k"] == "ccf"]
        if g:
            x = r.choice(g)
            x["mem"] = r.choice([x["mem"][:1], x["mem"] + x["mem"][:1], x["mem"] + ["a"]])
    elif k == "none":
        x = r.choice([x for x in d if x["k"] == "basic"] or [dict()])
        x["e"] = NONE
    elif k == "phase" and m["al"]:
        a = r.choice(m["al"])
        p = r.choice(a["ph"])
        q = r.choice(["fr", "zero", "n"])
        if q == "fr":
            p["fr"] = r.choice([p["fr"] + 1, p["fr"] // 2, 1500, -100])
        elif q == "zero":
            a["ph"].append(dict(n="P9", fr=0, ins=[]))
        else:
            a["ph"][-1]["n"] = a["ph"][0]["n"]
    elif k == "sub" and m["sub"]:
        s = r.choice(m["sub"])
        q = r.choice(["o", "src", "tgt", "const", "type", "neg"])
        if q == "o" and len(s["h"]["a"]) == 2:
            s["h"]["o"] = r.choice(["xor", "nand", "nor", "iff", "imply", "or", "and"])
        elif q == "src":
            s["src"] = (s["src"] or [list(s["h"]["a"][0]["r"])]) + [list(r.choice(s["h"]["a"])["r"])]
        elif q == "tgt" and args:
            s["tgt"] = dict(x=False, t="basic-event", r=list(r.choice([a for a in args if a["t"] != "const"] or [dict(r=["zz"])])["r"]))
        elif q == "const":
            s["tgt"] = dict(x=False, t="const", r=[r.choice(["true", "false"])])
        elif q == "type":
            s["type"] = r.choice(["delete-terms", "recovery-rule", "exchange-event"])
        elif s["h"]["o"] != "null":
            r.choice(s["h"]["a"])["x"] = True
    elif k == "fe" and m["et"]:
        t = r.choice(m["et"])
        if r.random() < .5:
            r.shuffle(t["fe"])
        else:
            t["fe"].append(r.choice(t["fe"]))
    elif k == "kind" and m["et"]:
        x = r.choice(blists)
        if not x.get("fr"):
            x["ins"].append(dict(k="ce", x=dict(k="v", v="0.01", r=[], u="", x=[])))
    for a in args:   # a constant is written as a constant
        if a["t"] == "const" and (a["r"] not in (["true"], ["false"]) or a["x"]):
            a["r"], a["x"] = [a["r"][0] if a["r"][0] in ("true", "false") else "true"], False
    return k


def plain_nots(x):
    """The schema has no negated constant."""
    if isinstance(x, dict):
        if x.get("o") == "not" and "a" in x and x["a"][0]["t"] == "const":
            x["o"] = "null"
        for y in x.values():
            plain_nots(y)
    elif isinstance(x, list):
        for y in x:
            plain_nots(y)


def gen(case):
    """case: {seed, kind: "scope" | "all", mut: number of mutations, wild}"""
    r = random.Random(case["seed"])
    g = Gen(r, case.get("wild", .05))
    if case["kind"] == "all" and r.random() < .75:   # mostly distinct names: more well-formed sources
        g.names, g.pnames = [chr(97 + i) for i in range(15)] + ["A", "F"], ["pa", "pb", "pc", "pd"]
    m = g.fault_trees()
    if case["kind"] == "all":
        if r.random() < .6 and g.leaves:
            g.event_trees()
        if r.random() < .35:
            g.alignments()
        if r.random() < .35:
            g.substitutions()
    for _ in range(case.get("mut", 0)):
        mutate(r, m)
    plain_nots(m)
    for x in m["sub"]:   # the only type the schema has for targets
        if x["tgt"]["t"] != "const":
            x["tgt"]["t"] = "basic-event"
    if not any(d["k"] == "gate" for d in m["def"]):
        m["def"].append(dict(k="gate", n="top", b=m["box"][0]["p"], r="", f=dict(o="null", k=0, m=0, a=[dict(x=False, t="const", r=["true"])])))
    return m
