"""Whole models for System.tla: fault trees, event trees, alignments, substitutions; generation and XML."""
import random
import expr, ft, quantrec
from expr import c, op, MT

STATES = ["yes", "no", "half", "S1"]


class Sys:
    """Abstract model: a fault tree t (ft.FT) plus everything around it."""

    def __init__(self, t):
        self.t = t
        self.P, self.par = [], []
        self.ft = [1] * len(t.gates)
        self.ie, self.et, self.seq, self.rules, self.al, self.subs = [], [], [], [], [], []
        self.fun = []          # per tree: names of functional events

    def json(self):
        return dict(self.t.json(), P=self.P, par=self.par, ft=self.ft, ie=self.ie, et=self.et, seq=self.seq,
                    rules=self.rules, al=self.al, subs=self.subs)

    # ---- XML -----------------------------------------------------------------------------------
    def formula(self, f, rnd):
        return self.t.formula_xml(f, rnd)

    def ins(self, i, rnd):
        o = i["o"]
        if o == "set":
            d = ' direction="forward"' if rnd.random() < .2 else ""
            n = self.t.hname[i["h"] - 1] if i["h"] else "nowhere"
            return '<set-house-event name="%s"%s><constant value="%s"/></set-house-event>' % (n, d, "true" if i["v"] else "false")
        if o == "cf":
            return "<collect-formula>%s</collect-formula>" % self.formula(i["f"], rnd)
        if o == "ce":
            return "<collect-expression>%s</collect-expression>" % expr.xml(i["x"])
        if o == "if":
            return "<if>%s%s%s</if>" % (expr.xml(i["c"]), self.ins(i["t"], rnd), "".join(self.ins(x, rnd) for x in i["e"]))
        if o == "block":
            return "<block>%s</block>" % "".join(self.ins(x, rnd) for x in i["i"])
        if o == "rule":
            return '<rule name="R%d"/>' % i["n"]
        return '<event-tree name="ET%d"/>' % i["n"]

    def branch(self, b, rnd):
        x = "".join(self.ins(i, rnd) for i in b["ins"])
        to = b["to"]
        if to["k"] == "seq":
            return x + '<sequence name="Q%d"/>' % to["n"]
        if to["k"] == "br":
            return x + '<branch name="B%d"/>' % to["n"]
        return x + '<fork functional-event="%s">%s</fork>' % (to["f"], "".join(
            '<path state="%s">%s</path>' % (p["s"], self.branch(p["b"], rnd)) for p in to["ps"]))

    def parts(self, rnd):
        """The top-level elements of the model, as a list of XML strings."""
        t = self.t
        out = []
        md = t.data_xml([expr.xml(p) if p else None for p in self.P])
        md += ['<define-parameter name="p%d">%s</define-parameter>' % (i, expr.xml(x)) for i, x in enumerate(self.par, 1)]
        rnd.shuffle(md)
        for k in sorted(set(self.ft)):
            gs = [t.gate_xml(j, rnd) for j in range(1, len(t.gates) + 1) if self.ft[j - 1] == k]
            rnd.shuffle(gs)
            if rnd.random() < .2 and len(gs) > 1:   # some of the gates in a component
                n = rnd.randint(1, len(gs) - 1)
                gs = gs[n:] + ['<define-component name="C%d">%s</define-component>' % (k, "".join(gs[:n]))]
            if rnd.random() < .2 and md:
                gs.append(md.pop())
            out.append('<define-fault-tree name="FT%d">%s</define-fault-tree>' % (k, "".join(gs)))
        out.append("<model-data>%s</model-data>" % "".join(md))
        seq_home = {}
        for n in range(1, len(self.seq) + 1):
            seq_home.setdefault(rnd.randint(1, len(self.et)) if self.et else 0, []).append(n)
        for n, e in enumerate(self.et, 1):
            x = "".join('<define-functional-event name="%s"/>' % f for f in self.fun[n - 1])
            d = ['<define-sequence name="Q%d">%s</define-sequence>' % (q, "".join(self.ins(i, rnd) for i in self.seq[q - 1]["ins"]))
                 for q in seq_home.get(n, [])]
            b = ['<define-branch name="B%d">%s</define-branch>' % (i, self.branch(y, rnd)) for i, y in enumerate(e["br"], 1)]
            rnd.shuffle(d)
            rnd.shuffle(b)
            d += b
            out.append('<define-event-tree name="ET%d">%s%s<initial-state>%s</initial-state></define-event-tree>' % (
                n, x, "".join(d), self.branch(e["init"], rnd)))
        for i in self.ie:
            out.append('<define-initiating-event name="%s"%s/>' % (i["n"], ' event-tree="ET%d"' % i["t"] if i["t"] else ""))
        for n, r in enumerate(self.rules, 1):
            out.append('<define-rule name="R%d">%s</define-rule>' % (n, "".join(self.ins(i, rnd) for i in r)))
        for n, a in enumerate(self.al, 1):
            out.append('<define-alignment name="A%d">%s</define-alignment>' % (n, "".join(
                '<define-phase name="%s" time-fraction="%s">%s</define-phase>' % (p["n"], p["fr"], "".join(
                    self.ins(dict(o="set", h=h, v=v), rnd) for h, v in p["set"])) for p in a)))
        for n, s in enumerate(self.subs, 1):
            out.append('<define-substitution name="S%d"%s><hypothesis>%s</hypothesis>%s<target>%s</target></define-substitution>' % (
                n, ' type="%s"' % s["type"] if s["type"] else "", self.formula(s["h"], None),
                "<source>%s</source>" % "".join('<basic-event name="%s"/>' % t.bname[b - 1] for b in s["src"]) if s["src"] else "",
                '<basic-event name="%s"/>' % t.bname[s["tgt"] - 1] if abs(s["tgt"]) < 100 else
                '<constant value="%s"/>' % ("true" if s["tgt"] > 0 else "false")))
        return out

    def xml(self, rnd):
        p = self.parts(rnd)
        rnd.shuffle(p)
        return '<?xml version="1.0"?>\n<opsa-mef>%s</opsa-mef>\n' % "".join(p)


# ---- generation -------------------------------------------------------------------------------
def base(r, n=None, ng=None, house=None, fts=1, time=False):
    t = ft.gen(r, n=n or r.randint(2, 6), ng=ng or r.randint(1, 6), house=house)
    s = Sys(t)
    if r.random() < .4:
        s.par = [c("%de-4" % r.randint(1, 90)) for _ in range(r.randint(1, 2))]
    s.P = [quantrec.time_expr(r, len(s.par)) if time and r.random() < .7 else c(quantrec.const_p(r)) for _ in range(t.n)]
    s.ft = [r.randint(1, fts) for _ in t.gates]
    return s


def lit(r, s, neg=.25):
    t = s.t
    pool = list(range(1, t.n + 1)) + [100 + j for j in range(1, len(t.gates) + 1)] + [500 + h for h in range(1, len(t.house) + 1)]
    a = r.choice(pool)
    return -a if r.random() < neg else a


def formula(r, s):
    k = r.random()
    if k < .45:
        a = lit(r, s)
        return dict(o="not", k=0, m=0, a=[-a]) if a < 0 else dict(o="null", k=0, m=0, a=[a])
    args = []
    for _ in range(r.choice([2, 2, 3, 4])):
        a = lit(r, s)
        if abs(a) not in map(abs, args):
            args.append(a)
    if len(args) < 2:
        return dict(o="null", k=0, m=0, a=[abs(args[0])])
    if len(args) >= 3 and r.random() < .3:
        return dict(o="atleast", k=r.randint(2, len(args) - 1), m=0, a=args)
    if r.random() < .1:
        lo = r.randint(0, len(args))
        return dict(o="cardinality", k=lo, m=r.randint(lo, len(args)), a=args)
    ops = ["and", "or", "and", "or", "nand", "nor"] + (["xor", "iff", "imply"] if len(args) == 2 else [])
    return dict(o=r.choice(ops), k=0, m=0, a=args)


class EtGen:
    def __init__(self, r, s, kind):
        self.r, self.s, self.kind = r, s, kind       # kind: "f" formulas or "e" expressions
        self.nrules, self.linkable = 0, []

    def cond(self):
        r, s = self.r, self.s
        k = r.random()
        if k < .4:
            fun = r.choice([f for fs in s.fun for f in fs] or ["F9"])
            return {"o": "test-fun", "n": fun, "s": r.choice(STATES)}
        if k < .55:
            return {"o": "test-ini", "n": r.choice([i["n"] for i in s.ie] + ["I9"])}
        if k < .65:
            return {"o": "b", "v": r.random() < .5}
        if k < .8:
            return op(r.choice(["gt", "lt", "geq"]), MT, c(r.choice(["40", "75", "150"])))
        if k < .9:
            return op("not", self.cond())
        return op(r.choice(["and", "or"]), self.cond(), self.cond())

    def ins(self, d=0):
        r, s = self.r, self.s
        k = r.random()
        if k < .45 or d > 2:
            if self.kind == "f":
                return dict(o="cf", f=formula(r, s))
            x = c(expr.dec(r, 0, .4))
            if r.random() < .3 and s.par:
                x = op("mul", x, expr.par(r.randint(1, len(s.par))))
            if r.random() < .2:
                x = quantrec.time_expr(r, len(s.par))
            return dict(o="ce", x=op("mul", c("0.016"), x))   # sums over all paths (fewer than 60) stay below one
        if k < .7 and s.t.house:
            return dict(o="set", h=r.randint(1, len(s.t.house)), v=r.random() < .5)
        if k < .85:
            return dict(o="if", c=self.cond(), t=self.ins(d + 1), e=[self.ins(d + 1)] if r.random() < .5 else [])
        if k < .93 and self.nrules:
            return dict(o="rule", n=r.randint(1, self.nrules))
        return dict(o="block", i=[self.ins(d + 1) for _ in range(r.randint(0, 3))])

    def some(self, n=2):
        return [self.ins() for _ in range(self.r.choice([0, 0, 1, 1, n]))]

    def target(self, tree, order, depth):
        """order: number of the last functional event forked on this path."""
        r = self.r
        funs = self.s.fun[tree - 1]
        if order < len(funs) and depth < 4 and r.random() < (.9 if order == 0 else .6):
            f = r.randint(order + 1, min(len(funs), order + 2))
            st = r.sample(STATES, r.choice([1, 2, 2, 2, 3]))
            return dict(k="fork", f=funs[f - 1], ps=[dict(s=x, b=self.branch(tree, f, depth + 1)) for x in st])
        cand = [i for i, (o, _) in enumerate(self.named, 1) if o > order]
        if cand and r.random() < .35:
            return dict(k="br", n=r.choice(cand))
        return dict(k="seq", n=r.choice(self.seqs))

    def branch(self, tree, order, depth):
        ins = self.some()
        return dict(ins=ins, to=self.target(tree, order, depth))

    def tree(self, tree, seqs):
        """Named branches are made first; each knows the smallest functional event it may meet."""
        r = self.r
        self.seqs, self.named = seqs, []
        n = len(self.s.fun[tree - 1])
        for _ in range(r.choice([0, 0, 1, 2])):
            o = r.randint(1, n + 1)
            self.named.append((o, self.branch(tree, o - 1, 2)))
        init = self.branch(tree, 0, 0)
        return dict(init=init, br=[b for _, b in self.named])


def add_event_trees(r, s):
    while True:
        s.rules, s.seq = [], []
        _event_trees(r, s)
        if size(s) < 60:
            return s


def _event_trees(r, s):
    kind = r.choice("fffe")
    g = EtGen(r, s, kind)
    nt = r.choice([1, 1, 1, 2, 2, 3])
    nie = r.choice([1, 1, 2])
    s.ie = [dict(n="I%d" % i, t=0) for i in range(1, nie + 1)]
    fnames = ["F%d" % i for i in range(1, 4)]
    s.fun = [fnames[:r.randint(1, 3)] if r.random() < .6 else ["X%d" % n, "F1", "Y%d" % n][:r.randint(1, 3)] for n in range(1, nt + 1)]
    nr = r.choice([0, 0, 1, 2])
    for _ in range(nr):
        s.rules.append([g.ins(1) for _ in range(r.randint(1, 2))])
        g.nrules = len(s.rules)
    # sequences: plain ones, and for every linked tree one or two that lead there
    ns = r.randint(1, 4)
    s.seq = [dict(ins=g.some(1)) for _ in range(ns)]
    plain = list(range(1, ns + 1))
    trees = {}
    for tr in range(nt, 0, -1):   # later trees are linked from earlier ones
        seqs = list(plain)
        for to in range(tr + 1, nt + 1):
            if r.random() < .8:
                link = dict(o="link", n=to)
                ins = [link]
                k = r.random()
                if k < .3:
                    ins = [dict(o="if", c=g.cond(), t=link, e=[] if r.random() < .5 else [g.ins(2)])]
                elif k < .4 and to < nt:
                    ins = [link, dict(o="link", n=nt)]
                elif k < .5:
                    ins = [dict(o="block", i=[g.ins(2), link])]
                s.seq.append(dict(ins=g.some(1) + ins + (g.some(1) if r.random() < .3 else [])))
                seqs.append(len(s.seq))
        trees[tr] = g.tree(tr, seqs)
    s.et = [trees[i] for i in range(1, nt + 1)]
    for i in s.ie:
        i["t"] = r.choice([1, 1, r.randint(1, nt), 0 if r.random() < .2 else 1])


def fractions(r, n):
    k = r.random()
    if k < .3:
        return {1: ["1"], 2: ["0.5", "0.5"], 3: ["0.25", "0.5", "0.25"], 4: ["0.25"] * 4}[n]
    while True:
        cut = sorted(r.sample(range(1, 100), n - 1))
        v = [b - a for a, b in zip([0] + cut, cut + [100])]
        return ["1" if x == 100 else "0.%02d" % x for x in v]


def add_alignments(r, s):
    for _ in range(r.choice([1, 1, 2])):
        n = r.choice([1, 2, 2, 3, 4])
        fr = fractions(r, n)
        a = []
        for i in range(n):
            sets = []
            if s.t.house:
                sets = [[r.randint(1, len(s.t.house)), r.random() < .5] for _ in range(r.choice([0, 1, 1, 2, 3]))]
            a.append(dict(n="ph%d" % (i + 1), fr=fr[i], set=sets))
        s.al.append(a)
    return s


def add_bad_alignment(r, s):
    a = r.choice(s.al)
    p = r.choice(a)
    k = r.choice(["sum", "near", "zero", "neg", "big", "house", "name"])
    if k == "sum":
        p["fr"] = "0.%02d" % r.randint(1, 99)
    elif k == "near":
        p["fr"] = "%.6f" % (float(p["fr"]) - r.choice([1e-5, 8e-5, 2e-4, 1e-3]))
    elif k == "zero":
        a.append(dict(n="extra", fr="0", set=[]))
    elif k == "neg":
        a.append(dict(n="extra", fr="-0.5", set=[]))
        a.append(dict(n="extra2", fr="0.5", set=[]))
    elif k == "big":
        p["fr"] = "1.5"
    elif k == "house":
        p["set"].append([0, True])
    elif k == "name":
        a.append(dict(n=p["n"], fr="0.1", set=[]))


def hypothesis(r, s, ops):
    n = s.t.n
    o = r.choice(ops)
    if o == "null":
        return dict(o=o, k=0, m=0, a=[r.randint(1, n)])
    if o == "atleast":
        if n < 3:
            return hypothesis(r, s, ["and"])
        a = r.sample(range(1, n + 1), r.randint(3, min(n, 4)))
        return dict(o=o, k=r.randint(2, len(a) - 1), m=0, a=a)
    return dict(o=o, k=0, m=0, a=r.sample(range(1, n + 1), min(n, r.choice([2, 2, 3]))))


def add_substitutions(r, s, nondecl):
    n = s.t.n
    for _ in range(r.choice([1, 1, 2, 3])):
        if nondecl and r.random() < .75:
            h = hypothesis(r, s, ["null", "and", "and", "or"])
            src = r.sample(range(1, n + 1), min(n, r.choice([1, 1, 1, 2])))
            if r.random() < .7:
                src[0] = r.choice(h["a"])
                src = list(dict.fromkeys(src))
            tgt = r.choice(list(range(1, n + 1)) * 2 + [900])
        else:
            h, src = hypothesis(r, s, ["null", "and", "and", "atleast", "or"]), []
            tgt = r.choice(list(range(1, n + 1)) * 2 + [-900] * n)
        ty = ""
        if r.random() < .2:
            ty = r.choice(["delete-terms", "recovery-rule", "exchange-event"])
        s.subs.append(dict(h=h, src=src, tgt=tgt, type=ty))


def legal_subs(subs):
    """Whether the substitutions (each well formed) do not interfere (only used to steer generation)."""
    nd = [s for s in subs if s["src"]]
    for i, a in enumerate(nd):
        for j, b in enumerate(nd):
            if a["tgt"] in b["src"]:
                return False
            if i != j and (a["tgt"] in b["h"]["a"] or set(a["src"]) & set(b["h"]["a"])):
                return False
    return True


def add_bad_substitution(r, s):
    x = r.choice(s.subs)
    k = r.choice(["gate", "neg", "dup", "conn", "tgt", "type"])
    if k == "gate":
        x["h"]["a"][0] = 101
    elif k == "neg":
        x["h"] = dict(o="and", k=0, m=0, a=[-1, 2])
    elif k == "dup":
        x["src"] = [1, 1]
    elif k == "conn":
        x["h"] = r.choice([dict(o="xor", k=0, m=0, a=[1, 2]), dict(o="nand", k=0, m=0, a=[1, 2]), dict(o="not", k=0, m=0, a=[-1]),
                           dict(o="imply", k=0, m=0, a=[1, 2]), dict(o="cardinality", k=1, m=2, a=[1, 2])])
    elif k == "tgt":
        x["tgt"] = 900 if not x["src"] else -900
    else:
        x["type"] = r.choice(["delete-terms", "recovery-rule", "exchange-event"])


def known(key):
    """The fixed models of the known findings."""
    t = ft.gen(random.Random(1), n=2, ng=1, house=1)
    s = Sys(t)
    s.P = [c("0.1"), c("0.2")]
    s.ie, s.fun = [dict(n="I1", t=1)], [["F1"]]
    seq = lambda n: dict(k="seq", n=n)
    s.seq = [dict(ins=[])]
    if key == "sequence-value-above-one":
        ps = [dict(s="yes", b=dict(ins=[dict(o="ce", x=c("0.7"))], to=seq(1))), dict(s="no", b=dict(ins=[dict(o="ce", x=c("0.8"))], to=seq(1)))]
    elif key == "sequence-value-negative":
        ps = [dict(s="yes", b=dict(ins=[dict(o="ce", x=c("-0.5"))], to=seq(1)))]
    else:   # an expression that tests the state of a functional event
        x = op("ite", {"o": "test-fun", "n": "F1", "s": "yes"}, c("0.1"), c("0.3"))
        ps = [dict(s="yes", b=dict(ins=[dict(o="ce", x=x)], to=seq(1)))]
    s.et = [dict(init=dict(ins=[], to=dict(k="fork", f="F1", ps=ps)), br=[])]
    return s


def gen(case):
    """case: {seed, kind: "et" | "al" | "sub" | "top", ...}"""
    r = random.Random(case["seed"])
    k = case["kind"]
    if k == "known":
        return known(case["key"])
    if k == "et":
        s = base(r, n=r.randint(2, 5), ng=r.randint(1, 4), house=r.choice([1, 2, 2, 3]), time=r.random() < .2)
        add_event_trees(r, s)
        if r.random() < .15:
            add_alignments(r, s)
    elif k == "al":
        s = base(r, n=r.randint(2, 5), house=r.choice([1, 2, 2, 3]), time=True, fts=r.choice([1, 1, 2]))
        if r.random() < .25:
            add_event_trees(r, s)
        add_alignments(r, s)
        if case.get("bad"):
            add_bad_alignment(r, s)
    elif k == "sub":
        while True:
            s = base(r, n=r.randint(2, 6), ng=r.randint(1, 6), house=r.choice([0, 0, 1]))
            add_substitutions(r, s, case.get("nondecl"))
            if legal_subs(s.subs) or r.random() < .1:
                break
        if r.random() < .15:
            add_event_trees(r, s)
        if case.get("bad"):
            add_bad_substitution(r, s)
    else:
        s = base(r, n=r.randint(2, 5), ng=r.randint(2, 10), fts=r.choice([1, 2, 3]))
        # several gates without parents: drop arguments of the last gates
        for j in range(len(s.t.gates), 0, -1):
            g = s.t.gates[j - 1]
            if r.random() < .3 and g["o"] in ("and", "or", "null"):
                a = [x for x in g["a"] if not 100 < abs(x) < 500]
                for v in r.sample(range(1, s.t.n + 1), s.t.n):
                    if len(a) >= 2:
                        break
                    if v not in map(abs, a):
                        a.append(v)
                g["a"], g["o"] = a[:4], "and" if g["o"] == "null" else g["o"]
        if r.random() < .4:
            add_event_trees(r, s)
        if r.random() < .3:
            add_alignments(r, s)
    return s


def size(s):
    """Number of paths of the event trees, roughly."""
    def br(t, b, d=0):
        if d > 30:
            return 1000
        n = to(t, b["to"], d + 1)
        return n

    def links(i):
        if i["o"] == "link":
            return [i["n"]]
        if i["o"] == "if":
            return links(i["t"]) + [x for y in i["e"] for x in links(y)]
        if i["o"] == "block":
            return [x for y in i["i"] for x in links(y)]
        return []

    def to(t, x, d):
        if x["k"] == "seq":
            return 1 + sum(br(n, s.et[n - 1]["init"], d + 1) for i in s.seq[x["n"] - 1]["ins"] for n in links(i))
        if x["k"] == "br":
            return br(t, s.et[t - 1]["br"][x["n"] - 1], d + 1)
        return sum(br(t, p["b"], d + 1) for p in x["ps"])
    return sum(br(i["t"], s.et[i["t"] - 1]["init"]) for i in s.ie if i["t"])
