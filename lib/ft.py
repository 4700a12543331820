"""Abstract fault trees: random generation, XML rendering, JSON form for the specification.

Arguments: +-i basic event, +-(100+j) gate j, +-(500+h) house event, +-900 constant true.
"""
import random
from xml.sax.saxutils import quoteattr

OPS_COH = ["and", "or", "atleast"]
OPS_ALL = ["and", "or", "atleast", "xor", "iff", "imply", "nand", "nor", "not", "cardinality", "null"]


class FT:
    def __init__(self, n, house=(), gates=()):
        self.n, self.house, self.gates = n, list(house), list(gates)  # gate: dict(o,k,m,a)
        self.bname = ["e%d" % i for i in range(1, n + 1)]
        self.gname = ["g%d" % j for j in range(1, len(self.gates) + 1)]
        self.hname = ["h%d" % h for h in range(1, len(self.house) + 1)]

    def json(self):
        return {"N": self.n, "H": self.house, "G": self.gates}

    def roots(self):
        used = {abs(a) for g in self.gates for a in g["a"]}
        return [j for j in range(1, len(self.gates) + 1) if 100 + j not in used]

    # ---- XML -------------------------------------------------------------------------------
    def arg_xml(self, a, rnd=None):
        b = abs(a)
        if b == 900:
            return '<constant value="%s"/>' % ("true" if a > 0 else "false")
        if b > 500:
            name, kind = self.hname[b - 501], "house-event"
        elif b > 100:
            name, kind = self.gname[b - 101], "gate"
        else:
            name, kind = self.bname[b - 1], "basic-event"
        form = rnd.randrange(3) if rnd else 0
        q = quoteattr(name)
        if form == 0:
            s = "<%s name=%s/>" % (kind, q)
        elif form == 1:
            s = "<event name=%s/>" % q
        else:
            s = '<event name=%s type="%s"/>' % (q, kind)
        return "<not>%s</not>" % s if a < 0 else s

    def formula_xml(self, g, rnd=None):
        args = "".join(self.arg_xml(a, rnd) for a in g["a"])
        o = g["o"]
        if o == "null":
            return args
        if o == "atleast":
            return '<atleast min="%d">%s</atleast>' % (g["k"], args)
        if o == "cardinality":
            return '<cardinality min="%d" max="%d">%s</cardinality>' % (g["k"], g["m"], args)
        return "<%s>%s</%s>" % (o, args, o)

    def gate_xml(self, j, rnd=None):
        return "<define-gate name=%s>%s</define-gate>" % (quoteattr(self.gname[j - 1]),
                                                         self.formula_xml(self.gates[j - 1], rnd))

    def gates_xml(self, rnd=None):
        order = list(range(1, len(self.gates) + 1))
        if rnd:
            rnd.shuffle(order)
        return [self.gate_xml(j, rnd) for j in order]

    def data_xml(self, probs=None, rnd=None):
        """probs: list of expression XML strings (or None for no expression)."""
        out = []
        for i, name in enumerate(self.bname):
            e = probs[i] if probs else None
            if e is None:
                out.append("<define-basic-event name=%s/>" % quoteattr(name))
            else:
                out.append("<define-basic-event name=%s>%s</define-basic-event>" % (quoteattr(name), e))
        for h, name in zip(self.house, self.hname):
            out.append('<define-house-event name=%s><constant value="%s"/></define-house-event>'
                       % (quoteattr(name), "true" if h else "false"))
        if rnd:
            rnd.shuffle(out)
        return out

    def xml(self, probs=None, rnd=None, extra="", ft_extra=""):
        g = "".join(self.gates_xml(rnd))
        d = "".join(self.data_xml(probs, rnd))
        ft = '<define-fault-tree name="FT">%s%s</define-fault-tree>' % (g, ft_extra)
        md = "<model-data>%s</model-data>" % d
        parts = [ft, md] if not rnd or rnd.random() < .5 else [md, ft]
        return '<?xml version="1.0"?>\n<opsa-mef>%s%s</opsa-mef>\n' % ("".join(parts), extra)


def pick_args(rnd, pool, k, neg):
    k = min(k, len(pool))
    args = rnd.sample(pool, k)
    return [(-a if rnd.random() < neg else a) for a in args]


def gen(rnd, n=None, ng=None, coherent=None, house=None, const=None, wide=False, roots=1):
    """Random DAG whose last gate is the top (all other gates are used when possible)."""
    if ng is None and n is None and not house and not const:
        x = rnd.random()
        if x < .25:
            return gen_modular(rnd, coherent=coherent)
        if x < .5:
            return gen_dnf(rnd, coherent=coherent)
    n = n or rnd.randint(2, 6)
    ng = ng or rnd.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 10])
    coherent = rnd.random() < .5 if coherent is None else coherent
    nh = rnd.choice([0, 0, 0, 1, 2]) if house is None else house
    const = rnd.random() < .05 if const is None else const
    neg = 0 if coherent else rnd.choice([0, .1, .3, .5])
    ops = OPS_COH if coherent else OPS_ALL
    weights = [rnd.choice([0, 1, 1, 3]) for _ in ops]
    weights[0] = max(weights[0], 1)
    weights[1] = max(weights[1], 1)
    locality = rnd.random()
    t = FT(n, [rnd.random() < .5 for _ in range(nh)])
    unused = []
    for j in range(1, ng + 1):
        last = j == ng
        o = rnd.choices(ops, weights)[0]
        leaves = list(range(1, n + 1))
        if rnd.random() < .3 and locality > .4 and n > 3:  # favour disjoint blocks: modules
            w = rnd.randint(2, n)
            s = rnd.randint(1, n - w + 1)
            leaves = list(range(s, s + w))
        gates = [100 + i for i in range(1, j)]
        if locality > .7:
            gates = gates[-4:]
        want = rnd.choice([2, 2, 2, 3, 3, 4, 5])
        pool = leaves + [500 + h for h in range(1, nh + 1) if rnd.random() < .3]
        if const and rnd.random() < .3:
            pool.append(900)
        ngate = 0 if not gates else min(len(gates), rnd.choice([0, 1, 1, 2, 2, 3]))
        chosen = []
        if unused and (last or rnd.random() < .7):
            u = [100 + i for i in unused]
            chosen = u if last else rnd.sample(u, min(len(u), rnd.randint(1, 2)))
        for x in (rnd.sample(gates, ngate) if gates else []):
            if x not in chosen:
                chosen.append(x)
        rest = [p for p in pool if p not in chosen]
        rnd.shuffle(rest)
        args = (chosen + rest[:max(1, want - len(chosen))]) if not (last and len(chosen) > 1 and rnd.random() < .5) \
            else chosen
        rnd.shuffle(args)
        if o in ("not", "null") and last and len(chosen) > 1:
            o = "or"
        if o in ("xor", "iff", "imply") and last and len(chosen) > 2:
            o = "and"
        if o in ("not", "null"):
            args = [rnd.choice(chosen or args)] if not last else ([chosen[0]] if chosen else args[:1])
            if o == "not" and args[0] == 900:
                args = [1]
        elif o in ("xor", "iff", "imply"):
            keep = [c for c in chosen if c - 100 in unused][:2] if last else []
            args = (keep + [a for a in args if a not in keep])[:2]
            rnd.shuffle(args)
        if o not in ("not", "null") and len(args) < 2:
            extra = [l for l in range(1, n + 1) if l not in args]
            args += extra[:2 - len(args)]
        k = m = 0
        if o == "atleast":
            if len(args) < 3:
                extra = [l for l in range(1, n + 1) if l not in args]
                args += extra[:3 - len(args)]
            if len(args) < 3:
                o = "or"
            else:
                k = rnd.randint(2, len(args) - 1)
        if o == "cardinality":
            k = rnd.randint(0, len(args))
            m = rnd.randint(k, len(args))
        if o not in ("not", "null"):
            args = [-a if rnd.random() < neg else a for a in args]
        for a in args:
            if abs(a) - 100 in unused:
                unused.remove(abs(a) - 100)
        t.gates.append({"o": o, "k": k, "m": m, "a": args})
        if not last:
            unused.append(j)
    t.gname = ["g%d" % j for j in range(1, ng + 1)]
    return t


def gen_modular(rnd, n=None, coherent=None):
    """Hierarchical tree: gates over disjoint blocks of events (modules within modules), some of them small DAGs."""
    n = n or rnd.randint(4, 8)
    coherent = rnd.random() < .5 if coherent is None else coherent
    neg = 0 if coherent else rnd.choice([.1, .3, .5])
    ops = ["and", "or", "and", "or", "atleast"] + ([] if coherent else ["xor", "iff", "nand", "nor", "imply"])
    t = FT(n)

    def add(o, args):
        args = list(dict.fromkeys(args))
        k = m = 0
        if len(args) == 1:
            o = "null"
        if o in ("xor", "iff", "imply") and len(args) != 2:
            o = rnd.choice(["and", "or"])
        if o == "atleast":
            if len(args) < 3:
                o = rnd.choice(["and", "or"])
            else:
                k = rnd.randint(2, len(args) - 1)
        if o != "null":
            args = [-a if rnd.random() < neg else a for a in args]
        t.gates.append({"o": o, "k": k, "m": m, "a": args})
        return 100 + len(t.gates)

    def dag(vs):
        """A few gates sharing the variables of one block."""
        if len(vs) < 2 or rnd.random() < .4:
            return add(rnd.choice(ops), vs)
        subs = [add(rnd.choice(ops), rnd.sample(vs, rnd.randint(2, len(vs)))) for _ in range(rnd.randint(2, 3))]
        rest = [v for v in vs if rnd.random() < .25]
        return add(rnd.choice(ops), subs + rest)

    def make(vs, depth):
        if len(vs) <= 3 or depth > 3:
            return dag(vs)
        cut = sorted(rnd.sample(range(1, len(vs)), rnd.choice([1, 1, 2]) if len(vs) > 2 else 1))
        parts = [vs[i:j] for i, j in zip([0] + cut, cut + [len(vs)])]
        kids = [p[0] if len(p) == 1 else make(p, depth + 1) for p in parts]
        if rnd.random() < .3 and len(kids) >= 2:  # the blocks meet in several gates
            subs = [add(rnd.choice(ops), rnd.sample(kids, rnd.randint(2, len(kids)))) for _ in range(2)]
            return add(rnd.choice(ops), subs)
        return add(rnd.choice(ops), kids)

    vs = list(range(1, n + 1))
    rnd.shuffle(vs)
    make(vs, 0)
    t.gname = ["g%d" % j for j in range(1, len(t.gates) + 1)]
    # gates left without a parent (not drawn by the meeting gates) are joined to the top
    used = {abs(a) for g in t.gates for a in g["a"]}
    loose = [100 + j for j in range(1, len(t.gates)) if 100 + j not in used]
    if loose:
        top = 100 + len(t.gates)
        add("or", [top] + loose)
        t.gname.append("g%d" % len(t.gates))
    return t


def gen_dnf(rnd, n=None, coherent=None):
    """Overlapping products (or sums) over letters that are events or small modules; two levels, sometimes three."""
    coherent = rnd.random() < .6 if coherent is None else coherent
    neg = 0 if coherent else rnd.choice([.1, .25])
    n = n or rnd.randint(6, 9)
    t = FT(n)

    def add(o, args, k=0):
        t.gates.append({"o": o, "k": k, "m": 0, "a": [-a if rnd.random() < neg else a for a in args]})
        return 100 + len(t.gates)

    letters, v = [], 1
    mods = rnd.random() < .5
    while v <= n:
        w = rnd.choice([1, 1, 2, 2, 3]) if mods else 1
        w = min(w, n - v + 1)
        vs = list(range(v, v + w))
        v += w
        if w == 1:
            letters += vs
        else:
            letters.append(add(rnd.choice(["and", "or", "or"] + ([] if coherent or w != 2 else ["xor", "iff"])), vs))
    outer, inner = ("or", "and") if rnd.random() < .8 else ("and", "or")
    if len(letters) < 3:
        top = add(outer, letters) if len(letters) > 1 else None
    else:
        terms = []
        for _ in range(rnd.randint(3, 9)):
            terms.append(add(inner, rnd.sample(letters, rnd.randint(2, min(5, len(letters))))))
        if len(terms) > 4 and rnd.random() < .4:
            cut = rnd.randint(2, len(terms) - 2)
            terms = [add(rnd.choice([outer, "atleast"]), terms[:cut], 2) if cut > 2 else add(outer, terms[:cut])] + terms[cut:]
        add(outer, terms)
        for g in t.gates:
            if g["o"] == "atleast" and len(g["a"]) < 3:
                g["o"], g["k"] = "or", 0
    for g in t.gates:
        if g["o"] != "atleast":
            g["k"] = 0
    used = {abs(a) for g in t.gates for a in g["a"]}
    loose = [100 + j for j in range(1, len(t.gates)) if 100 + j not in used]
    if loose:
        add("or", [100 + len(t.gates)] + loose)
    t.gname = ["g%d" % j for j in range(1, len(t.gates) + 1)]
    return t

