"""Expressions of the input language: JSON form for Expr.tla, XML rendering, floating-point estimate."""
import math
from xml.sax.saxutils import quoteattr


def c(v):
    return {"o": "c", "v": str(v)}


def op(o, *a):
    return {"o": o, "a": list(a)}


PI, MT = {"o": "pi"}, {"o": "mt"}


def par(n):
    return {"o": "par", "n": n}


def xml(x, parname=lambda n: "p%d" % n, rnd=None, funname=str):
    o = x["o"]
    r = lambda y: xml(y, parname, rnd, funname)
    if o == "c":
        v = x["v"]
        isint = v.lstrip("+-").isdigit() and len(v) < 9
        tag = "int" if isint and not (rnd and rnd.random() < .5) else "float"
        return '<%s value="%s"/>' % (tag, v)
    if o == "b":
        return '<bool value="%s"/>' % ("true" if x["v"] else "false")
    if o == "pi":
        return "<pi/>"
    if o == "par":
        return "<parameter name=%s/>" % quoteattr(parname(x["n"]))
    if o == "mt":
        return "<system-mission-time/>"
    if o == "switch":
        a = x["a"]
        return "<switch>%s%s</switch>" % ("".join("<case>%s%s</case>" % (r(a[i]), r(a[i + 1]))
                                                  for i in range(0, len(a) - 1, 2)), r(a[-1]))
    if o == "histogram":
        a = x["a"]
        return "<histogram>%s%s</histogram>" % (r(a[0]), "".join("<bin>%s%s</bin>" % (r(a[i + 1]), r(a[i]))
                                                                 for i in range(1, len(a), 2)))
    if o == "test-ini":
        return "<test-initiating-event name=%s/>" % quoteattr(x["n"])
    if o == "test-fun":
        return "<test-functional-event name=%s state=%s/>" % (quoteattr(x["n"]), quoteattr(x["s"]))
    return "<%s>%s</%s>" % (o, "".join(r(y) for y in x["a"]), o)


def pars(x):
    """Parameters an expression refers to."""
    if x["o"] == "par":
        return {x["n"]}
    return set().union(*[pars(y) for y in x.get("a", [])]) if x.get("a") else set()


def size(x):
    return 1 + sum(size(y) for y in x.get("a", []))


def dec(rnd, lo=0.0, hi=1.0, digits=4):
    """A short decimal literal in [lo, hi]."""
    return "%.*f" % (digits, rnd.uniform(lo, hi))
