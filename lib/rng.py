"""RELAX NG schemas as patterns of Schema.tla, XML documents as its trees."""
import re
import xml.etree.ElementTree as ET

NS = "{http://relaxng.org/ns/structure/1.0}"


def patterns(path):
    root = ET.parse(path).getroot()
    defs = {}
    for d in root.findall(NS + "define"):
        defs.setdefault(d.get("name"), []).extend(list(d))

    def group(xs):
        ps = [conv(x) for x in xs if isinstance(x.tag, str)]
        return ps[0] if len(ps) == 1 else dict(k="group", ps=ps) if ps else dict(k="e")

    def conv(x):
        t = x.tag.replace(NS, "")
        kids = [y for y in x if isinstance(y.tag, str)]
        if t in ("element", "attribute"):
            return dict(k="elem" if t == "element" else "attr", n=x.get("name"), p=group(kids) if kids else dict(k="text"))
        if t == "ref":
            return group(defs[x.get("name")])
        if t == "group":
            return group(kids)
        if t == "choice":
            return dict(k="choice", ps=[conv(y) for y in kids])
        if t == "optional":
            return dict(k="choice", ps=[dict(k="e"), group(kids)])
        if t == "zeroOrMore":
            return dict(k="star", p=group(kids))
        if t == "oneOrMore":
            p = group(kids)
            return dict(k="group", ps=[p, dict(k="star", p=p)])
        if t == "text":
            return dict(k="text")
        if t == "empty":
            return dict(k="e")
        if t == "value":
            return dict(k="value", v=x.text or "")
        if t == "list":   # only lists of one type
            d = next(x.iter(NS + "data"))
            return dict(k="data", type="list " + d.get("type"), params=[])
        if t == "data":
            return dict(k="data", type=x.get("type"), params=[dict(n=p.get("name"), v=p.text) for p in x.findall(NS + "param")])
        raise ValueError("pattern " + t)

    return conv(root.find(NS + "start").find("*"))


def lex(v):
    """The lexical types of a value."""
    s = v.strip(" \t\r\n")
    k = []
    if re.fullmatch(r"\+?\d+|-0+", s):
        k.append("nonNegativeInteger")
        if int(s) > 0:
            k.append("positiveInteger")
    if re.fullmatch(r"[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?", s):
        k += ["double", "number"]
    elif s in ("INF", "-INF", "NaN"):
        k.append("double")
    if re.fullmatch(r"[^\W\d][\w.\-\u00b7]*", s):
        k.append("NCName")
    if s and all(re.fullmatch(r"\+?\d+|-0+", x) for x in s.split()):
        k.append("list nonNegativeInteger")
    return k


def tree(x):
    text = (x.text or "").strip()
    return dict(t=x.tag, a=[dict(n=n, v=v, k=lex(v)) for n, v in x.attrib.items()], x=text, k=lex(text) if text else [], c=[tree(y) for y in x])
