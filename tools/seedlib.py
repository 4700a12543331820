"""Building blocks of demonstrations: a model, a scram command line and what the report must say."""
import json

SHOW = r'''import json, sys, xml.etree.ElementTree as ET
r = ET.parse(sys.argv[1]).getroot()
out = {}
for s in r.iter("sum-of-products"):
    key = "/".join(s.get(k) for k in ("initiating-event", "name", "alignment", "phase") if s.get(k))
    ps = []
    for p in s.findall("product"):
        ls = []
        for c in p:
            b = c[0] if c.tag == "not" else c
            name = b.get("name") or "[%s]" % " ".join(sorted(e.get("name") for e in b.iter("basic-event")))
            ls.append(("-" if c.tag == "not" else "") + name)
        ps.append(sorted(ls))
    out[key] = {"products": sorted(ps)}
    if s.get("probability"):
        out[key]["p"] = float(s.get("probability"))
for i in r.iter("importance"):
    key = "/".join(i.get(k) for k in ("initiating-event", "name", "alignment", "phase") if i.get(k))
    out.setdefault(key, {})["importance"] = {b.get("name"): {k: float(b.get(k)) for k in
        ("occurrence", "probability", "MIF", "CIF", "DIF", "RAW", "RRW")} for b in i.findall("basic-event")}
for i in r.iter("curve"):
    key = "/".join(i.get(k) for k in ("initiating-event", "name", "alignment", "phase") if i.get(k))
    out.setdefault(key, {})["curve"] = [[float(p.get("X")), float(p.get("Y"))] for p in i.findall("point")]
for i in r.iter("safety-integrity-levels"):
    key = "/".join(i.get(k) for k in ("initiating-event", "name", "alignment", "phase") if i.get(k))
    out.setdefault(key, {})["sil"] = [[float(i.get("PFD-avg")), float(i.get("PFH-avg"))]] + [
        [float(b.get("value")) for b in h.findall("bin")] for h in i.findall("histogram")]
for i in r.iter("initiating-event"):
    key = "/".join(i.get(k) for k in ("name", "alignment", "phase") if i.get(k))
    out["ie:" + key] = {q.get("name"): float(q.get("value")) for q in i.findall("sequence")}
want = json.load(open(sys.argv[2]))
def close(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and all(k in b and close(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-4 * max(abs(a), abs(b)) + 1e-12
    return a == b
ok = all(k in out and close(want[k], out[k]) for k in want)
if not ok:
    print("got ", json.dumps(out, sort_keys=True)[:1500]); print("want", json.dumps(want, sort_keys=True)[:1500])
sys.exit(0 if ok else 1)
'''


def demo(model, args, want, extra=None):
    f = {"model.xml": model, "show.py": SHOW, "want.json": json.dumps(want),
         "demo.sh": '#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d)\ntrap \'rm -rf "$t"\' EXIT\n'
                    '/repo/_install/bin/scram %s -o "$t/o.xml" %s || exit 1\n'
                    'python3 "$d/show.py" "$t/o.xml" "$d/want.json"\n' %
                    (args, "" if "@" in args else '"$d/model.xml"')}
    f["demo.sh"] = f["demo.sh"].replace("@", '"$d"')
    f.update(extra or {})
    return f


def ft(gates, events, house=(), probs=None, extra="", name="FT"):
    g = "".join('<define-gate name="%s">%s</define-gate>\n' % x for x in gates)
    b = "".join('<define-basic-event name="%s">%s</define-basic-event>\n' %
                (e, '<float value="%s"/>' % probs[e] if probs else "") for e in events)
    h = "".join('<define-house-event name="%s"><constant value="%s"/></define-house-event>\n' % x for x in house)
    return '<?xml version="1.0"?>\n<opsa-mef>\n<define-fault-tree name="%s">\n%s</define-fault-tree>\n' \
           '<model-data>\n%s%s</model-data>\n%s</opsa-mef>\n' % (name, g, b, h, extra)


def f(op, *args, **attr):
    """Formula: f("or", "a", "-b", "@g")"""
    def arg(a):
        if a.startswith("-"):
            return "<not>%s</not>" % arg(a[1:])
        return '<event name="%s"/>' % a.lstrip("@")
    body = "".join(arg(a) for a in args)
    if op == "null":
        return body
    at = "".join(' %s="%s"' % x for x in attr.items())
    return "<%s%s>%s</%s>" % (op, at, body, op)


def random_trees(n, args, seed="s", probs=None, **gen):
    """Candidate models from the random fault-tree generator of lib/ft.py."""
    import os, random, sys
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
    import ft as F
    for i in range(n):
        r = random.Random("%s/%d" % (seed, i))
        t = F.gen(r, **gen)
        ps = ['<float value="%s"/>' % r.choice(["0.1", "0.2", "0.35", "0.5", "0.7", "0.05"]) for _ in range(t.n)] if probs else None
        yield t.xml(probs=ps), args


def modular_trees(num, args, seed="s", **gen):
    import os, random, sys
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
    import ft as F
    for i in range(num):
        r = random.Random("%s/%d" % (seed, i))
        yield (F.gen_modular if r.random() < .5 else F.gen_dnf)(r, **gen).xml(), args


def script(body, **files):
    """A demonstration from a shell body; $d its folder, $t a scratch folder, $S the program."""
    r = {k.replace("__", "."): v for k, v in files.items()}
    r["demo.sh"] = '#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d)\ntrap \'rm -rf "$t"\' EXIT\n' \
                   'S=/repo/_install/bin/scram\n' + body.strip() + "\n"
    return r
