"""Recording runs of the fault-tree generator (events of GenTrace.tla)."""
import hashlib, math, os, random, re, subprocess, sys
import xml.etree.ElementTree as ET

SCRIPT = os.environ.get("GEN", "/repo/scripts/fault_tree_generator.py")
WEIGHTS = ["1", "1 1", "0 1", "1 1 1", "0 0 1", "1 1 1 0.1 0.1", "1 1 0 1", "1 0 0 0 1", "1 1 1 1 1", "0 1 0 2 3", "0.1 0 0 5", "3 2 0.5", "0 0 1 1 0.5", "1 2 0 0 0", "1e-3 1 0 0 2"]
HEAD = {"The fault tree name": "ft", "The root gate name": "root", "The seed of the random number generator": "seed",
        "The number of basic events": "b", "The number of house events": "h", "The number of CCF groups": "c",
        "The average number of gate arguments": "a", "Percentage of common basic events per gate": "cb",
        "Percentage of common gates per gate": "cg", "The avg. number of parents for common basic events": "pb",
        "The avg. number of parents for common gates": "pg", "Maximum probability for basic events": "maxp",
        "Minimum probability for basic events": "minp"}
SIZE = {"The number of basic events": "b", "The number of house events": "h", "The number of CCF groups": "c",
        "The number of gates": "g", "AND gates": "and", "OR gates": "or", "K/N gates": "atleast", "NOT gates": "not", "XOR gates": "xor",
        "The number of common basic events": "ncb", "The number of common gates": "ncg", "Basic events to gates ratio": "ratio",
        "The average number of gate arguments": "a",
        "Percentage of common basic events per gate": "cb", "Percentage of common gates per gate": "cg",
        "Percentage of arguments that are basic events per gate": "frac",
        "The avg. number of parents for common basic events": "pb", "The avg. number of parents for common gates": "pg"}


def params(r, kind):
    """Values of all options, as text; those not given have the default."""
    p = dict(b=str(r.choice([2, 3, 5, 8, 10, 20, 30, 50, 100, 150])), a="3.0", w="1 1 0 0 0", cb="0.1", cg="0.1", pb="2", pg="2",
             g="0", maxp="0.1", minp="0.01", h="0", c="0", ft="Autogenerated", root="root", seed=str(r.randint(0, 10 ** 6)))
    if kind == "big":
        p["b"] = str(r.choice([1000, 2000, 3000]))
        p["a"] = r.choice(["2.5", "3", "4", "5.5"])
        p["w"] = r.choice(WEIGHTS)
        p["cb"], p["cg"] = r.choice(["0.1", "0.3"]), r.choice(["0.1", "0.2"])
        p["pb"], p["pg"] = r.choice(["2", "3"]), r.choice(["2", "3"])
        if r.random() < .3:
            p["c"] = str(int(p["b"]) // 10)
        return p
    if r.random() < .6:
        p["a"] = r.choice(["2", "2.0", "2.5", "3", "4", "5.5", "8", "12"])
    if r.random() < .7:
        p["w"] = r.choice(WEIGHTS)
    for k in ("cb", "cg"):
        if r.random() < .5:
            p[k] = r.choice(["0.05", "0.1", "0.3", "0.5", "0.9", "%.3f" % r.uniform(.01, .9)])
    for k in ("pb", "pg"):
        if r.random() < .5:
            p[k] = r.choice(["2", "3", "5", "10", "2.5", "100"])
    b, a = int(p["b"]), float(p["a"])
    if r.random() < .35:
        lo = b / (a - 1)
        p["g"] = str(r.choice([1, 2, 5, 10, b, int(lo), int(lo) + 1, int(lo) + 2, int(lo * 1.3) + 1, int(lo * 2) + 1, int(lo * 4) + 1]) or 1)
    if r.random() < .4:
        p["h"] = str(min(b - 1, r.choice([1, 2, 5, b // 2, b - 1])))
    if r.random() < .4:
        p["c"] = str(r.choice([0, 1, int(b / a) // 2, int(b / a), int(b / a)]))
    if r.random() < .3:
        p["minp"], p["maxp"] = r.choice([("0", "1"), ("0.5", "0.5"), ("0", "0"), ("1e-9", "1e-7"), ("1", "1"), ("0.2", "0.7")])
    if r.random() < .3:
        p["ft"], p["root"] = r.choice(["F", "a-b-c", "B1", "x_1", "_x"]), r.choice(["top", "T-1", "B", "r2", "Autogenerated", "g", "_"])
    if kind == "edge":
        for k in r.sample(list(p), r.choice([1, 1, 1, 2])):
            p[k] = {"b": lambda: r.choice(["0", "-1", "1", "2", "3", "2.5", "x", "1e2"]),
                    "a": lambda: r.choice(["1.9", "2", "1.999999", "nan", "inf", "-3", "100", "0", "x", "b", "1e3", "10", "11", "20"]),
                    "w": lambda: r.choice(["0", "0 0 0", "-1 2 3", "1 1 1 1 1 1", "nan", "1 nan", "inf 1", "0 0 0 1 2", "x", "1 x", "0 0 0 0 1", "0 0 1e-9", "1e-9 0 0 1 1"]),
                    "cb": lambda: r.choice(["0", "0.9", "0.91", "1", "-0.1", "nan", "1e-9", "x", "inf"]),
                    "cg": lambda: r.choice(["0", "0.9", "0.91", "1", "-0.1", "nan", "1e-9", "x", "inf"]),
                    "pb": lambda: r.choice(["1.99", "2", "100", "100.5", "nan", "1", "-2", "inf", "x"]),
                    "pg": lambda: r.choice(["1.99", "2", "100", "100.5", "nan", "1", "-2", "inf", "x"]),
                    "g": lambda: r.choice(["-1", "1", "1.5", "x", "2000", str(b), "3"]),
                    "maxp": lambda: r.choice(["-0.1", "0", "1", "1.1", "nan", "x", "inf", "0.005"]),
                    "minp": lambda: r.choice(["-0.1", "0", "1", "1.1", "nan", "x", "-inf", "0.1", "0.2"]),
                    "h": lambda: r.choice(["-1", str(b), str(b - 1), str(b + 1), "1.5", "x"]),
                    "c": lambda: r.choice(["-1", str(int(b / a) + 1), str(int(b / a)), "x", "0.5"]),
                    "ft": lambda: r.choice(["a b", "a.b", "a--b", "-a", "1a", "a<b", "a-", "G1", "a:b", "a b-", "F&"]),
                    "root": lambda: r.choice(["a b", "a.b", "a--b", "-a", "1a", "a<b", "a-", "B1", "G2", "H1", "CCF1", "B12x", "G", "a\"b", "H001"]),
                    "seed": lambda: r.choice(["x", "1.5", "-5", "0", "99999999999999999999"])}[k]()
    if num(p["a"]) and float(p["a"]) > 6 and num(p["c"], True) and int(p["c"]) > 0:
        p["a"] = "6"  # a group of n members has 2^n events
    # keep the size of what is generated practical
    try:
        cg, pg, cb, pb, a = float(p["cg"]), float(p["pg"]), float(p["cb"]), float(p["pb"]), float(p["a"])
        ratio = a * (1 - cg + cg / pg) - 1
        if ratio > 0 and 0 < cb < 1 and int(p["b"]) / (ratio / (1 + ratio) * a * (1 - cb + cb / pb)) > 1500:
            p["b"] = str(max(3, int(1500 * ratio / (1 + ratio) * a * (1 - cb + cb / pb))))
            p["h"] = p["c"] = "0"
    except (ValueError, ZeroDivisionError, OverflowError):
        pass
    return p


def argv(r, p):
    opt = dict(b=["-b", "--num-basic"], a=["-a", "--num-args"], cb=["--common-b"], cg=["--common-g"], pb=["--parents-b"], pg=["--parents-g"],
               g=["-g", "--num-gate"], maxp=["--max-prob"], minp=["--min-prob"], h=["--num-house"], c=["--num-ccf"], ft=["--ft-name"], root=["--root"], seed=["--seed"])
    out = []
    for k in r.sample(list(p), len(p)):
        if k == "w":
            out.append(["--weights-g"] + p[k].split())
        else:
            o = r.choice(opt[k])
            out.append([o + "=" + p[k]] if o.startswith("--") else [o + p[k]])
    return [x for o in out for x in o]


def num(s, integer=False):
    """Is the text a finite number?"""
    try:
        return (int(s) if integer else float(s)) is not None and math.isfinite(float(s))
    except (ValueError, OverflowError):
        return False


def classes(s):
    return ["l" if c.isalpha() and c.isascii() else "d" if c.isdigit() and c.isascii() else c if c in "_-" else "o" for c in s]


def par(p):
    bad = [k for k in p if k not in ("w", "ft", "root") and not num(p[k], k in ("b", "g", "h", "c", "seed"))]
    w = p["w"].split()
    if not all(num(x) for x in w):
        bad.append("w")
    v = {k: "0" if k in bad else str(int(p[k])) if k in ("b", "g", "h", "c", "seed") else p[k] for k in p if k not in ("w", "ft", "root", "seed")}
    return dict(v, w=[] if "w" in bad else w, seed=p["seed"], bad=sorted(bad), ft=p["ft"], root=p["root"], ftc=classes(p["ft"]), rootc=classes(p["root"]), rootfirst=p["root"][:1])


def arg(e):
    if e.tag == "not":
        if len(e) == 1 and e[0].tag in ("gate", "basic-event") and list(e[0].attrib) == ["name"] and not e.attrib:
            return dict(t="not", n=e[0].get("name"), u={"gate": "gate"}.get(e[0].tag, "basic"))
        return dict(t="?", n="", u="")
    t = {"gate": "gate", "basic-event": "basic", "house-event": "house"}.get(e.tag, "?")
    return dict(t=t if list(e.attrib) == ["name"] and len(e) == 0 else "?", n=e.get("name", ""), u="")


def xml_model(text):
    root = ET.fromstring(text)
    m = dict(ft="", gates=[], ccf=[], basic=[], house=[], odd=[])
    odd = m["odd"].append
    if root.tag != "opsa-mef" or [e.tag for e in root] != ["define-fault-tree", "model-data"]:
        odd("top level " + " ".join(e.tag for e in root)[:100])
    for part in root:
        if part.tag == "define-fault-tree":
            m["ft"] = part.get("name")
        for e in part:
            n = e.get("name", "")
            if e.tag == "define-gate" and len(e) == 1:
                f = e[0]
                k = f.get("min", "0")
                if set(f.attrib) - {"min"} or f.tag == "atleast" and "min" not in f.attrib or not re.fullmatch(r"\d{1,6}", k):
                    odd("formula of " + n)
                    k = "0"
                m["gates"].append(dict(n=n, o=f.tag, k=int(k), a=[arg(x) for x in f]))
            elif e.tag == "define-CCF-group":
                mem = [x.get("name", "") for x in e.findall("members/basic-event")]
                pr = [x.get("value", "") for x in e.findall("distribution/float")]
                fs = [[x.get("level", ""), [y.get("value", "") for y in x.findall("float")]] for x in e.findall("factors/factor")]
                if len(pr) != 1 or not all(len(v) == 1 and num(v[0]) and num(l, True) for l, v in fs) or not num(pr[0]):
                    odd("group " + n)
                    continue
                m["ccf"].append(dict(n=n, model=e.get("model", ""), mem=mem, p=pr[0], f=[dict(l=int(l), v=v[0]) for l, v in fs]))
            elif e.tag == "define-basic-event" and len(e) == 1 and e[0].tag == "float" and num(e[0].get("value", "")):
                m["basic"].append(dict(n=n, p=e[0].get("value")))
            elif e.tag == "define-house-event" and len(e) == 1 and e[0].tag == "constant":
                m["house"].append(dict(n=n, s=e[0].get("value", "")))
            else:
                odd("element " + e.tag + " " + n)
    return m


def aralia_model(text):
    m = dict(ft=text.split("\n", 1)[0], gates=[], ccf=[], basic=[], house=[], odd=[])
    N = r"[\w-]+"
    for line in text.split("\n")[1:]:
        if not line.strip():
            continue
        for pat, f in ((r"(%s) := \((.*)\)" % N, "f"), (r"(%s) := @\((\d+), \[(.*)\]\)" % N, "k"), (r"(%s) := ~\((.*)\)" % N, "n"),
                       (r"p\((%s)\) = (\S+)" % N, "p"), (r"s\((%s)\) = (\w+)" % N, "s")):
            q = re.fullmatch(pat, line)
            if not q:
                continue
            if f == "p" and num(q[2]):
                m["basic"].append(dict(n=q[1], p=q[2]))
            elif f == "s":
                m["house"].append(dict(n=q[1], s=q[2]))
            elif f in "fkn":
                body = q[q.lastindex]
                ops = {o for o in "&|^" if " %s " % o in body}
                o = "atleast" if f == "k" else "not" if f == "n" else {"&": "and", "|": "or", "^": "xor"}.get("".join(ops), "?")
                a = re.split(r", " if f == "k" else r" [&|^] ", body)
                if not all(re.fullmatch(N, x) for x in a):
                    o = "?"
                m["gates"].append(dict(n=q[1], o=o, k=int(q[2]) if f == "k" else 0, a=[dict(t="", n=x, u="") for x in a]))
            break
        else:
            m["odd"].append(line[:80])
    return m


def comments(text):
    """What the comments of the file say."""
    cs = re.findall(r"<!--(.*?)-->", text, re.S)
    out = []
    for c, keys in zip(cs + ["", ""], (HEAD, SIZE)):
        d = {}
        for line in c.split("\n"):
            k, s, v = line.strip().partition(": ")
            if s and k in keys and keys[k] not in d:
                d[keys[k]] = v.strip()
        out.append(d)
    w = re.search(r"\[AND, OR, K/N, NOT, XOR\]: +\[(.*?)\]", cs[0] if cs else "")
    out[0]["w"] = w[1] if w else ""
    return out


EMPTY = dict(ft="", gates=[], ccf=[], basic=[], house=[], odd=[])


def rec(w, case):
    r = random.Random(case["seed"])
    kind = case["kind"]
    p = params(r, kind)
    a = argv(r, p)
    tr = [dict(e="par", p=par(p), kind=kind, argv=" ".join(a))]
    plans = [("plain", [], "0")]
    if kind != "edge":
        plans += [("again", [], str(r.randint(1, 10 ** 6)))] + [x for x in (("nest", ["--nest"], "1"), ("aralia", ["--aralia"], "2")) if r.random() < .5 or kind == "big"]
    for what, extra, hs in plans:
        path = w.path("gen.out")
        if os.path.exists(path):
            os.unlink(path)
        stdout = what == "again" and r.random() < .5
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=hs, PYTHONUTF8="1")
        try:
            q = subprocess.run([sys.executable, SCRIPT] + a + extra + ([] if stdout else ["-o", path]), stdin=subprocess.DEVNULL, capture_output=True, timeout=60, env=env)
            rc, err = q.returncode, q.stderr.decode(errors="replace")
            text = (q.stdout if stdout or rc else b"").decode(errors="replace")
        except subprocess.TimeoutExpired:
            rc, err, text = -1, "", ""
        if not stdout and os.path.exists(path):
            text = open(path, encoding="utf-8", errors="replace").read()
        ev = dict(e="run", what=what, rc=rc, tb=("Traceback" in err), out=bool("opsa-mef" in text or ":=" in text), sha="", m=EMPTY, ok=0, head={}, sum={})
        if rc == 0:
            ev["sha"] = hashlib.sha1(text.encode()).hexdigest()[:16]
            if what != "again":
                try:
                    ev["m"] = aralia_model(text) if what == "aralia" else xml_model(text)
                except ET.ParseError as e:
                    ev["m"] = dict(EMPTY, odd=["not well formed: %s" % e])
                if what != "aralia":
                    ev["ok"] = w.run(["--validate", path])[0]
                    if what == "plain":
                        h, s = comments(text)
                        ev["head"] = {k: str(h.get(k, "?")) for k in list(HEAD.values()) + ["w"]}
                        ev["head"]["w"] = [x.strip() for x in ev["head"]["w"].split(",")]
                        ev["sum"] = {k: s[k] if k in s and num(s[k]) else "-1" for k in SIZE.values()}
        tr.append(ev)
        if rc != 0 and what == "plain":
            break
    return tr
