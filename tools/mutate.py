#!/usr/bin/env python3
"""Mutation campaign:  mutate.py WORKERS COUNT SEED OUT.jsonl [file ...]

Random small changes to the code under test, made in scratch copies that a mount namespace shows as /repo.  A change
that still compiles and passes the stable tests is shown to the checks of the code it touches; the outcomes are
written to OUT.jsonl (killed by tests / caught by which check / missed) to find out where the checks are blind.
"""
import json, os, random, re, subprocess, sys, threading, time
W = "/tmp/mut%d"
CHECKS = [
    (r"(mocus|zbdd)\.", "c01 c03 c02 c13 c04 c24"), (r"bdd\.", "c02 c05 c01 c07 c03"),
    (r"(pdag|preprocessor)\.", "c01 c02 c05 c04 c03 c24 c13"), (r"probability_analysis\.", "c05 c06 c08 c20"),
    (r"importance", "c07"), (r"uncertainty", "c09"), (r"ccf_group", "c10 c17"), (r"event_tree_analysis", "c11 c12"),
    (r"risk_analysis", "c12 c11 c24 c20 c09 c08"), (r"substitution", "c13 c17"), (r"expression", "c14 c15 c09 c17"),
    (r"parameter", "c14 c17"), (r"initializer", "c16 c17 c14 c10 c11 c15 c13 c12 c24"), (r"reporter", "c18 c08 c09"),
    (r"serialization", "c19"), (r"settings", "c20"), (r"project", "c20 c17"), (r"cycle", "c17"),
    (r"event\.|event_tree\.", "c17 c16 c24 c01 c11"), (r"fault_tree", "c24 c01 c17 c18"),
    (r"element|model|env|alignment|analysis|xml|scram\.cc|instruction", "c16 c17 c18 c12 c20 c19 c11"),
    (r"gui/(mainwindow|eventdialog|validator)", "c26 c25"), (r"gui/(settingsdialog|producttable|importancetable|reporttree)", "c26"),
    (r"gui/", "c21 c22 c25"), (r"fault_tree_generator", "c23"), (r"\.rng|\.dtd", "c17 c18")]
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"!(?=[a-z(])", ""), (r"std::min\b", "std::max"),
       (r"std::max\b", "std::min"), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"\b1\b", "2"),
       (r"\b0\b", "1"), (r"\b1\b", "0"), (r"if \(", "if (!("), (r"\.front\(\)", ".back()"), (r"\.back\(\)", ".front()"),
       (r"\.begin\(\)", ".end()"), (r" \+= ", " -= "), (r"\+\+", "--"), (r"any_of", "all_of"), (r"all_of", "any_of"),
       (r"none_of", "any_of"), (r"\bkOr\b", "kAnd"), (r"\bkAnd\b", "kOr"), (r"low\(\)", "high()"), (r"high\(\)", "low()"),
       (r"\bmin\b", "max"), (r"\bhigh\b", "low"), (r"\blow\b", "high"), (r" \? (.+) : (.+);", r" ? \2 : \1;"),
       ("DEL", "")]
SKIP = re.compile(r"^\s*(//|#|///|\*|/\*|LOG\(|TIMER|CLOCK|assert|static_assert|BLOG|namespace|using |template|SCRAM_THROW|<<|class |friend |public:|private:)|\bLOG\(|BLOG\(|assert\(")
TESTS = json.load(open("/opt/vp/BASELINE.json"))
STABLE = set(TESTS["stable"] if "stable" in TESTS else TESTS["passed"])


def sh(cmd, t=900):
    try:
        return subprocess.run(["timeout", "-k", "5", str(t), "bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    except Exception as e:
        return subprocess.CompletedProcess(cmd, 9, str(e))


def files():
    out = []
    for d, _, fs in os.walk("/repo/src"):
        out += [os.path.join(d, f)[6:] for f in fs if f.endswith((".cc", ".h")) and not re.search("logger|error|version|ext/", d + f)]
    return sorted(out)


def mutant(rnd, fs):
    """(file, line number, old line, new line) at random; lines weigh the same across all files."""
    cand = []
    for f in fs:
        ls = open("/repo/" + f).read().split("\n")
        depth_ok = f.endswith((".cc", ".cpp")) or True
        cand += [(f, i, l) for i, l in enumerate(ls) if l.strip() and not SKIP.search(l)]
    while True:
        f, i, l = rnd.choice(cand)
        if f.endswith(".h") and rnd.random() < .6:
            continue
        code = l.split("//")[0]
        ops = [(a, b) for a, b in OPS if a != "DEL" and re.search(a, code)]
        if re.match(r"^\s+[\w\->.:*\[\]]+(\(.*\)| [+\-|&]?= .*|\+\+|--);\s*$", code) and not re.match(r"^\s*(return|delete|throw|auto|const|int|double|bool)\b", code):
            ops.append(("DEL", ""))
        if f.endswith(".h") and ("(" not in code or ";" not in code):
            continue
        if not ops:
            continue
        a, b = rnd.choice(ops)
        if a == "DEL":
            return f, i, l, re.match(r"^\s*", l).group(0) + ";"
        if a == "if \\(":
            m = re.match(r"^(\s*(?:\} else )?if \()(.*)(\)( \{)?)$", l)
            if not m or ";" in l:
                m = re.match(r"^(\s*(?:\} else )?if \()(.*)(\) (return|continue|break).*;)$", l)
            if not m:
                continue
            return f, i, l, m.group(1) + "!(" + m.group(2) + ")" + m.group(3)
        ms = list(re.finditer(a, code))
        m = rnd.choice(ms)
        new = l[:m.start()] + re.sub(a, b, m.group(0)) + l[m.end():] if "\\1" not in b else re.sub(a, b, l)
        if new != l:
            return f, i, l, new


def worker(k, queue, out, lock):
    w = W % k
    os.makedirs(w, exist_ok=True)
    while True:
        with lock:
            if not queue:
                return
            f, i, old, new = queue.pop()
        t0 = time.time()
        sh("rsync -a --no-t --checksum --delete --exclude /_build --exclude /_install /repo/ %s/repo/" % w)
        if not os.path.isdir(w + "/repo/_build"):
            sh("cp -a /repo/_build /repo/_install %s/repo/" % w)
        sh("rsync -a --delete --exclude seeded --exclude .git /verif/ %s/verif/" % w)
        p = w + "/repo/" + f
        ls = open(p).read().split("\n")
        ls[i] = new
        open(p, "w").write("\n".join(ls))
        res = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip()}
        ns = "unshare -Urm bash -c 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /repo && %%s'" % (w, w)
        r = sh(ns % "bash /opt/vp/build.sh", 600)
        if r.returncode:
            res["result"] = "nobuild"
        else:
            o = w + "/out.json"
            if os.path.exists(o):
                os.remove(o)
            sh(ns % ("bash /opt/vp/test.sh %s" % o), 120)
            try:
                bad = sorted(STABLE - set(json.load(open(o))["passed"]))
            except (OSError, ValueError):
                bad = ["no result"]
            if bad:
                res["result"] = "tests"
                res["bad"] = len(bad)
            else:
                res["result"] = "MISSED"
                base = f.split("/")[-1] if "gui" not in f else f
                key = f if "expression" in f or "gui" in f else base
                cs = next((c for r_, c in CHECKS if re.search(r_, key)), "c16 c17 c18").split()
                res["checks"] = {}
                for c in cs:
                    r = sh(ns % ("cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 checks/%s.py" % c))
                    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                    res["checks"][c] = [r.returncode, len(v)]
                    if r.returncode == 1 and v:
                        res["result"] = "caught " + c
                        break
        res["s"] = round(time.time() - t0)
        with lock:
            open(out, "a").write(json.dumps(res) + "\n")


def main():
    n, count, seed, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    rnd = random.Random(seed)
    fs = sys.argv[5:] or files()
    queue = []
    while len(queue) < count:
        m = mutant(rnd, fs)
        if m not in queue:
            queue.append(m)
    queue.reverse()
    lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(k, queue, out, lock)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    open(out, "a").write(json.dumps({"result": "END"}) + "\n")


if __name__ == "__main__":
    main()
