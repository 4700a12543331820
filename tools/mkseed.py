#!/usr/bin/env python3
"""Make and confirm a planted change:  mkseed.py DEF.py  (DEF.py sets ID, PROP, EDITS, NEEDS, BREAKS, FILES).

EDITS: [(file, old, new)]; FILES: {name: text}, must contain demo.sh.  Works in a scratch copy of /repo that a
mount namespace shows as /repo; nothing in the real /repo changes.
"""
import json, os, re, runpy, shutil, subprocess, sys
S = os.environ.get("SEED_DIR", "/tmp/seed")
REPO = S + "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def inns(cmd, extra=""):
    return sh("unshare -Urm bash -c 'mount --bind %s /repo %s && cd /repo && %s'" % (REPO, extra, cmd))


def sync():
    os.makedirs(S, exist_ok=True)
    r = sh("rsync -a --no-t --checksum --delete --exclude /_build --exclude /_install /repo/ %s/" % REPO)
    if not os.path.isdir(REPO + "/_build"):
        sh("cp -a /repo/_build /repo/_install %s/" % REPO)
    assert r.returncode == 0, r.stdout
    sh("git -C %s checkout -q -- . && git -C %s clean -fdq -e _build -e _install" % (REPO, REPO))


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return set(b["stable"] if "stable" in b else b["passed"])


def tests():
    r = inns("bash /opt/vp/test.sh /tmp/seed/out.json >/tmp/seed/test.log 2>&1")
    o = json.load(open("/tmp/seed/out.json"))
    return sorted(stable() - set(o["passed"]))


RUNALL = r"""
import json, os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
cands = json.load(open("/tmp/seed/cands.json"))
show = open("/tmp/seed/show.py").read().replace("want = json.load(open(sys.argv[2]))", "print(json.dumps(out, sort_keys=True)); sys.exit(0)")
open("/tmp/seed/show1.py", "w").write(show)
def one(i):
    xml, args = cands[i]
    d = "/tmp/seed/c/%d" % i
    os.makedirs(d, exist_ok=True)
    open(d + "/model.xml", "w").write(xml)
    r = subprocess.run(["/repo/_install/bin/scram"] + args.split() + ["-o", d + "/o.xml", d + "/model.xml"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    if r.returncode:
        return "rc %d" % r.returncode
    return subprocess.run(["python3", "/tmp/seed/show1.py", d + "/o.xml"], stdout=subprocess.PIPE, text=True).stdout
with ThreadPoolExecutor(8) as ex:
    json.dump(list(ex.map(one, range(len(cands)))), open(sys.argv[1], "w"))
"""


def close(a, b):
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(close(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 3e-3 * max(abs(a), abs(b)) + 1e-12
    return a == b


def search(d):
    """Find a candidate whose report differs; its base report becomes the demonstration."""
    import seedlib
    cands = list(d["SEARCH"]())
    json.dump(cands, open(S + "/cands.json", "w"))
    open(S + "/show.py", "w").write(seedlib.SHOW)
    open(S + "/runall.py", "w").write(RUNALL)
    inns("python3 /tmp/seed/runall.py /tmp/seed/base.json")
    apply(d)
    r = inns("bash /opt/vp/build.sh >/tmp/seed/build.log 2>&1")
    if r.returncode:
        print(sh("tail -20 /tmp/seed/build.log").stdout)
        sys.exit("does not build")
    inns("python3 /tmp/seed/runall.py /tmp/seed/mod.json")
    a, b = (json.load(open(S + "/" + n)) for n in ("base.json", "mod.json"))
    diff = []
    for c, x, y in zip(cands, a, b):
        if x.startswith("rc"):
            continue
        x = json.loads(x)
        if y.startswith("rc") or not close(x, json.loads(y)):
            diff.append((len(c[0]), c, x, y[:4]))
    print("candidates %d, failing on base %d, differing %d" % (len(cands), sum(x.startswith("rc") for x in a), len(diff)))
    if not diff:
        sys.exit("no candidate shows the change")
    diff.sort(key=lambda t: (t[3].startswith("rc"), t[0]))
    _, (xml, args), want, _ = diff[0]
    sync()
    inns("bash /opt/vp/build.sh >/tmp/seed/build.log 2>&1")
    return seedlib.demo(xml, args, want)


def apply(d):
    for f, old, new in d["EDITS"]:
        p = REPO + "/" + f
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))


def main():
    d = runpy.run_path(sys.argv[1])
    sync()
    r = inns("bash /opt/vp/build.sh >/tmp/seed/build.log 2>&1")
    assert r.returncode == 0, "base build"
    if "SEARCH" in d:
        d["FILES"] = search(d)
    work = S + "/demo"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    for n, t in d["FILES"].items():
        open(work + "/" + n, "w").write(t)
    os.chmod(work + "/demo.sh", 0o755)
    r = inns("bash %s/demo.sh" % work)
    print("base demo:", r.returncode, r.stdout[-400:])
    if r.returncode:
        sys.exit("demo fails on base")
    apply(d)
    patch = sh("git -C %s diff" % REPO).stdout
    r = inns("bash /opt/vp/build.sh >/tmp/seed/build.log 2>&1")
    if r.returncode:
        print(sh("tail -20 /tmp/seed/build.log").stdout)
        sys.exit("does not build")
    r = inns("bash %s/demo.sh" % work)
    print("seeded demo:", r.returncode, r.stdout[-600:])
    if r.returncode == 0:
        sys.exit("demo passes with the change")
    bad = tests()
    print("tests broken:", bad[:5])
    if bad:
        sys.exit("tests fail")
    out = "/verif/seeded/" + d["ID"]
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(work, out)
    open(out + "/patch.diff", "w").write(patch)
    json.dump({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]},
              open(out + "/meta.json", "w"), indent=1)
    print("kept", out)
    shutil.rmtree(work)


if __name__ == "__main__":
    main()
