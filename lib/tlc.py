"""Running TLC on the specification modules."""
import os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = ":".join([VERIF + "/build/java", "/opt/veriftools/tla/tla2tools.jar",
               "/opt/veriftools/tla/CommunityModules-deps.jar"])


class TlcError(Exception):
    pass


def run_tlc(module, cfg=None, env=None, args=(), timeout=800, mem="2g", workers=1, scratch=None):
    """Run TLC on specs/<module>.tla; returns its output.  Raises TlcError when TLC did not finish."""
    d = tempfile.mkdtemp(prefix="tlc", dir=scratch or ("/dev/shm" if os.path.isdir("/dev/shm") else "/tmp"))
    try:
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss256m",
               "-XX:TieredStopAtLevel=4", "-DTLA-Library=" + VERIF + "/specs", "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", d, "-noGenerateSpecTE", "-cleanup",
               "-config", VERIF + "/specs/" + (cfg or module + ".cfg")] + list(args) + \
              [VERIF + "/specs/" + module + ".tla"]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e,
                               timeout=timeout, cwd=VERIF + "/specs")
        except subprocess.TimeoutExpired:
            raise TlcError("TLC timed out after %s s on %s" % (timeout, module))
        return r.returncode, r.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def parse_prints(out, tag):
    """The TLC-printed JSON strings tagged tag: lines of the form  "@tag {json}" """
    import json
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"@%s ' % tag) and line.endswith('"'):
            s = line[len(tag) + 3:-1]
            res.append(json.loads(s.replace('\\"', '"').replace("\\\\", "\\")))
    return res


def validate(module, chunks, timeout=800, jobs=None, mem="2g", cfg=None):
    """Validate trace files (paths) in parallel.  Each trace run must end normally and consume every line.

    Returns (list per chunk of failure records, total states, summed counters the specification printed).  A failure record is the JSON printed by the
    trace specification:  {"l": line number, "why": [...]}
    """
    def one(path):
        n = sum(1 for _ in open(path))
        rc, out = run_tlc(module, cfg=cfg, env={"TRACE": path}, timeout=timeout, mem=mem)
        fails = parse_prints(out, "FAIL")
        done = parse_prints(out, "DONE")
        if rc != 0 or not done or done[-1]["n"] != n:
            at = max(out.find("Error:"), 0)
            raise TlcError("TLC did not consume %s of %d lines (rc %d):\n%s" % (path, n, rc, out[at:at + 1500] + "\n...\n" + out[-1500:]))
        return fails, stats(out)[0], parse_prints(out, "SEEN")

    with ThreadPoolExecutor(jobs or os.cpu_count() or 4) as ex:
        res = list(ex.map(one, chunks))
    seen = {}
    for r in res:
        for d in r[2]:
            for k, v in d.items():
                seen[k] = seen.get(k, 0) + v
    return [r[0] for r in res], sum(r[1] for r in res), seen
