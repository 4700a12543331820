"""The common frame of the checks.

A check generates cases (JSON values), records what the code does on each (trace events, one per line), and has
TLC validate the traces against a trace specification.  A case whose trace the specification rejects is recorded
again with the plain scram binary and validated again before it is reported.
"""
import argparse, glob, hashlib, json, multiprocessing as mp, os, random, shutil, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + "/lib")
import build, sc, tlc  # noqa: E402

KNOWN = VERIF + "/KNOWN_FINDINGS.txt"
_W = None
_REC = None


def _init(rec, base):
    global _W, _REC
    _REC = rec
    _W = sc.Worker(base=base)


def _one(item):
    i, case = item
    try:
        return i, _REC(_W, case), None
    except Exception:
        return i, None, traceback.format_exc()


def rng(*key):
    """A random generator that depends only on the key."""
    return random.Random(int(hashlib.sha256(repr(key).encode()).hexdigest()[:16], 16))


def known_findings(prop):
    """[(key, description)] of the findings listed for a property."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2].strip()
                key, _, desc = rest.partition(" :: ")
                out.append((key, desc))
    return out


class Check:
    def __init__(self, prop, level="model_checking", targets=("scram", "scramd", "java")):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=self.tier, choices=["quick", "thorough"])
        ap.add_argument("--seed", type=int, default=self.seed)
        ap.add_argument("--replay")
        ap.add_argument("--scale", type=float, default=1.0)
        self.args = ap.parse_args()
        self.tier, self.seed = self.args.tier, self.args.seed
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.violations = []
        self.known_hit = {}
        self.known = known_findings(prop)
        self.assumptions = []
        try:
            build.build(targets)
        except build.BuildError as e:
            print("build failed:", e)
            sys.exit(3)
        if not self.args.replay:
            for f in glob.glob(VERIF + "/evidence/replay/%s-*.json" % prop):
                os.unlink(f)
        self.scratch = tempfile.mkdtemp(prefix="chk", dir=sc.SCRATCH)

    @property
    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return max(1, int((quick if self.quick else thorough) * self.args.scale))

    def rng(self, *key):
        return rng(self.prop, self.seed, *key)

    # ---- pure model checking ------------------------------------------------------------------
    def model_check(self, module, cfg=None, env=None, workers=8, timeout=800, mem="6g", args=(), expect=0):
        """Check a specification on its own.  A violated invariant of the specification is an error of the check."""
        rc, out = tlc.run_tlc(module, cfg=cfg, env=env, workers=workers, timeout=timeout, mem=mem, args=args)
        if rc != expect:
            print("\n".join(out.splitlines()[-30:]))
            raise tlc.TlcError("%s: TLC exit %d" % (module, rc))
        g, d = tlc.stats(out)
        self.cov["states"] += d
        self.cov["transitions"] += g
        self.cov.setdefault("spec_runs", []).append({"module": module, "cfg": cfg or module + ".cfg",
                                                     "distinct_states": d, "generated": g})
        return out

    # ---- conformance --------------------------------------------------------------------------
    def record(self, cases, rec, jobs=None):
        """The traces of all cases, recorded in parallel by forked workers."""
        cases = list(cases)
        res = [None] * len(cases)
        jobs = min(jobs or os.cpu_count() or 4, max(1, len(cases)))
        ctx = mp.get_context("fork")
        with ctx.Pool(jobs, _init, (rec, self.scratch)) as pool:
            for i, tr, err in pool.imap_unordered(_one, list(enumerate(cases)), chunksize=4):
                if err:
                    raise RuntimeError("recording case %d failed:\n%s\n%s" % (i, json.dumps(cases[i])[:2000], err))
                res[i] = tr
        return res

    def _validate(self, module, traces, cfg=None, chunks=None, timeout=800, mem="2g"):
        """Failure records per trace: {trace index: [(line in trace, why)]}."""
        chunks = chunks or min(os.cpu_count() or 4, max(1, len(traces) // 8))
        # balance by length
        order = sorted(range(len(traces)), key=lambda i: -sum(len(json.dumps(x)) for x in traces[i]))
        parts = [[] for _ in range(chunks)]
        for n, i in enumerate(order):
            parts[n % chunks].append(i)
        paths, maps = [], []
        for n, part in enumerate(parts):
            p = os.path.join(self.scratch, "trace%d_%d.ndjson" % (len(os.listdir(self.scratch)), n))
            mp_, k = [], 0
            with open(p, "w") as f:
                for i in part:
                    for j, line in enumerate(traces[i]):
                        f.write(json.dumps(line) + "\n")
                        mp_.append((i, j))
            if mp_:
                paths.append(p)
                maps.append(mp_)
            else:
                os.unlink(p)
        fails, states, self.seen = tlc.validate(module, paths, timeout=timeout, mem=mem, cfg=cfg)
        out = {}
        for m, fs in zip(maps, fails):
            for f in fs:
                i, j = m[f["l"] - 1]
                out.setdefault(i, []).append((j, f["why"]))
        for p in paths:
            os.unlink(p)
        return out, states

    def conform(self, module, cases, rec, cfg=None, rule="", keyfn=None, mem="2g", timeout=800, sample=2):
        """Record every case, validate the traces, confirm and report what fails."""
        cases = list(cases)
        if self.args.replay:
            old = json.load(open(self.args.replay))
            if old.get("module", module) != module or old.get("recorder", rec.__name__) != rec.__name__:
                return
            cases = [old["case"]]
        traces = self.record(cases, rec)
        fails, states = self._validate(module, traces, cfg=cfg, mem=mem, timeout=timeout)
        nlines = sum(len(t) for t in traces)
        self.cov["states"] += states
        self.cov["transitions"] += nlines
        self.cov["traces_validated_against_impl"] += len(traces)
        distinct = len({json.dumps(t, sort_keys=True) for t in traces})
        self.cov.setdefault("conformance", []).append(
            {"module": module, "traces": len(traces), "events": nlines, "distinct_traces": distinct, "rule": rule})
        for i in self.rng("sample", module).sample(range(len(cases)), min(sample, len(cases))):
            s = json.dumps(traces[i])
            self.cov["samples"].append(s if len(s) < 3000 else s[:3000] + "...")
        if self.seen:
            self.cov["conformance"][-1]["counters"] = self.seen
        if fails:
            self._confirm(module, cases, traces, fails, rec, cfg, keyfn)
        return traces

    def _confirm(self, module, cases, traces, fails, rec, cfg, keyfn):
        # every failing case is recorded again, with the plain binary
        todo = sorted(fails)[:20]
        base = tempfile.mkdtemp(prefix="re", dir=self.scratch)
        w = sc.PlainWorker(base=base)
        again = [rec(w, cases[i]) for i in todo]
        w.close()
        f2, _ = self._validate(module, again, cfg=cfg, chunks=1)
        for n, i in enumerate(todo):
            if n not in f2:
                self.cov["unconfirmed"] = self.cov.get("unconfirmed", 0) + 1
                continue
            whys = sorted({w for _, why in f2[n] for w in why})
            self.fail(whys, {"module": module, "recorder": rec.__name__, "case": cases[i], "trace": again[n],
                             "lines": [{"line": j, "event": again[n][j], "why": why} for j, why in f2[n]]},
                      keys=keyfn(cases[i], again[n], f2[n]) if keyfn else [])

    # ---- reporting ----------------------------------------------------------------------------
    def fail(self, why, detail, keys=()):
        """Report a violation (or a listed known finding: keys are the identifiers of what failed)."""
        kn = dict(self.known)
        hit = [k for k in keys if k in kn]
        if keys and len(hit) == len(list(keys)):
            for k in hit:
                self.known_hit.setdefault(k, 0)
                self.known_hit[k] += 1
            return
        d = VERIF + "/evidence/replay"
        os.makedirs(d, exist_ok=True)
        path = "%s/%s-%d.json" % (d, self.prop, len(self.violations) + 1)
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, why=why, keys=list(keys), **detail), f, indent=1)
        self.violations.append((why, path))
        if len(self.violations) <= 10:
            print("  %s: %s" % (self.prop, "; ".join(map(str, why))[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(path, VERIF)), flush=True)

    def finish(self, probe_known=None):
        """Write the evidence and end.  probe_known(key) -> bool tells whether a listed finding still shows."""
        for key, desc in self.known:
            shows = key in self.known_hit
            if not shows and probe_known:
                shows = probe_known(key)
            if shows:
                print("KNOWN-FINDING: property=%s %s %s" % (self.prop, key, desc))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % self.prop, "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        print("%s %s: %d traces, %d states, %.1f s, %d violations" % (
            self.prop, self.tier, self.cov["traces_validated_against_impl"], self.cov["states"],
            time.time() - self.t0, len(self.violations)))
        sys.exit(1 if self.violations else 0)


def run(main):
    """Run a check's main; an internal error ends with status 3 (no answer), never with a violation."""
    try:
        main()
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        sys.exit(3)
