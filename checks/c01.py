#!/usr/bin/env python3
"""C01: minimal cut sets are exact."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import check, ft, ftrec, tlc, treerec

ALGS = ["bdd", "zbdd", "mocus"]


def random_cases(c, n, tag, runs, **kw):
    for i in range(n):
        r = c.rng(tag, i)
        gen = dict(kw)
        if r.random() < .25:
            gen.update(n=r.randint(4, 7), ng=r.randint(8, 26))
        yield {"seed": "%s/%s/%s/%d" % (c.prop, tag, c.seed, i), "gen": gen, "runs": runs(r)}


def enumerated(c, cfg, limit=None):
    out = c.model_check("FtEnum", cfg=cfg, workers=4)
    ms = tlc.parse_prints(out, "MODEL")
    ms.sort(key=lambda m: str(m))
    if limit and len(ms) > limit:
        ms = c.rng("enum", cfg).sample(ms, limit)
    return ms


def main():
    c = check.Check("C01")
    c.model_check("FtLaws")
    runs = lambda r: [[a, 20, False] for a in ALGS]
    full = enumerated(c, "FtEnum.cfg", None if not c.quick else 3000)
    coh = enumerated(c, "FtEnumC.cfg", None if not c.quick else 1500)
    cases = [{"seed": i, "m": m, "runs": [[a, 20, False] for a in ALGS], "vary": False}
             for i, m in enumerate(full + coh)]
    c.conform("FtTrace", cases, ftrec.rec, rule="fault trees enumerated by FtEnum.tla; all algorithms; non-trivial: distinct reported results")
    cases = list(random_cases(c, c.n(4000, 60000), "rnd", runs))
    c.conform("FtTrace", cases, ftrec.rec, rule="seeded random fault-tree DAGs of 2-7 events and 1-26 gates, all connectives, house events, constants; all algorithms")
    treerec.conform(c, 500, 5000, lambda r: [[a, 90, False, "-", False] for a in ALGS], what="all algorithms")
    c.finish()


if __name__ == "__main__":
    check.run(main)
