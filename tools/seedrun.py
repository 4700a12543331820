#!/usr/bin/env python3
"""Run checks against a planted change in isolation:  seedrun.py ID [check ...]  (default: the property's check)."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import S, sync, sh

ids = sys.argv[1].split(",") if sys.argv[1] != "all" else sorted(os.listdir("/verif/seeded"))
for i in ids:
    meta = json.load(open("/verif/seeded/%s/meta.json" % i))
    checks = sys.argv[2:] or [meta["property"].lower()]
    sync()
    r = sh("git -C %s/repo apply /verif/seeded/%s/patch.diff" % (S, i))
    assert r.returncode == 0, r.stdout
    sh("rsync -a --delete --exclude seeded --exclude .git /verif/ %s/verif/" % S)
    for c in checks:
        r = sh("unshare -Urm bash -c 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && "
               "VERIF_SEED=1 VERIF_TIER=quick python3 checks/%s.py'" % (S, S, c))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + c.upper())]
        print(i, c, "CAUGHT" if r.returncode == 1 and v else "MISSED", r.returncode, len(v), r.stdout.splitlines()[-1][:150], flush=True)
