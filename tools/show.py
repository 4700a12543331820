#!/usr/bin/env python3
"""Print the failing lines of a check's replay files, shortened:  show.py C07 [count] [width]"""
import glob, json, sys
n, w = int(sys.argv[2]) if len(sys.argv) > 2 else 3, int(sys.argv[3]) if len(sys.argv) > 3 else 600
for f in sorted(glob.glob("/verif/evidence/replay/%s-*.json" % sys.argv[1]), key=lambda x: int(x.split("-")[-1][:-5]))[:n]:
    d = json.load(open(f))
    if "case" not in d:
        print(json.dumps(d)[:w]); continue
    print("CASE", json.dumps(d["case"])[:w]); print("LOAD", json.dumps(d["trace"][0])[:w])
    for L in d["lines"][:2]:
        print("  WHY", L["why"][:8], "EVENT", json.dumps(L["event"])[:w])
