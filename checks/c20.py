#!/usr/bin/env python3
"""C20: settings combine and are enforced consistently."""
import collections, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import check, setrec


def walks(c, out, length=120):
    """Histories of requests that cover every step TLC found in SettingsEnum."""
    edges = {}
    for line in out.splitlines():
        if "@EDGE" in line:
            s, r, t = json.loads(json.loads(line)[6:])
            edges.setdefault(json.dumps(s, sort_keys=True), {})[json.dumps(r)] = json.dumps(t, sort_keys=True)
    start = next(s for s in edges if all(json.loads(s)[k] == v for k, v in
                 dict(algorithm="bdd", approximation="none", prime=False, step="0", probability=False, sil=False, importance=False,
                      uncertainty=False, ccf=False).items()))
    left = {s: set(e) for s, e in edges.items()}
    total = sum(len(e) for e in left.values())
    rng = c.rng("walk")
    res, cur, walk = [], start, []
    while any(left.values()):
        if left[cur]:
            stay = [r for r in sorted(left[cur]) if edges[cur][r] == cur]
            path = [stay[0] if stay else rng.choice(sorted(left[cur]))]
        else:   # the nearest state with something left
            prev, q, hit = {cur: None}, collections.deque([cur]), None
            while q and hit is None:
                s = q.popleft()
                for r, t in sorted(edges[s].items()):
                    if t not in prev:
                        prev[t] = (s, r)
                        q.append(t)
                        if left[t]:
                            hit = t
                            break
            if hit is None:
                res.append(walk)
                cur, walk = start, []
                continue
            path = []
            while prev[hit]:
                path.append(prev[hit][1])
                hit = prev[hit][0]
            path.reverse()
        for r in path:
            left[cur].discard(r)
            walk.append(json.loads(r))
            cur = edges[cur][r]
        if len(walk) >= length:
            res.append(walk)
            cur, walk = start, []
    res.append(walk)
    return total, len(edges), res


def random_walks(c, n):
    for i in range(n):
        r = c.rng("rand", i)
        walk = []
        for _ in range(60):
            k = r.choice(setrec.ORDER)
            if k in setrec.FLAGS:
                v = r.random() < .5
            elif k == "algorithm":
                v = r.choice(["bdd", "zbdd", "mocus", "BDD", ""])
            elif k == "approximation":
                v = r.choice(["none", "rare-event", "mcub", "rare", ""])
            else:
                v, bad = setrec.value(r, k, True)
                if bad:
                    continue
            walk.append([k, v])
        yield {"walk": walk}


def main():
    c = check.Check("C20")
    total, states, ws = walks(c, c.model_check("SettingsEnum", workers=1))
    c.cov["edges_replayed"] = {"states": states, "steps": total, "histories": len(ws)}
    cases = [{"walk": w} for w in ws] + list(random_walks(c, c.n(200, 4000)))
    cases += [{"seed": "C20/%s/%d" % (c.seed, i), "n": 12} for i in range(c.n(500, 6000))]
    tr = c.conform("SettingsTrace", cases, setrec.rec,
              rule="every step of SettingsEnum replayed on the settings object; random requests; runs with project file and command line")
    n = collections.Counter("%s rc %s" % ("refused" if e["rc"] else "validated" if e["validate"] else "analysed", e["rc"])
                            for t in tr for e in t if e["e"] == "cli")
    c.cov["runs"] = dict(n)
    print("  runs:", dict(n))
    c.finish()


if __name__ == "__main__":
    check.run(main)
