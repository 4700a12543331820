"""Driving the editor's window (events of WindowTrace.tla): a worker around build/inst/bin/guiwindow."""
import json, os, shutil, subprocess, tempfile
import build, sc

DRIVER = sc.INST + "/bin/guiwindow"


class WinWorker:
    def __init__(self, exe=None, base=None):
        self.dir = tempfile.mkdtemp(prefix="win", dir=base or sc.SCRATCH)
        self.p = None

    def path(self, name):
        return os.path.join(self.dir, name)

    def ask(self, **req):
        """The answer to one request, or None when the program ended (or did not answer)."""
        if self.p is None:
            env = dict(os.environ, QT_FATAL_CRITICALS="1", LC_ALL="C", QT_QPA_PLATFORM="offscreen", HOME=self.dir,
                       XDG_RUNTIME_DIR=self.dir, XDG_CONFIG_HOME=self.dir, XDG_CACHE_HOME=self.dir, XDG_DATA_HOME=self.dir)
            self.p = subprocess.Popen(["timeout", "120", DRIVER, build.REPO + "/share/gui.rng"], stdin=subprocess.PIPE,
                                      stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=self.dir, env=env)
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            return json.loads(line) if line.endswith("\n") else None
        except BrokenPipeError:
            return None

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
                self.p.wait()
            self.p = None

    def close(self):
        self.stop()
        shutil.rmtree(self.dir, ignore_errors=True)


# ---- what was seen, as WindowTrace reads it ------------------------------------------------------------------
def canon(t):
    """A number as text, "" when it is none."""
    try:
        return "%.17g" % float(t)
    except ValueError:
        return ""


def expr(s):
    if s in ("none", ""):
        return dict(k="none", v="", t="")
    k, v = s.split(":", 1)
    v, _, t = v.partition(",")
    return dict(k=k, v=canon(v), t=t if t == "T" else canon(t) if t else "")


def model(m, name=None):
    return dict(name=m["name"] if name is None else name, trees=[dict(name=t["name"], label=t["label"], top=t.get("top", "")) for t in m["trees"]],
                els=[dict(e, expr=expr(e["expr"]), p="") for e in m["els"]])


def event_dialog(s):
    return dict(s, label=" ".join(s["label"].split()), cv=canon(s["const"]), rv=canon(s["rate"]))


def dialog(d):
    if d["d"] == "message":
        return dict(d=d["icon"])
    if d["d"] == "event":
        return dict(d="event", open=event_dialog(d["open"]), steps=[event_dialog(s) for s in d["steps"]])
    return d


NO_OBS = dict(has=False, modified=False, recent=[])


def obs(a):
    recent = [os.path.basename(x) for x in a["recent"]]
    if "model" not in a:
        return dict(NO_OBS, modified=a["modified"], recent=recent)
    title = a["title"]
    name = title[:-3] if title.endswith("[*]") else title
    t = a["tables"]
    tables = dict(t, basic=[dict(r, c=[r["c"][0], r["c"][1], r["c"][-1]]) for r in t["basic"]])
    return dict(has=True, recent=recent, name=name, model=model(a["model"], "" if name == "Unnamed Model" else name), title=title, modified=a["modified"], on=a["on"],
                index=a["index"], count=a["count"], hasReport=a["hasReport"], tables=tables)


def gesture(g):
    v, n = g.get("v", ""), canon(g.get("v", ""))
    return dict(k=g["k"], v=v, n=g.get("n", 0), words=" ".join(v.split()), num=int(min(float(n), 1000.5) * 10**6) if n else -1, cv=n)


# ---- sessions ------------------------------------------------------------------------------------------------
NAMES = ["a", "b", "c", "g", "h", "k", "r", "x1", "new-one", "Z_9", "q"]
BAD = ["", "a-", "1", "-", "a--b", "b ", "9x", "a.b", "e-1-"]
NUMBERS = ["0.5", "1", "0", "0.1234567890123", "1e-3", "2.5e-7", "0.000123456789", "1.5", "1e", "", "0.30000000000000004", "3", "7e-12", "0.25"]
LABELS = ["", "A label", "  two  spaces ", "x", "one\ntwo", "<&>\"'"]


class Session:
    """Draws the commands of a session from what the window shows."""

    def __init__(self, r, paths, case):
        self.r, self.paths, self.case = r, paths, case
        self.model, self.index, self.count, self.has = None, 0, 0, False

    def see(self, o):
        self.has, self.recent = o["has"], o["recent"]
        if self.has:
            self.model, self.index, self.count = o["model"], o["index"], o["count"]

    def name(self, fresh=.5):
        ids = [e["id"] for e in self.model["els"]]
        x = self.r.random()
        if x < fresh:
            return self.r.choice([n for n in NAMES + ["n%d" % k for k in range(20)] if n not in ids])
        return self.r.choice(ids) if ids and x < .93 else self.r.choice(BAD)

    def number(self):
        return self.r.choice(NUMBERS) if self.r.random() < .6 else repr(self.r.choice([self.r.random(), self.r.random() * 10.0 ** -self.r.randrange(1, 9)]))

    def above(self, e):
        """The gates that e is an argument of, and so on up."""
        out, old = {e["id"]}, None
        while out != old:
            old = set(out)
            out |= {x["id"] for x in self.model["els"] if x["kind"] == "gate" and out & set(x["args"])}
        return sorted(out - {e["id"]})

    def gestures(self, e):
        """e: the element that is edited, None for a new one."""
        r, gs = self.r, []
        p = lambda x: r.random() < x
        t = r.randrange(4) if e is None or p(.25) else {"house": 0, "gate": 3}.get(e["kind"], 2 if e["flavor"] == "Undeveloped" else 1)
        if e is None or p(.3):
            if p(.1):
                gs.append(dict(k="name", v=r.choice(BAD + [x["id"] for x in self.model["els"]])))
            gs.append(dict(k="name", v=self.name(.9)))
        if p(.4):
            gs.append(dict(k="label", v=r.choice(LABELS)))
        if p(.08):
            gs.append(dict(k="type", n=r.randrange(4)))
        if e is None or p(.5):
            gs.append(dict(k="type", n=t))
        if t == 0 and p(.6):
            gs.append(dict(k="state", n=r.randrange(2)))
        elif t in (1, 2) and (e is None or p(.6)):
            if p(.3):
                gs.append(dict(k="hasExpr", n=r.randrange(2)))
            et = r.randrange(2)
            if p(.5):
                gs.append(dict(k="etype", n=et))
            for _ in range(r.choice([1, 1, 1, 2, 0])):
                gs.append(dict(k=r.choice(["const", "rate"]) if p(.2) else "rate" if et and any(g["k"] == "etype" for g in gs) else "const", v=self.number()))
        elif t == 3 and (e is None or p(.7)):
            n = r.choice([1, 2, 2, 3, 4, 5]) if e is None else r.choice([0, 1, 1, 2])
            for _ in range(n):
                up = self.above(e) if e is not None and p(.3) else []
                gs.append(dict(k=r.choice(["addarg", "addenter"]), v=r.choice(up) if up else self.name(.3)))
                if p(.12):
                    gs.append(dict(k="rmarg", n=r.randrange(-1, 3)))
            if p(.7):
                gs.append(dict(k="conn", n=r.choice([0, 1, 2, 2, 3, 4, 5, 6, 7]) if n > 1 else r.choice([4, 7, 7, r.randrange(8)])))
            if p(.4):
                gs.append(dict(k="min", n=r.randrange(0, 6)))
            if p(.15):
                gs.append(dict(k="rmarg", n=r.randrange(-1, 4)))
            if e is None or p(.1):
                gs.append(dict(k="ft", v=r.choice(["F", "G", "T%d" % r.randrange(9), "T%d" % r.randrange(9), "T%d" % r.randrange(9)] + BAD[:2])))
        if p(.08):
            r.shuffle(gs)
        return gs

    def saving(self):
        return [] if self.r.random() < .15 else [self.r.choice([self.paths[0], "out.xml", "out2.xml", "missing/x.xml"])]

    def next(self):
        """The next command: an event without its results."""
        r = self.r
        if not self.has:
            if r.random() < .75 and self.paths:
                return dict(e="open", files=[r.choice(self.paths)], p=[], b="")
            return dict(e="new", p=[], b="")
        els = self.model["els"]
        kind = r.choice("add add add edit edit edit edit edit edit remove remove undo undo redo name save saveas new close open open load load run auto recent".split()
                        if not self.case.get("kinds") else self.case["kinds"])
        if kind == "add":
            return dict(e="add", g=self.gestures(None), ok=r.random() < .93)
        if kind in ("edit", "remove") and els:
            e = r.choice(els)
            x = dict(e=kind, kind=e["kind"], id=e["id"])
            return x if kind == "remove" else dict(x, g=self.gestures(e) if r.random() < .9 else [], ok=r.random() < .93)
        if kind == "undo" and self.index > 0 or kind == "redo" and self.index < self.count:
            return dict(e=kind)
        if kind == "name":
            return dict(e="name", v=r.choice(["M", "N-1", "", "a-", "9", "Long_name"]), ok=r.random() < .9)
        if kind in ("save", "saveas"):
            return dict(e=kind, p=self.saving())
        if kind in ("new", "close") and r.random() < .25:
            return dict(e=kind, p=self.saving(), b=r.choice(["Save", "Discard", "Cancel"]))
        if kind == "open":
            fs = r.sample(self.paths, r.choice([1, 1, 1, 2]))
            return dict(e="open", files=[] if r.random() < .1 else fs, p=self.saving(), b="")
        if kind == "auto" or kind == "clear":
            return dict(e=kind)
        if kind == "recent" and self.recent:
            k = r.randrange(len(self.recent))
            return dict(e="clear") if r.random() < .08 else dict(e="recent", n=k, files=[self.recent[k]], p=self.saving(), b="")
        if kind == "run" and r.random() < .3:
            return dict(e="run")
        if kind == "load":
            return dict(e="load", file="")
        return self.next()


def rec(w, case):
    """case: {files: [[path, model or None]], seed: text, len: commands}, or with log: [commands]."""
    import random
    import guirec
    w = WinWorker(base=os.path.dirname(w.dir))
    try:
        os.makedirs(w.path("unused"), exist_ok=True)
        evs, fs = [], []
        for path, m in case["files"]:
            with open(w.path(path), "w") as f:
                f.write(guirec.model_xml(m) if m else "<opsa-mef><define-gate/></opsa-mef>")
            fs.append(dict(path=path, doc=[model(dict(m, trees=[dict(t, top="") for t in m["trees"]]))] if m else []))
        s = Session(random.Random(case.get("seed", "")), [p for p, _ in case["files"]], case)
        log = case.get("log")
        full = lambda p: [w.path(x) for x in p]
        saved = set()
        seen = walk = None
        k = 0
        ev = dict(e="start", fs=fs)
        while ev:
            e = ev["e"]
            req, script = dict(c=e), []
            if e in ("add", "edit"):
                script = [dict(ok=ev["ok"], g=ev["g"])]
                ev["g"] = [gesture(g) for g in ev["g"]]
            elif e == "name":
                script = [dict(ok=ev["ok"], v=ev["v"])]
            elif e in ("save", "saveas"):
                script = [dict(files=full(ev["p"]))]
                if e == "save" and seen and not seen["on"]["Save"]:
                    ev = None
            elif e in ("new", "close"):
                script = ([dict(b=ev["b"])] if seen and seen["modified"] else []) + [dict(files=full(ev["p"]))]
            elif e == "open":
                script = [dict(files=full(ev["files"])), dict(files=full(ev["p"]))]
            elif e == "recent":
                script = [dict(files=full(ev["p"]))]
                req["n"] = ev["n"]
            elif e == "load":
                if not ev["file"]:
                    ev["file"] = s.r.choice(sorted(saved)) if saved else ""
                if not ev["file"]:
                    ev = None
                else:
                    req["file"] = w.path(ev["file"])
            if e in ("edit", "remove"):
                req.update(kind=ev["kind"], id=ev["id"])
            if ev:
                a = w.ask(s=script, **req)
                ev["gone"] = a is None
                ev["err"] = a["err"] if a else ""
                ev["dialogs"] = [dialog(d) for d in a["dialogs"]] if a else []
                ev["obs"] = NO_OBS
                evs.append(ev)
                if a is None or a["err"] or "modified" not in a:
                    if a is not None and not a["err"]:
                        ev["err"] = "nothing shown"
                    break
                seen = ev["obs"] = obs(a)
                if e == "close":
                    ev["closed"] = a["closed"]
                if e == "auto":
                    ev["fired"] = a["fired"]
                if e == "load":
                    ev["why"] = a["why"]
                    ev["loaded"] = model(a["loaded"]) if not a["why"] else dict(name="", trees=[], els=[])
                for f in ("out.xml", "out2.xml") + tuple(p for p, m in case["files"] if m):
                    if os.path.exists(w.path(f)):
                        saved.add(f)
                s.see(seen)
                if e == "close" and a["closed"]:
                    break
            if walk is None and s.has and (k == len(log) if log is not None else k == case["len"] and case.get("walk")):
                walk = ["undo"] * s.index + ["redo"] * s.count + ["undo", "redo"] * (s.count > 0) + ["save", "load"]   # all of the history, then a file
            if walk:
                ev = dict(e=walk.pop(0))
                if ev["e"] == "save":
                    ev = dict(e="saveas", p=["out.xml"])
                if ev["e"] == "load":
                    ev["file"] = "out.xml"
                continue
            k += 1
            if walk is not None:
                ev = None
            elif log is not None:
                ev = json.loads(json.dumps(log[k - 1])) if k <= len(log) else None
            else:
                ev = s.next() if k <= case["len"] else None
        return evs
    finally:
        w.close()
