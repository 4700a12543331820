"""Recording the editor (events of EditorTrace.tla): a worker around build/inst/bin/guidriver."""
import json, os, shutil, subprocess, tempfile
from xml.sax.saxutils import quoteattr, escape
import build, sc

DRIVER = sc.INST + "/bin/guidriver"


class GuiWorker:
    def __init__(self, exe=None, base=None):
        self.dir = tempfile.mkdtemp(prefix="gui", dir=base or sc.SCRATCH)
        self.p = None

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, text):
        with open(self.path(name), "w") as f:
            f.write(text)
        return self.path(name)

    def ask(self, *fields):
        """The answer to one request, or None when the program ended."""
        if self.p is None:
            env = dict(os.environ, QT_FATAL_CRITICALS="1", LC_ALL="C", QT_QPA_PLATFORM="offscreen", HOME=self.dir,
                       XDG_RUNTIME_DIR=self.dir)
            self.p = subprocess.Popen([DRIVER, build.REPO + "/share/gui.rng"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                      stderr=subprocess.DEVNULL, text=True, cwd=self.dir, env=env)
        enc = lambda s: "".join("%%%02x" % b if b < 33 or b == 37 else chr(b) for b in str(s).encode())
        try:
            self.p.stdin.write("\t".join(enc(f) for f in fields) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            return json.loads(line) if line.endswith("\n") else None
        except BrokenPipeError:
            return None

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
                self.p.wait()
            self.p = None

    def close(self):
        self.stop()
        shutil.rmtree(self.dir, ignore_errors=True)


def label_xml(e):
    x = "<label>%s</label>" % escape(e["label"]) if e.get("label") else ""
    if e.get("attrs"):
        x += "<attributes>%s</attributes>" % "".join(
            "<attribute name=%s value=%s%s/>" % (quoteattr(n), quoteattr(v), " type=%s" % quoteattr(t) if t else "") for n, v, t in e["attrs"])
    return x


def expr_xml(s):
    if s == "none" or s == "":
        return ""
    if s[0] == "c":
        return '<float value="%s"/>' % s[2:]
    return '<exponential>%s</exponential>' % "".join('<float value="%s"/>' % v for v in s[2:].split(","))


def model_xml(m):
    """A model of Editor.tla (els: list of elements, trees: list) as a file."""
    x = '<?xml version="1.0"?>\n<opsa-mef%s>' % (" name=%s" % quoteattr(m["name"]) if m["name"] else "")
    for t in m["trees"]:
        x += '<define-fault-tree name="%s">%s' % (t["name"], label_xml(t))
        for e in m["els"]:
            if e["kind"] == "gate" and e["ft"] == t["name"]:
                args = "".join('<event name="%s"/>' % a for a in e["args"])
                f = args if e["conn"] == "null" else "<%s%s>%s</%s>" % (e["conn"], ' min="%d"' % e["min"] if e["conn"] == "atleast" else "", args, e["conn"])
                x += '<define-gate name="%s">%s%s</define-gate>' % (e["id"], label_xml(e), f)
        x += "</define-fault-tree>"
    x += "<model-data>"
    for e in m["els"]:
        if e["kind"] == "basic":
            x += '<define-basic-event name="%s">%s%s</define-basic-event>' % (e["id"], label_xml(e), expr_xml(e["expr"]))
        elif e["kind"] == "house":
            x += '<define-house-event name="%s">%s<constant value="%s"/></define-house-event>' % (e["id"], label_xml(e), "true" if e["state"] else "false")
    return x + "</model-data></opsa-mef>\n"


def fields(c, els, trees):
    """The request for command c; els: the current elements (id -> element)."""
    op = c["op"]

    def new(e):
        if e["kind"] == "basic":
            return [e["id"], e["label"], e["flavor"], e["expr"]]
        if e["kind"] == "house":
            return [e["id"], e["label"], int(e["state"])]
        return [e["id"], e["label"], e["ft"], ] + [e["conn"], e["min"]] + list(e["args"])
    if op == "label":
        return [op, els[c["id"]]["kind"], c["id"], c["v"]]
    if op == "rename":
        return [op, els[c["id"]]["kind"], c["id"], c["v"], els[c["id"]]["ft"]]
    if op in ("flavor", "expr"):
        return [op, c["id"], c["v"]]
    if op == "state":
        return [op, c["id"], int(c["v"])]
    if op == "formula":
        return [op, c["id"], c["conn"], c["min"]] + list(c["args"])
    if op == "add":
        return [op, c["el"]["kind"]] + new(c["el"])
    if op == "remove":
        return [op, els[c["id"]]["kind"], c["id"], els[c["id"]]["ft"]]
    if op == "type":
        e, old = c["el"], els[c["el"]["id"]]
        return [op, old["kind"], e["id"], e["ft"] or old["ft"], e["kind"]] + new(e)
    if op in ("addft", "rmft", "mname"):
        return [op, c["v"]]
    raise ValueError(op)


def rec(w, case):
    """case: {model, log: [commands], views: bool, attach: {step: sort column}, save: [steps]}"""
    if not isinstance(w, GuiWorker):
        w = GuiWorker(base=os.path.dirname(w.dir))
        try:
            return rec(w, case)
        finally:
            w.close()
    want, evs = case["model"], []

    def add(ev, ans):
        ev["gone"] = ans is None
        if ans is None:
            ev["rc"] = w.p.wait()
            w.stop()
            ev["err"] = ""
        else:
            ev["err"], ev["index"], ev["count"] = ans["err"], ans.get("index", 0), ans.get("count", 0)
            if "model" in ans:
                ev["got"] = {k: ans["model"][k] for k in ("name", "trees", "els")}
            if case.get("views") and "views" in ans:
                ev["views"], ev["diagrams"] = ans["views"], ans["diagrams"]
                for v in ev["views"]:   # "^(a|b)$" or nothing
                    f = v.pop("filter", "")
                    v["all"], v["keep"] = not f, f[2:-2].split("|") if f else []
            if "saved" in ans:
                ev["saved"] = ans["saved"]
        evs.append(ev)
        return ans

    ans = add({"e": "load", "want": want}, w.ask("load", w.write("m.xml", model_xml(want))))
    for n, c in enumerate(case["log"] + [None]):
        for a in [a for a in case.get("attach", []) if a[0] == n]:
            if ans and not ans["err"]:
                ans = add({"e": "attach"}, w.ask("attach", a[1], "^(%s)$" % "|".join(a[2]) if len(a) > 2 else ""))
        if n in case.get("save", []) and ans and not ans["err"]:
            ans = add({"e": "save"}, w.ask("save", w.path("saved.xml")))
        if ans is None or ans["err"] or c is None:
            break
        if c["op"] in ("undo", "redo"):
            ans = add({"e": c["op"]}, w.ask(c["op"]))
            continue
        cs = c["cs"] if c["op"] == "macro" else [c]
        if c["op"] == "macro":
            w.ask("begin")
        for x in cs:
            els = {e["id"]: e for e in ans["model"]["els"]}
            ans = w.ask(*fields(x, els, None))
            if ans is None or ans["err"]:
                break
        if c["op"] == "macro" and ans and not ans["err"]:
            ans = w.ask("end")
        add({"e": "do", "c": c}, ans)
    return evs
