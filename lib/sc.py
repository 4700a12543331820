"""Running the scram front end: fork-server workers, report parsing."""
import os, shutil, signal, subprocess, tempfile, xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INST = VERIF + "/build/inst"
SCRAM = INST + "/bin/scram"
SCRAMD = INST + "/bin/scramd"
API = INST + "/bin/scramapi"

WARM_MODEL = ('<?xml version="1.0"?>\n<opsa-mef><define-fault-tree name="F"><define-gate name="g"><and>'
              '<event name="a"/><event name="b"/></and></define-gate><define-basic-event name="a"/>'
              '<define-basic-event name="b"/></define-fault-tree></opsa-mef>\n')
SCRATCH = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"


class Worker:
    """One fork server with a private scratch directory."""

    def __init__(self, exe=None, base=None):
        self.dir = tempfile.mkdtemp(prefix="scv", dir=base or SCRATCH)
        self.exe = exe or SCRAMD
        self.p = None
        self.plain = False

    def start(self):
        warm = self.dir + "/warm.xml"
        proj = self.dir + "/warm_project.xml"
        open(warm, "w").write(WARM_MODEL)
        open(proj, "w").write('<?xml version="1.0"?>\n<scram><model><file>%s</file></model><options/></scram>\n' % warm)
        self.p = subprocess.Popen([self.exe, "--project", proj, "-o", self.dir + "/warm.out"], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=self.dir)

    def run(self, args, timeout=20):
        """Returns (rc, stderr)."""
        if self.plain:
            return PlainWorker.run(self, args, timeout)
        if self.p is None or self.p.poll() is not None:
            self.start()
        o, e = self.dir + "/stdout", self.dir + "/stderr"
        try:
            self.p.stdin.write("\x1f".join([self.dir, o, e, str(timeout)] + [str(a) for a in args]) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = ""
        if not line:  # the warm-up run ended the server: the plain program serves from now on
            self.plain = True
            return PlainWorker.run(self, args, timeout)
        return int(line), open(e, errors="replace").read()

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, text):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)
        return p

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class PlainWorker(Worker):
    """The same interface, running the plain scram program (used to confirm what failed)."""

    def run(self, args, timeout=60):
        with open(self.dir + "/stdout", "w") as o, open(self.dir + "/stderr", "w") as e:
            try:
                cmd = [API] + [str(a) for a in args[1:]] if args and args[0] == "@api" else [SCRAM] + [str(a) for a in args]
                r = subprocess.run(cmd, stdout=o, stderr=e, stdin=subprocess.DEVNULL,
                                   cwd=self.dir, timeout=timeout)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = -14
        return rc, open(self.dir + "/stderr", errors="replace").read()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def parse_report(path):
    return ET.parse(path).getroot()


def products(sop, index):
    """List of (pos list, neg list) of variable numbers; index maps id -> number."""
    out = []
    for p in sop.findall("product"):
        pos, neg = [], []
        for c in p:
            tgt = neg if c.tag == "not" else pos
            b = c[0] if c.tag == "not" else c
            tgt.append(index[b.get("name")])
        out.append((pos, neg))
    return out
