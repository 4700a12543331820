"""Out-of-tree, content-addressed build of the code under test.

Everything is compiled from /repo's current working tree; an object is reused only when the
SHA-256 of its source, its flags and every non-system header it included is unchanged, so neither
time stamps nor /repo/_build matter.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(VERIF, "build")
OBJ = os.path.join(B, "obj")
NPROC = os.cpu_count() or 4

BASE = ["-std=c++17", "-fPIC", "-O1", "-w", "-fno-new-ttp-matching",
        "-include", "boost/current_function.hpp",
        "-DBOOST_THROW_EXCEPTION_CURRENT_FUNCTION=BOOST_CURRENT_FUNCTION",
        "-DBOOST_FILESYSTEM_DYN_LINK", "-DBOOST_PROGRAM_OPTIONS_DYN_LINK", "-DBOOST_RANDOM_DYN_LINK",
        "-DBOOST_SYSTEM_DYN_LINK", "-DBOOST_ATOMIC_DYN_LINK",
        '-DPROJECT_SOURCE_DIR="%s"' % REPO]
INC = ["-I%s/gen/src" % B, "-I%s/src" % REPO, "-I%s" % REPO, "-I%s/gen" % B, "-isystem", "/usr/include/libxml2"]
QT = "/usr/include/x86_64-linux-gnu/qt5"
QTINC = ["-I%s/gui" % REPO, "-isystem", QT, "-isystem", QT + "/QtCore", "-isystem", QT + "/QtGui",
         "-isystem", QT + "/QtWidgets", "-isystem", "/usr/lib/x86_64-linux-gnu/qt5/mkspecs/linux-g++",
         "-DQT_CORE_LIB", "-DQT_GUI_LIB", "-DQT_WIDGETS_LIB", "-DQT_NO_DEBUG"]
LIBS = ["-lboost_program_options", "-lboost_filesystem", "-lboost_system", "-lboost_random",
        "-lxml2", "-ldl", "-lpthread"]


class BuildError(Exception):
    pass


def sha(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


def parse_dep(path):
    txt = open(path).read().replace("\\\n", " ")
    txt = txt.split(":", 1)[1]
    return [p for p in txt.split() if not p.startswith("/usr/")]


def compile_one(src, name, flags):
    """Compile src into OBJ/name.o unless an up-to-date object exists.  Returns (obj, log or None)."""
    obj = os.path.join(OBJ, name + ".o")
    meta = obj + ".json"
    try:
        m = json.load(open(meta))
        if m["flags"] == flags and m["src"] == src and os.path.exists(obj) and \
                all(os.path.exists(d) and sha(d) == h for d, h in m["deps"].items()):
            return obj, None
    except (OSError, ValueError, KeyError):
        pass
    dep = obj + ".d"
    for p in (meta,):
        if os.path.exists(p):
            os.remove(p)
    r = subprocess.run(["g++"] + flags + ["-MD", "-MF", dep, "-c", src, "-o", obj],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("compilation of %s failed:\n%s" % (src, r.stdout[-3000:]))
    json.dump({"flags": flags, "src": src, "deps": {d: sha(d) for d in parse_dep(dep)}}, open(meta, "w"))
    os.remove(dep)
    return obj, "compiled"


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def gen_version():
    cm = open(REPO + "/CMakeLists.txt").read()
    m = re.search(r"project\(\s*SCRAM[^)]*VERSION\s+([0-9]+)\.([0-9]+)\.([0-9]+)", cm)
    ver = m.groups() if m else ("0", "16", "2")
    t = open(REPO + "/src/version.h.in").read()
    for k, v in (("SCRAM_VERSION_MAJOR", ver[0]), ("SCRAM_VERSION_MINOR", ver[1]),
                 ("SCRAM_VERSION_PATCH", ver[2]), ("SCRAM_VERSION", ".".join(ver)), ("SCRAM_GIT_REVISION", "")):
        t = t.replace("@%s@" % k, v)
    write_if_changed(B + "/gen/src/version.h", t)


def core_sources():
    out = []
    for d, _, fs in os.walk(REPO + "/src"):
        for f in fs:
            if f.endswith(".cc") and not (d == REPO + "/src" and f == "scram.cc"):
                out.append(os.path.join(d, f))
    return sorted(out, key=lambda p: (-os.path.getsize(p) if not p.endswith("initializer.cc") else -10**9, p))


def oname(src):
    return src.replace(REPO + "/", "").replace(VERIF + "/", "verif_").replace("/", "__")


def link(out, cmd, inputs):
    key = hashlib.sha256((json.dumps(cmd) + "".join(sha(i) for i in inputs)).encode()).hexdigest()
    kf = out + ".key"
    if os.path.exists(out) and os.path.exists(kf) and open(kf).read() == key:
        return
    os.makedirs(os.path.dirname(out), exist_ok=True)
    r = subprocess.run(cmd + ([] if cmd[0] == "objcopy" else ["-o"]) + [out + ".tmp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("link of %s failed:\n%s" % (out, r.stdout[-3000:]))
    os.rename(out + ".tmp", out)
    with open(kf, "w") as f:
        f.write(key)


QTWIN = [x for m in ("QtSvg", "QtOpenGL", "QtPrintSupport", "QtConcurrent") for x in ("-isystem", QT + "/" + m)]
GUI_SRC = ["diagram.cpp", "model.cpp", "elementcontainermodel.cpp", "modeltree.cpp"]
GUI_MOC = ["diagram.h", "model.h", "elementcontainermodel.h", "modeltree.h"]


def build(targets=("scram", "scramd")):
    """Build the wanted targets, under a lock.  Targets: scram, scramd, gui, guiwin, java."""
    os.makedirs(OBJ, exist_ok=True)
    with open(B + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(set(targets))


def _build(targets):
    inst = B + "/inst"
    jobs = []
    if targets & {"scram", "scramd", "gui", "guiwin"}:
        gen_version()
        for s in core_sources():
            jobs.append((s, oname(s), BASE + INC))
    extra = {}
    if "scram" in targets:
        extra["scram"] = (REPO + "/src/scram.cc", "scram_main", BASE + INC)
    if "scramd" in targets:
        extra["scram"] = (REPO + "/src/scram.cc", "scram_main", BASE + INC)
        extra["scramd"] = (VERIF + "/harness/forkserver.cc", "scramd_fork", BASE + INC)
        extra["apimain"] = (VERIF + "/harness/apimain.cc", "apimain", BASE + INC)
        extra["apiplain"] = (VERIF + "/harness/apiplain.cc", "apiplain", BASE + INC)
    gui, win = [], []
    if targets & {"gui", "guiwin"}:
        moc = shutil.which("moc") or "/usr/lib/qt5/bin/moc"
        uic = shutil.which("uic") or "/usr/lib/qt5/bin/uic"
        os.makedirs(B + "/gen/gui", exist_ok=True)
        src, hdr = GUI_SRC, GUI_MOC
        flags = BASE + QTINC + INC
        if "guiwin" in targets:   # all of the editor
            flags = BASE + QTINC + QTWIN + ["-I" + B + "/gen/gui"] + INC
            src = sorted(os.path.basename(f) for f in glob.glob(REPO + "/gui/*.cpp") if not f.endswith("/main.cpp"))
            hdr = sorted(os.path.basename(f) for f in glob.glob(REPO + "/gui/*.h") if "Q_OBJECT" in open(f).read())
            for u in sorted(glob.glob(REPO + "/gui/*.ui")):
                r = subprocess.run([uic, u], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                if r.returncode:
                    raise BuildError("uic %s: %s" % (u, r.stderr))
                write_if_changed(B + "/gen/gui/ui_%s.h" % os.path.basename(u)[:-3], r.stdout)
        for h in hdr:
            r = subprocess.run([moc] + [f for f in QTINC if f.startswith("-D")] +
                               ["-I" + REPO + "/gui", "-I" + REPO, REPO + "/gui/" + h],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.returncode:
                raise BuildError("moc %s: %s" % (h, r.stderr))
            write_if_changed(B + "/gen/gui/moc_%s.cpp" % h[:-2], r.stdout)
            small = h in GUI_MOC
            job = (B + "/gen/gui/moc_%s.cpp" % h[:-2], "moc_" + h, BASE + QTINC + INC if small else flags)
            (gui if small else win).append(job)
        for s in src:
            small = s in GUI_SRC
            (gui if small else win).append((REPO + "/gui/" + s, "gui__" + s, BASE + QTINC + INC if small else flags))
        if "guiwin" in targets:
            win.append((VERIF + "/harness/guiwindow.cc", "guiwindow", flags))
        if "gui" in targets:
            gui.append((VERIF + "/harness/guidriver.cc", "guidriver", BASE + QTINC + INC))
    ncore = len(jobs)
    alljobs = jobs + list(extra.values()) + gui + win
    with ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(lambda j: compile_one(*j), alljobs))
    core = [r[0] for r in res[:ncore]]
    rest = {j[1]: r[0] for j, r in zip(alljobs, res)}
    if core:
        lib = B + "/inst/lib/libscram.so"
        link(lib, ["g++", "-shared", "-fPIC"] + core + LIBS, core)
        sd = inst + "/share/scram"
        os.makedirs(sd, exist_ok=True)
        for f in os.listdir(REPO + "/share"):
            if f.endswith(".rng"):
                write_if_changed(sd + "/" + f, open(REPO + "/share/" + f).read())
        rp = ["-L" + inst + "/lib", "-lscram", "-Wl,-rpath," + inst + "/lib"]
        if "scram" in targets:
            link(inst + "/bin/scram", ["g++", rest["scram_main"]] + rp + LIBS, [rest["scram_main"]])
        if "scramd" in targets:
            front = OBJ + "/scramd_front.o"
            link(front, ["objcopy", "--redefine-sym", "main=scram_main",
                         "--redefine-sym", "xmlCleanupParser=scramd_no_cleanup", rest["scram_main"]],
                 [rest["scram_main"]])
            o = [front, rest["scramd_fork"], rest["apimain"]]
            link(inst + "/bin/scramd", ["g++"] + o + rp + LIBS, o)
            o = [rest["apimain"], rest["apiplain"]]
            link(inst + "/bin/scramapi", ["g++"] + o + rp + LIBS, o)
        if "guiwin" in targets:
            o = [rest[j[1]] for j in gui + win if j[1] != "guidriver"]
            link(inst + "/bin/guiwindow", ["g++"] + o + rp + ["-lQt5" + x for x in
                 ("Concurrent", "PrintSupport", "OpenGL", "Svg", "Widgets", "Gui", "Core")] + LIBS, o)
        if "gui" in targets:
            o = [rest[j[1]] for j in gui]
            link(inst + "/bin/guidriver", ["g++"] + o + rp + ["-lQt5Widgets", "-lQt5Gui", "-lQt5Core"] + LIBS, o)
    if "java" in targets:
        jd = B + "/java"
        src = sorted(glob.glob(VERIF + "/specs/java/*.java"))
        key = hashlib.sha256("".join(sha(s) for s in src).encode()).hexdigest()
        kf = jd + "/key"
        if not (os.path.exists(kf) and open(kf).read() == key):
            shutil.rmtree(jd, ignore_errors=True)
            os.makedirs(jd)
            r = subprocess.run(["javac", "-nowarn", "-cp", "/opt/veriftools/tla/tla2tools.jar", "-d", jd] + src,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError("javac: " + r.stdout)
            open(kf, "w").write(key)
    return sum(1 for r in res if r[1])


if __name__ == "__main__":
    try:
        n = build(tuple(sys.argv[1:]) or ("scram", "scramd", "java", "gui", "guiwin"))
        print("compiled", n)
    except BuildError as e:
        print(e)
        sys.exit(3)
