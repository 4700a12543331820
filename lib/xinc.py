"""A file in pieces: elements moved into files of their own and included with XInclude."""
import os
import xml.etree.ElementTree as ET

XI = "http://www.w3.org/2001/XInclude"
HEAD = '<?xml version="1.0"?>\n'


def split(w, texts, rnd, rate=.3, lost="", tag="inc"):
    """texts: [(name, text)].  Moves elements (of any depth, in turn split) of some of the files into included files, written
    by the worker w.  With lost = "missing", one of the included files is not written, with "cycle", one includes itself;
    None if nothing has been moved.  The names
    are found relative to the including file."""
    made = []

    def text_of(x):
        tail, x.tail = x.tail, None
        s = HEAD + ET.tostring(x, encoding="unicode") + "\n"
        x.tail = tail
        return s

    def move(x, folder, depth):
        """Replace some of the elements under x by inclusions; x lies in a file of folder."""
        for i, y in enumerate(list(x)):
            if y.tag.startswith("{"):
                continue
            if depth < 3 and len(made) < 8 and rnd.random() < rate / (1 + 2 * depth):
                sub = rnd.choice(["", "", "part/", "deep/er/"])
                name = "%s%s%d.%s" % (sub, tag, len(made), rnd.choice(["xml", "xml", "part"]))
                made.append(None)
                at = len(made) - 1
                move(y, os.path.join(folder, sub), depth + 1)
                made[at] = (os.path.join(folder, name), text_of(y))
                z = ET.Element("{%s}include" % XI, href=name)
                z.tail = y.tail
                x[i] = z
            else:
                move(y, folder, depth + (1 if rnd.random() < .5 else 0))
    out = []
    for name, text in texts:
        n = len(made)
        root = ET.fromstring(text)
        move(root, os.path.dirname(name), 0)
        out.append((name, text if len(made) == n else text_of(root)))
    if lost:
        if not made:
            return None
        at = rnd.randrange(len(made))
        if lost == "missing":
            if os.path.exists(w.path(made[at][0])):
                os.unlink(w.path(made[at][0]))
            made.pop(at)
        else:
            x = ET.fromstring(made[at][1])
            x.append(ET.Element("{%s}include" % XI, href=os.path.basename(made[at][0])))
            made[at] = (made[at][0], text_of(x))
    for name, text in made:
        w.write(name, text)
    return out
