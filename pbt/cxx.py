"""Recording stand-ins for the C/C++ tools, and helpers for the checks of C12-C16."""
import os
import shutil

TOOLS = ["cc", "c++", "gcc", "g++", "clang", "clang++", "ld", "ar", "objdump", "objcopy", "moc", "uic",
         "x-gcc", "x-g++", "x-ld", "x-ar", "x-objdump", "x-objcopy", "mycc", "mycxx", "myar", "myobjcopy", "myobjdump", "mymoc", "myuic", "javac", "myjavac", "dx", "mydx"]


def install_tools(fcc, bindir):
    os.makedirs(bindir, exist_ok=True)
    main = os.path.join(bindir, "fcc")
    shutil.copy(fcc, main)
    os.chmod(main, 0o755)
    for t in TOOLS:
        os.symlink("fcc", os.path.join(bindir, t))
    os.environ["VP_FAKEBIN"] = bindir


def use_tools(log, fake=True):
    """In the child: put the stand-ins first on the path."""
    os.environ["FCC_LOG"] = log
    if fake:
        os.environ["PATH"] = os.environ["VP_FAKEBIN"] + ":" + os.environ["PATH"]


class Rec:
    """One tool call: tool, cwd, args, mode (mm, c, link, ar, moc, uic, objcopy), out, srcs."""

    def __init__(self, fields):
        self.tool, self.cwd, self.args = fields[0], fields[1], fields[2:]
        a = self.args
        self.out = None
        self.inputs = []
        if self.tool.endswith(("moc", "uic")):
            self.mode, self.inputs = self.tool[-3:], a[-1:]
        elif self.tool.endswith("objdump"):
            self.mode, self.inputs = "objdump", a[-1:]
        elif self.tool.endswith("javac"):
            self.mode, self.inputs = "javac", [x for x in a if x.endswith(".java")]
        elif self.tool.endswith("dx"):
            self.mode, self.inputs, self.out = "dx", a[3:], a[2] if len(a) > 2 else None
        elif self.tool.endswith("objcopy"):
            self.mode, self.inputs, self.out = "objcopy", a[-2:-1], a[-1] if a else None
        elif self.tool.endswith("ar"):
            self.mode, self.inputs, self.out = "ar", a[2:], a[1] if len(a) > 1 else None
        else:
            self.mode = "mm" if "-MM" in a else "c" if "-c" in a else "link"
            i = 0
            while i < len(a):
                if a[i] == "-o" and i + 1 < len(a):
                    self.out = a[i + 1]
                    i += 1
                elif not a[i].startswith("-"):
                    self.inputs.append(a[i])
                i += 1

    def opts(self):
        skip = set(self.inputs) | {self.out}
        return [x for x in self.args if x not in skip and x not in ("-c", "-MM", "-o")]

    def __repr__(self):
        return "%s %s" % (self.tool, " ".join(self.args))


def read_log(path):
    """(tool calls, header lists {(cwd, source): (ok, [headers])} with the last one kept)."""
    try:
        with open(path, "rb") as f:
            data = f.read().decode("utf-8", "surrogateescape")
    except OSError:
        data = ""
    calls, heads = [], {}
    for r in data.split("\x1e"):
        if not r:
            continue
        f = r.split("\x1f")
        if f[0] == "H":
            heads[(f[1], f[2])] = (f[3] == "ok", f[4:])
        else:
            calls.append(Rec(f))
    return calls, heads
