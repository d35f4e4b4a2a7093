"""C16: nested scripts."""
import json
import os
import sys

from hypothesis import strategies as st

from .. import cxx, fresh
from .. import project as pj
from ..engine import CaseDir, Info, Violation, chance, in_child, need_ok, outcome

ID = "C16"
QUICK, THOROUGH = 4800, 60000
FAKE_TOOLS = True
RULE = """A case is a tree of up to nine build scripts and some further ones found by pattern, in nested, parent and oddly named directories, each with a
random list of actions: execute another script (relative, dotted, absolute), execute recursively below a directory with a pattern and a hidden
name, include a library (registered by the user, by the system, or by path, cyclically too), declare a C module with sources and include
paths, or fail (exception, syntax error, missing script, unregistered library, licant.error). Scripts import licant in different ways and define
names of their own. The main script is started by relative or absolute
path from its own or another directory. The trace of (script, current script directory) before and after every nested call must be that of a reference
interpreter, with recursive matches in any order; the compile commands must name the sources and include paths of the declaring scripts'
directories; a failing script must end the run with non-zero status and nothing more run. Non-trivial: at least three scripts run, nested two
deep."""

DIRS = ["", "a", "a/b", "a/b/c", "d", "d/skip", "d/skip/e", "../out", "../out/in", "sp ace", "sp+ace", "build"]
LEAF_DIRS = [".hid", "a/.hid/e", "a", "a/b", "a/b/c", "d", "d/skip", "d/skip/e", "d/xskipx/f", "../out", "../out/in", "build", ""]
LEAF_NAMES = ["x.leaf.py", "y.leaf.py", "leaf.txt", "z.leaf.py.bak", "leaf", "n.l", "x.leaf.pyc", ".x.leaf.py", ".leaf"]
PATTERNS = [".leaf.py", "leaf", "x.leaf", ".leaf.pyc", "nomatch", ".leaf.py.bak"]
STAR = "from licant import *"
# what scripts begin with: their names are their own business
PROLOGUES = [None, None, None, STAR, STAR, "from os import *", "os, sys, open, default_core, scriptq, path, self, stack = range(8)",
             "def curdir(*a):\n    raise ValueError\nlast = execute = source = ScriptQueue = join = exec = curdir", "def licant_(): pass\ndel licant_"]
HIDES = [None, None, "skip", "build", "HIDE", "b/c", "e", "/xskipx"]


@st.composite
def cases(draw):
    n = draw(st.integers(2, 9))
    fail = chance(draw, 4)
    scripts = []
    nlib = draw(st.integers(0, 3))
    late = max(1, 2 * n // 3)       # later ones do not execute recursively

    @st.composite
    def action(draw, i, hi):
        kinds = ["exec"] * 4 + ["module"] + (["inc"] * 2 if nlib else []) + (["rec"] * 2 if i < late else [])
        k = draw(st.sampled_from(kinds))
        if k == "exec":
            lo = i + 1
            if lo >= hi:
                return ["log"]
            return ["exec", draw(st.integers(lo, hi - 1)), draw(st.sampled_from(["plain", "plain", "dot", "abs", "updown"]))]
        if k == "inc":
            return ["inc", draw(st.integers(0, nlib - 1)), draw(st.sampled_from([False, False, True, "alt"]))]
        if k == "rec":
            return ["rec", draw(st.sampled_from(["", ".", "a", "a/b", "d", "../out", "d/skip", "build"])), draw(st.sampled_from(PATTERNS)),
                    draw(st.sampled_from(HIDES)), draw(st.sampled_from(["plain", "plain", "dot", "abs"]))]
        return ["module"]
    for i in range(n):
        acts = draw(st.lists(action(i, n), min_size=1 if i == 0 else 0, max_size=3))
        scripts.append({"dir": draw(st.sampled_from(DIRS)) if i else "", "name": draw(st.sampled_from(["s%d.py", "s%d.g.py", "s %d", "s%d"])) % i, "acts": acts})
    libs = []
    for i in range(nlib):
        acts = draw(st.lists(st.sampled_from([["inc", k, p] for k in range(nlib) for p in (False, True, "alt")] + [["module"], ["log"]] +
                                             [["exec", k, "plain"] for k in range(late, n)]), max_size=2))
        libs.append({"dir": draw(st.sampled_from(DIRS)), "name": "lib%d.g.py" % i, "acts": acts,
                     "reg": draw(st.sampled_from(["user", "system", "both", "user"]))})
    leaves, seen = [], set()
    for _ in range(draw(st.integers(0, 6))):
        d, nm = draw(st.sampled_from(LEAF_DIRS)), draw(st.sampled_from(LEAF_NAMES))
        if (d, nm) not in seen:
            seen.add((d, nm))
            acts = draw(st.lists(st.sampled_from([["log"], ["module"]] + [["exec", k, "plain"] for k in range(late, n)]), max_size=1))
            leaves.append({"dir": d, "name": nm, "acts": acts})
    case = {"scripts": scripts, "libs": libs, "leaves": leaves, "start": draw(st.sampled_from(["rel", "rel", "abs", "other", "otherabs"])), "fail": None,
            "rootname": draw(st.sampled_from(["proj", "proj", "skip", "build", "e"])), "j": 2}
    for s in scripts + libs + leaves:
        s["pro"] = draw(st.sampled_from(PROLOGUES))
    if any(a[0] == "module" for s in scripts + libs + leaves for a in s["acts"]):
        for s in scripts + libs:
            s["dir"] = s["dir"].replace(" ", "+")      # the compiler's command line does not quote
    if fail:
        where = draw(st.sampled_from(["scripts", "scripts", "libs", "leaves"]))
        if case[where]:
            case["fail"] = [where, draw(st.integers(0, len(case[where]) - 1)),
                            draw(st.sampled_from(["raise", "syntax", "missing", "noinc", "error", "assert", "nomodule", "badoption"]))]
    return case


def size(case):
    try:
        return len(flat(Model(case, "/r").run()[0]))
    except Big:
        return 10 ** 6


def strategy(tier):
    return cases().filter(lambda c: size(c) < 200)


class Big(Exception):
    pass


class Fail(Exception):
    pass


def flat(t):
    out = []
    for k in t["kids"]:
        out += flat(k)
    return out + [t["id"]]


class Model:
    """Reference interpreter: the tree of runs; a run is {id, dir, kids, rec}; rec marks calls whose kids come in any order."""

    def __init__(self, case, root):
        self.c, self.root = case, root
        self.count = 0
        self.included = set()
        self.modules = []
        self.failed = False
        self.unsure = False          # a failure below a recursive call: what ran before it is not determined

    def item(self, where, i):
        if where == "alts":           # other scripts by which a library may be included
            l = self.c["libs"][i]
            return {"dir": l["dir"], "name": "alt%d.g.py" % i, "acts": []}
        return self.c[where][i]

    def dirof(self, where, i):
        return os.path.normpath(os.path.join(self.root, self.item(where, i)["dir"]))

    def path(self, where, i):
        return os.path.join(self.dirof(where, i), self.item(where, i)["name"])

    def run(self, seen=None):
        """seen: the observed tree; it says in which order the matches of a recursive call ran, which decides where a library runs first."""
        t = {"id": "top", "dir": "", "kids": [], "seen": seen}
        try:
            self.script("scripts", 0, t)
        except Fail:
            self.failed = True
        return t, self.failed

    def script(self, where, i, parent):
        self.count += 1
        if self.count > 400:
            raise Big()
        s = self.item(where, i)
        bad = self.c["fail"] and self.c["fail"][:2] == [where, i] and self.c["fail"][2]
        if bad == "syntax":
            raise Fail()
        me = {"id": "%s%d" % (where, i), "dir": self.dirof(where, i), "kids": [], "rec": []}
        there = ((parent["seen"] or {}).get("kids") or [])[len(parent["kids"]):][:1]
        me["seen"] = there[0] if there and there[0]["id"] == me["id"] else None
        parent["kids"].append(me)
        half = len(s["acts"]) // 2
        for n, a in enumerate(s["acts"]):
            if bad and n == half:
                raise Fail()
            self.action(a, me)
        if bad:
            raise Fail()

    def matches(self, me, a):
        top = os.path.normpath(os.path.join(self.root, a[1]))
        out = []
        for k, l in enumerate(self.c["leaves"]):
            d = self.dirof("leaves", k)
            if d != top and not d.startswith(top + "/"):
                continue
            if a[2] not in l["name"]:
                continue
            rel = os.path.relpath(d, top)
            if a[3] is not None and a[3] in ("/" + rel if rel != "." else "."):
                continue
            out.append(k)
        return out

    def action(self, a, me):
        if a[0] == "exec":
            self.script("scripts", a[1], me)
        elif a[0] == "inc":
            if a[1] not in self.included:
                self.included.add(a[1])
                self.script("alts" if a[2] == "alt" else "libs", a[1], me)
        elif a[0] == "rec":
            ks = self.matches(me, a)
            lo = len(me["kids"])
            order = [k["id"] for k in (me["seen"] or {"kids": []})["kids"][lo:lo + len(ks)]]
            if sorted(order) == sorted("leaves%d" % k for k in ks):
                ks.sort(key=lambda k: order.index("leaves%d" % k))
            for k in ks:
                try:
                    self.script("leaves", k, me)
                except Fail:
                    self.unsure = True
                    raise
            me["rec"].append([lo, len(me["kids"])])
        elif a[0] == "module":
            self.modules.append((me["id"], me["dir"]))


def text(case, root, where, i, named):
    m = Model(case, root)
    s = m.item(where, i)
    ident = "%s%d" % (where, i)
    bad = case["fail"] and case["fail"][:2] == [where, i] and case["fail"][2]
    pro = s.get("pro") or ""
    lic = STAR + "\n" if pro == STAR else "licant."      # again, as nested scripts share their names
    out = ["import licant, pbt.checks.c16 as T", "T.note('enter', %r)" % ident] + [pro] * bool(pro)
    if bad == "syntax":
        out.insert(0, "def def def")

    def spelled(path, how):
        rel = os.path.relpath(path, m.dirof(where, i))
        if how == "abs":
            return path
        if path.endswith(".py") or " " in path:
            named.add(rel)
        if how == "dot":
            return "./" + rel
        if how == "updown":
            return "../%s/%s" % (os.path.basename(m.dirof(where, i)), rel)
        return rel

    def fail():
        out.append({"raise": "raise ValueError('planted')", "missing": "licant.execute('no_such_script.py')", "noinc": "licant.include('no_such_library')",
                    "error": lic + "error('planted')", "assert": "assert False", "nomodule": "licant.cxx_application('bad_product', mdepends=['no_such_module'])",
                    "badoption": "licant.module('bad', sources=[])\nlicant.cxx_application('bad_product', sorces=['x.c'])", "syntax": ""}[bad])
    half = len(s["acts"]) // 2
    for n, a in enumerate(s["acts"]):
        if bad and n == half:
            fail()
        if a[0] == "exec":
            out.append("licant.execute(%r)" % spelled(m.path("scripts", a[1]), a[2]))
        elif a[0] == "inc":
            if a[2]:
                out.append("%sinclude('lib%d', path=%r)" % (lic, a[1], spelled(m.path("alts" if a[2] == "alt" else "libs", a[1]), "plain")))
            else:
                out.append("%sinclude('lib%d')" % (lic, a[1]))
        elif a[0] == "rec":
            top = os.path.normpath(os.path.join(root, a[1]))
            out.append("licant.execute_recursive(%r, %r%s)" % (spelled(top, a[4]), a[2], "" if a[3] is None else ", hide=%r" % a[3]))
        elif a[0] == "module":
            out.append("T.module(%r)" % ident)
        out.append("T.note('back', %r)" % ident)
    if bad and not s["acts"]:
        fail()
    if bad and s["acts"] and half >= len(s["acts"]):
        fail()
    out.append("T.note('leave', %r)" % ident)
    return "\n".join(out) + "\n"


_trace = []
_names = []


def note(what, ident):
    import licant
    _trace.append([what, ident, os.path.abspath(licant.directory() or ".")])


def module(ident):
    """Declare a module with a source and an include path in the directory of the running script."""
    import licant
    name = "m%d_%s" % (len(_names), ident)
    _names.append(name)
    licant.module(name, sources=["src_%s.c" % ident], include_paths=["inc_" + ident])


def run(case):
    with CaseDir() as base:
        root = os.path.join(base, "w", case["rootname"])
        for d in DIRS + LEAF_DIRS:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        cwd = root if case["start"] in ("rel", "abs") else base
        m = Model(case, root)
        named = set()
        for where in ("scripts", "libs", "leaves", "alts"):
            for i in range(len(case["libs" if where == "alts" else where])):
                with open(m.path(where, i), "w") as f:
                    f.write(text(case, root, where, i, named))
                with open(os.path.join(m.dirof(where, i), "src_%s%d.c" % (where, i)), "w") as f:
                    f.write("int x;\n")
        # files that the relative paths would lead to if they were taken from elsewhere
        for rel in sorted(named):
            for top in sorted({root, cwd, os.path.join(root, "a")}):
                f = os.path.normpath(os.path.join(top, rel))
                if not os.path.exists(f) and os.path.isdir(os.path.dirname(f)) and f.startswith(base + "/"):
                    with open(f, "w") as h:
                        h.write("import pbt.checks.c16 as T\nT.note('enter', 'decoy')\nT.note('leave', 'decoy')\n")
        user, system = {}, {}
        for i, l in enumerate(case["libs"]):
            if l["reg"] in ("user", "both"):
                user["lib%d" % i] = m.path("libs", i)
            if l["reg"] == "system":
                system["lib%d" % i] = m.path("libs", i)
            if l["reg"] == "both":
                system["lib%d" % i] = "/nonexistent/library.py"
        home = os.path.join(base, "home")
        os.mkdir(home)
        with open(os.path.join(home, ".licant"), "w") as f:
            json.dump(user, f)
        with open(os.path.join(base, "system"), "w") as f:
            json.dump(system, f)
        main = m.path("scripts", 0)
        argv0 = main if case["start"] in ("abs", "otherabs") else os.path.relpath(main, cwd)
        log = os.path.join(base, "log")

        def body():
            os.environ["HOME"] = home
            cxx.use_tools(log)
            sys.argv = [argv0]
            fresh.forget()           # licant remembers the name of the main script when it is imported
            fresh.redirect("/var/lib/licant", os.path.join(base, "system"))
            import licant
            with open(argv0) as f:
                code = f.read()
            r = outcome(lambda: exec(compile(code, argv0, "exec"), {"__name__": "__main__", "__file__": argv0}))
            end = os.path.abspath(licant.directory() or ".")
            b = None
            if r["end"] == "ok" and _names:
                def product():
                    licant.cxx_objects("all_of_it", mdepends=list(_names), builddir=os.path.join(base, "bld"))
                    licant.ex(default="all_of_it", argv=["-j2"], core=licant.default_core())
                b = outcome(product)
            return {"r": r, "trace": _trace, "names": _names, "end": end, "b": b}
        ch = in_child(body, cwd, timeout=40)
        v = need_ok(ch, "scripts")
        calls = cxx.read_log(log)[0]
        said = ch.out[-700:].decode("utf-8", "replace")
    # the tree that ran
    top = {"id": "top", "dir": "", "kids": [], "rec": []}
    stack = [top]
    for what, ident, d in v["trace"]:
        if what == "enter":
            me = {"id": ident, "dir": d, "kids": []}
            stack[-1]["kids"].append(me)
            stack.append(me)
        elif what == "leave" and stack[-1]["id"] == ident:
            stack.pop()
    want, failed = m.run(top)
    r = v["r"]
    if failed:
        # an exception in the main script itself is Python's business: it ends the process with non-zero status too
        if not (r["end"] == "exit" and r["code"] != 0 or r["end"] == "exc"):
            raise Violation("a script fails, but the run ends with %s\n%s" % (r, said))
    elif r["end"] != "ok":
        raise Violation("the scripts failed: %s\n%s" % (r, said))
    stack = [top]
    kids = {id(top): iter(top["kids"])}
    for what, ident, d in v["trace"]:
        if what == "enter":
            me = next(kids[id(stack[-1])])
            kids[id(me)] = iter(me["kids"])
            stack.append(me)
        else:
            if stack[-1]["id"] != ident:
                raise Violation("script %s goes on while %s is running" % (ident, stack[-1]["id"]))
            if d != stack[-1]["dir"]:
                raise Violation("the script directory of %s was %s and is %s after a nested call" % (ident, stack[-1]["dir"], d))
            if what == "leave":
                stack.pop()
    if m.unsure:
        pass          # which matches ran before the failing one is not determined
    else:
        compare(want, top)
    if failed and top["kids"] and stack == [top]:
        raise Violation("the main script went on to its end after a failure")
    if not failed:
        if v["end"] != os.path.dirname(main):
            raise Violation("the script directory is %s at the end, was %s" % (v["end"], os.path.dirname(main)))
        if v["b"] is not None:
            if not pj.succeeded(v["b"]):
                raise Violation("the declared modules do not build: %s\n%s" % (v["b"], said))
            check_modules(v, want, calls)
    n = len(flat(top)) - 1
    return Info(n >= 3 and depth(top) >= 3, case["fail"] and (m.unsure and "fails in a recursive call" or failed and "fails" or "failure not reached"),
                "depth=%d" % min(depth(top), 5), any(a[0] == "rec" for s in case["scripts"] for a in s["acts"]) and "recursive",
                m.included and "libraries", len(v["names"]) > 0 and "modules", case["start"])


def depth(t):
    return 1 + max([depth(k) for k in t["kids"]] or [-1 + 0])


def canon(t):
    """Comparable form; the kids of a recursive call sorted."""
    kids = [canon(k) for k in t["kids"]]
    for lo, hi in t.get("rec", []):
        kids[lo:hi] = sorted(kids[lo:hi])
    return [t["id"], t["dir"], kids]


def compare(want, got):
    def mark(w, g):
        g["rec"] = w.get("rec", [])
    # give the observed tree the expected one's marks, pairing the kids of recursive calls by name
    def go(w, g):
        mark(w, g)
        if len(w["kids"]) != len(g["kids"]):
            raise Violation("below %s ran %s, expected %s" % (w["id"], [k["id"] for k in g["kids"]], [k["id"] for k in w["kids"]]))
        for lo, hi in w.get("rec", []):
            w["kids"][lo:hi] = sorted(w["kids"][lo:hi], key=lambda k: k["id"])
            g["kids"][lo:hi] = sorted(g["kids"][lo:hi], key=lambda k: k["id"])
        for a, b in zip(w["kids"], g["kids"]):
            if a["id"] != b["id"]:
                raise Violation("below %s ran %s, expected %s" % (w["id"], [k["id"] for k in g["kids"]], [k["id"] for k in w["kids"]]))
            if a["dir"] != b["dir"]:
                raise Violation("script %s ran with directory %s, expected %s" % (a["id"], b["dir"], a["dir"]))
            go(a, b)
    go(want, got)


def check_modules(v, want, calls):
    dirs = {}

    def go(t):
        dirs[t["id"]] = t["dir"]
        for k in t["kids"]:
            go(k)
    go(want)
    srcs = {os.path.normpath(os.path.join(c.cwd, c.inputs[0])): c for c in calls if c.mode == "c" and c.inputs}
    for name in v["names"]:
        ident = name.split("_", 1)[1]
        p = os.path.join(dirs[ident], "src_%s.c" % ident)
        if p not in srcs:
            raise Violation("the source of a module declared in %s was not compiled from its directory: %s" % (ident, sorted(srcs)))
        incs = [os.path.normpath(os.path.join(srcs[p].cwd, a[2:])) for a in srcs[p].args if a.startswith("-I")]
        for n2 in v["names"]:
            i2 = n2.split("_", 1)[1]
            if os.path.join(dirs[i2], "inc_" + i2) not in incs:
                raise Violation("the include path of a module declared in %s does not lie in its directory: %s" % (i2, srcs[p]))
