"""C18: install and uninstall."""
import fnmatch
import os
import sys
import time

from hypothesis import strategies as st

from .. import fresh
from .. import project as pj
from ..engine import CaseDir, Info, Violation, chance, in_child, need_ok, outcome

ID = "C18"
QUICK, THOROUGH = 3600, 24000
RULE = """A case is a project with one or two header trees (odd and equal names, several extensions, hidden files, files that match nothing), libraries and
programs built by steps or prebuilt, one or two library installs (default, wildcard, overlapping, repeated or matchless pattern lists; no, one or
several libraries; the same headers under two include directories) and application installs into a prefix that already holds other files; its
history of up to nine steps installs, edits, touches or adds headers, libraries and programs, breaks a library step, loses or changes installed
files, and uninstalls, each run in a process of its own. After every run the whole prefix and the project are compared with the model: exactly the expected files
copied (new content and time), everything else untouched, uninstall removing exactly the files of its install. Non-trivial: two or more runs, one
copying at least two files and one leaving an installed file as it was or uninstalling."""

HNAMES = ["a.h", "x.h", "y.hpp", "z.hxx", "b.h", "c.hpp", "d.hxx", "e.inc", "README", "a b.h", "q'x.h", "{t}.h", "ü.hpp", ".dot.h", "x.h.in", "A.H", "foo1.h", "$v.h", "h", "h.h", "-x.h"]
HDIRS = ["", "", "sub", "sub/deep", "sp ace", "detail"]
PATTERNS = [None, None, ["*.h"], ["*.h", "*.hpp"], ["*"], ["foo*", "*.inc"], ["*.h", "*.h"], ["[ab]*.h"], [], ["a.h"], ["*.none"], ["?.h", "*.hxx"], ["sub"]]
PREFIXES = ["pre", "pre", "p re", "p'q", "deep/er/pre", "{x}"]


@st.composite
def cases(draw):
    roots = ["include"] + (["src/inc"] if draw(st.booleans()) else [])
    hs = sorted(draw(st.sets(st.tuples(st.integers(0, len(roots) - 1), st.sampled_from(HDIRS), st.sampled_from(HNAMES)), min_size=draw(st.sampled_from([1, 3, 4])), max_size=8)))
    libs = [{"built": draw(st.booleans()), "name": draw(st.sampled_from(["lib%d.so", "lib%d.a", "l ib%d.so"])) % k} for k in range(draw(st.integers(0, 2)))]
    apps = [{"built": draw(st.booleans()), "mode": draw(st.sampled_from([0o755, 0o755, 0o700, 0o644, 0o711])), "dst": "prog%d" % k,
             "tgt": draw(st.sampled_from([None, "install-app%d" % k]))} for k in range(draw(st.sampled_from([0, 0, 1, 2])))]
    installs = []
    for k in range(draw(st.sampled_from([1, 1, 2]))):
        li = draw(st.sets(st.sampled_from(range(len(libs))))) if libs else set()
        installs.append({"tgt": "install%d" % k, "hroot": draw(st.sampled_from(["pkg%d", "pkg%d/v2", "p kg%d"])) % k if k or draw(st.booleans()) else "",
                         "root": draw(st.integers(0, len(roots) - 1)), "spell": draw(st.sampled_from(["rel", "rel", "abs", "dot", "slash"])),
                         "patterns": draw(st.sampled_from(PATTERNS)), "tuple": draw(st.booleans()), "libs": sorted(li),
                         "single": draw(st.booleans()), "uninstall": draw(st.sampled_from([None, "uninstall%d" % k, "uninstall%d" % k]))})
    tgts = [["install", k] for k in range(len(installs))] + [["app", k] for k in range(len(apps))]
    unin = [["uninstall", k] for k, i in enumerate(installs) if i["uninstall"]]
    hist = [draw(st.sampled_from(tgts[:len(installs)]))]
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.sampled_from(["run"] * 4 + ["un"] * 2 + ["edit", "edit", "touch", "add", "lose", "change", "lib", "appedit", "break", "foreign"]))
        if k == "run":
            hist.append(draw(st.sampled_from(tgts)))
        elif k == "un":
            if unin:
                hist.append(draw(st.sampled_from(unin)))
        elif k in ("edit", "touch"):
            hist.append([k, draw(st.integers(0, len(hs) - 1))])
        elif k == "add":
            hist.append([k, draw(st.integers(0, len(roots) - 1)), draw(st.sampled_from(HDIRS)), draw(st.sampled_from(HNAMES))])
        elif k in ("lose", "change", "foreign"):
            hist.append([k, draw(st.integers(0, 20))])
        elif k in ("lib", "break") and libs:
            hist.append([k, draw(st.integers(0, len(libs) - 1))])
        elif k == "appedit" and apps:
            hist.append([k, draw(st.integers(0, len(apps) - 1))])
    return {"roots": roots, "headers": [list(h) for h in hs], "libs": libs, "apps": apps, "installs": installs, "hist": hist,
            "prefix": draw(st.sampled_from(PREFIXES)), "j": draw(st.integers(1, 3)), "say": draw(pj.SAY), "foreign": draw(st.booleans()), "relprefix": chance(draw, 6)}


def strategy(tier):
    return cases()


def patterns_of(ins):
    return ["*.h", "*.hxx", "*.hpp"] if ins["patterns"] is None else ins["patterns"]


class World:
    def __init__(self, case, base):
        self.c, self.base = case, base
        self.root = os.path.join(base, "proj")
        self.prefix = os.path.join(self.root if case["relprefix"] else base, case["prefix"])
        self.n = 0
        os.makedirs(self.root)
        for r, d, f in case["headers"]:
            self.write(self.header([r, d, f]))
        for k, l in enumerate(case["libs"]):
            self.write(self.libsrc(k))
        for k, a in enumerate(case["apps"]):
            self.write(self.appsrc(k), a["mode"])
        os.makedirs(self.prefix)
        if case["foreign"]:
            for p in ["include/other.h", "include/pkg0/other.h", "lib/other.so", "bin/other", "share/x", "include/a.h.bak", "lib/lib0.so.1"]:
                self.write(os.path.join(self.prefix, p))

    def write(self, p, mode=None):
        self.n += 1
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write("%s %d\n" % (os.path.basename(p), self.n))
        if mode is not None:
            os.chmod(p, mode)

    def header(self, h):
        return os.path.normpath(os.path.join(self.root, self.c["roots"][h[0]], h[1], h[2]))

    def libsrc(self, k):
        l = self.c["libs"][k]
        return os.path.join(self.root, "libsrc%d.txt" % k) if l["built"] else self.lib(k)

    def lib(self, k):
        l = self.c["libs"][k]
        return os.path.join(self.root, "build" if l["built"] else "prebuilt", l["name"])

    def appsrc(self, k):
        return os.path.join(self.root, "appsrc%d" % k) if self.c["apps"][k]["built"] else self.app(k)

    def app(self, k):
        return os.path.join(self.root, "build/app%d" % k if self.c["apps"][k]["built"] else "tools/app%d" % k)

    def headers_of(self, ins):
        """[(source, destination)] of the headers an install matches now."""
        top = os.path.join(self.root, self.c["roots"][ins["root"]])
        out = []
        for d, _, fs in os.walk(top):
            for f in fs:
                if any(fnmatch.fnmatchcase(f, p) for p in patterns_of(ins)):
                    s = os.path.join(d, f)
                    out.append((s, os.path.normpath(os.path.join(self.prefix, "include", ins["hroot"], os.path.relpath(s, top)))))
        return out

    def libs_of(self, ins):
        return [(self.lib(k), os.path.join(self.prefix, "lib", os.path.basename(self.lib(k)))) for k in ins["libs"]]

    def installed(self):
        return sorted({d for i in self.c["installs"] for _, d in self.headers_of(i) + self.libs_of(i)} |
                      {os.path.join(self.prefix, "bin", a["dst"]) for a in self.c["apps"]})


def declare(case, w):
    import licant
    import licant.install
    from licant.make import FileTarget
    core = licant.default_core()

    def step(src, tgt, mode=None):
        def build(target):
            if os.path.exists(src + ".FAIL"):
                return False
            with open(src) as f:
                t = f.read()
            with open(tgt, "w") as f:
                f.write("built from " + t)
            if mode is not None:
                os.chmod(tgt, mode)
            return True
        licant.source(os.path.relpath(src, w.root))
        core.add(FileTarget(tgt=os.path.relpath(tgt, w.root), build=build, deps=[os.path.relpath(src, w.root)]))
    for k, l in enumerate(case["libs"]):
        if l["built"]:
            step(w.libsrc(k), w.lib(k))
    for k, a in enumerate(case["apps"]):
        if a["built"]:
            step(w.appsrc(k), w.app(k), a["mode"])
    for ins in case["installs"]:
        top = case["roots"][ins["root"]]
        top = {"rel": top, "abs": os.path.join(w.root, top), "dot": "./" + top, "slash": top + "/"}[ins["spell"]]
        kw = {}
        if ins["patterns"] is not None:
            kw["headers_patterns"] = tuple(ins["patterns"]) if ins["tuple"] else list(ins["patterns"])
        libs = [os.path.relpath(w.lib(k), w.root) for k in ins["libs"]]
        if libs:
            kw["libtgt"] = libs[0] if len(libs) == 1 and ins["single"] else libs
        if ins["uninstall"]:
            kw["uninstall"] = ins["uninstall"]
        licant.install.install_library(tgt=ins["tgt"], hroot=ins["hroot"], headers=top, **kw)
    names = []
    for k, a in enumerate(case["apps"]):
        names.append(licant.install.install_application(os.path.relpath(w.app(k), w.root), a["dst"], tgt=a["tgt"]))
    return [str(getattr(n, "tgt", n)) for n in names]


def stat(p):
    try:
        s = os.stat(p)
    except OSError:
        return None
    return s.st_mtime_ns


def wait_clock(w):
    """Until a file written now is newer than everything there is."""
    newest = 0
    for top in {w.base}:
        for d, _, fs in os.walk(top):
            for f in fs:
                newest = max(newest, stat(os.path.join(d, f)) or 0)
    probe = os.path.join(w.base, "clock")
    while True:
        with open(probe, "w") as f:
            f.write("x")
        if stat(probe) > newest:
            os.unlink(probe)
            return
        time.sleep(0.001)


def run(case):
    with CaseDir() as base:
        return run_in(case, base)


def run_in(case, base):
    w = World(case, base)
    runs = copies2 = spares = uninstalls = failures = 0
    for n, step in enumerate(case["hist"]):
        wait_clock(w)
        k = step[0]
        if k == "edit":
            w.write(w.header(case["headers"][step[1]]))
        elif k == "touch":
            os.utime(w.header(case["headers"][step[1]]))
        elif k == "add":
            p = w.header(step[1:])
            if not os.path.isdir(p):
                w.write(p)
        elif k == "lose":
            ps = [p for p in w.installed() if os.path.exists(p)]
            if ps:
                os.unlink(ps[step[1] % len(ps)])
        elif k == "change":
            ps = [p for p in w.installed() if os.path.exists(p)]
            if ps:
                with open(ps[step[1] % len(ps)], "a") as f:
                    f.write("changed by hand\n")
        elif k == "foreign":
            w.write(os.path.join(w.prefix, ["include/f.h", "lib/f.so", "bin/f", "include/pkg1/f.h"][step[1] % 4]))
        elif k == "lib":
            w.write(w.libsrc(step[1]))
        elif k == "appedit":
            a = case["apps"][step[1]]
            w.write(w.appsrc(step[1]), a["mode"])
        elif k == "break":
            p = w.libsrc(step[1]) + ".FAIL"
            if os.path.exists(p):
                os.unlink(p)
            else:
                open(p, "w").close()
        if k not in ("install", "uninstall", "app"):
            continue
        r = one(case, w, step, n)
        runs += 1
        copies2 = max(copies2, r["copied"])
        spares += r["spared"]
        uninstalls += r["removed"] > 0
        failures += r["failed"]
    return Info(runs >= 2 and copies2 >= 2 and (spares or uninstalls), uninstalls and "uninstall", failures and "failed library", spares and "nothing to copy",
                len({(i["root"]) for i in case["installs"]}) < len(case["installs"]) and "same headers twice",
                any(i["libs"] for i in case["installs"]) and "libraries", case["apps"] and "applications", "runs=%d" % min(runs, 5))


def one(case, w, step, n):
    """One licant process."""
    k, idx = step
    wait_clock(w)
    before = {x: pj.tree(d) for x, d in (("prefix", w.prefix), ("proj", w.root))}
    failing = built = None
    copied, removed, may = {}, set(), {}

    def outdated(lib, src):
        return stat(lib) is None or stat(lib) < stat(src)
    remade = set()
    if k == "install":
        ins = case["installs"][idx]
        failing = set()
        for l in ins["libs"]:
            if case["libs"][l]["built"] and outdated(w.lib(l), w.libsrc(l)):
                if os.path.exists(w.libsrc(l) + ".FAIL"):
                    failing.add(l)
                else:
                    remade.add(w.lib(l))
        deps = [w.lib(l) for l in ins["libs"]]
        heads = w.headers_of(ins)
        for s, d in heads:
            if stat(d) is None or any(x in remade or stat(d) < stat(x) for x in [s] + deps if x in remade or stat(x) is not None):
                if not failing:
                    copied[d] = s
        for l in ins["libs"]:
            s, d = w.lib(l), os.path.join(w.prefix, "lib", os.path.basename(w.lib(l)))
            if l in failing:
                continue
            if s in remade or stat(d) is None or stat(d) < stat(s):
                (may if failing else copied)[d] = s
        name = ins["tgt"]
    elif k == "app":
        failing = set()
        s, d = w.app(idx), os.path.join(w.prefix, "bin", case["apps"][idx]["dst"])
        if case["apps"][idx]["built"] and outdated(s, w.appsrc(idx)):
            remade.add(s)
        if s in remade or stat(d) is None or stat(d) < stat(s):
            copied[d] = s
        name = None
    else:
        ins = case["installs"][idx]
        removed = {d for _, d in w.headers_of(ins) + w.libs_of(ins) if os.path.exists(d)}
        failing = set()
        name = ins["uninstall"]

    def body():
        os.environ["PREFIX"] = case["prefix"] if case["relprefix"] else w.prefix
        sys.argv = ["make.py"]
        fresh.forget()
        import licant
        res = {"d": outcome(lambda: declare(case, w))}
        if res["d"]["end"] != "ok":
            return res
        t = name or res["d"]["value"][idx]
        if t.startswith("-"):
            t = "./" + t
        res["r"] = outcome(lambda: licant.ex(argv=case.get("say", []) + [t, "-j%d" % case["j"]], core=licant.default_core()))
        return res
    what = "run %d (%s %d)" % (n, k, idx)
    ch = in_child(body, w.root, timeout=40)
    v = need_ok(ch, what)
    said = ch.out[-800:].decode("utf-8", "replace") + ch.err[-400:]
    if v["d"]["end"] != "ok":
        raise Violation("%s: the description was not accepted: %s\n%s" % (what, v["d"], said))
    ok = pj.succeeded(v["r"])
    if ok == bool(failing):
        raise Violation("%s ended with %s, failing steps: %s\n%s" % (what, v["r"], sorted(failing), said))
    after = {x: pj.tree(d) for x, d in (("prefix", w.prefix), ("proj", w.root))}
    b, a = before["prefix"], after["prefix"]
    rel = lambda p: os.path.relpath(p, w.prefix)
    done = {rel(d): s for d, s in copied.items()}
    gone = {rel(p) for p in removed}
    maybe = {rel(d): s for d, s in may.items()}
    dirs = {x for p in list(done) + list(maybe) for x in parents(p)}
    if failing:
        # files that do not depend on the failing libraries may or may not be there; their directories too
        dirs |= {x for _, d in w.headers_of(case["installs"][idx]) + w.libs_of(case["installs"][idx]) for x in parents(rel(d))}
    for p in sorted(set(a) | set(b) | set(done)):
        x, y = b.get(p), a.get(p)
        if p in done or p in maybe and x != y:
            s = done.get(p) or maybe[p]
            if y is None:
                raise Violation("%s: %r is not installed\n%s" % (what, p, said))
            with open(s, "rb") as f:
                if y[1] != f.read().decode("latin-1"):
                    raise Violation("%s: %r is not a copy of %s: %r" % (what, p, os.path.relpath(s, w.root), y[1]))
            if x is not None and x[2] == y[2]:
                raise Violation("%s: %r was out of date but not copied\n%s" % (what, p, said))
            if x is None and (os.stat(s).st_mode & 0o777) != y[3]:
                raise Violation("%s: %r has permissions %o, its source %o" % (what, p, y[3], os.stat(s).st_mode & 0o777))
        elif p in gone:
            if y is not None:
                raise Violation("%s: %r is still installed\n%s" % (what, p, said))
        elif x is None and y[0] == "dir" and p in dirs:
            pass
        elif x != y:
            raise Violation("%s: %r was %s although the install has nothing to do there\n%s" % (
                what, p, "created" if x is None else "removed" if y is None else "changed or copied again", said))
    # the project itself: only the libraries and programs that had to be made
    b, a = before["proj"], after["proj"]
    pre = os.path.relpath(w.prefix, w.root)
    for p in sorted(set(a) | set(b)):
        if p == pre or p.startswith(pre + "/") or p in parents(pre):
            continue
        full = os.path.join(w.root, p)
        if b.get(p) != a.get(p) and full not in remade and not (p == "build" and p not in b):
            raise Violation("%s: %r of the project was %s" % (what, p, "created" if p not in b else "removed" if p not in a else "changed"))
    for p in remade:
        if not os.path.exists(p) and not failing:
            raise Violation("%s: %s was not made" % (what, p))
    return {"copied": len(done), "spared": k != "uninstall" and not done and ok, "removed": len(gone), "failed": bool(failing)}


def parents(p):
    out = []
    while os.path.dirname(p):
        p = os.path.dirname(p)
        out.append(p)
    return out
