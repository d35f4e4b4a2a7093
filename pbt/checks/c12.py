"""C12: C and C++ builds follow header dependencies."""
import os
import shutil
import subprocess
import time

from hypothesis import strategies as st

from .. import cxx
from .. import project as pj
from ..engine import CaseDir, HarnessError, Info, Violation, chance, in_child, need_ok, outcome

ID = "C12"
QUICK, THOROUGH = 1000, 12000
FAKE_TOOLS = True
RULE = """A case is a C/C++ product of any type (sources and headers in several directories, headers including headers by relative path or
search path, odd header names, generated and local headers, sources in modules and submodules) and a history: edits of sources and headers,
#include lines added and removed, headers created, deleted, moved, renamed and restored with old time stamps, touches, #error lines put in
and taken out, lost objects, dependency files and build directories; after each step licant builds in its own process. A recording stand-in compiler (real gcc in one
case of ten) does the work. Each build must succeed exactly if building a copy of the tree from scratch does, and leave the same product
and objects; it may recompile a source only if that source, a header of its last compilation or its object differs since then; repeating a successful build
calls no compiler. Non-trivial: two or more builds succeed (the last after changing all headers) and one after a change recompiles some but not all sources, or recovers from a
failed build."""

HDIRS = ["", "inc", "inc/sub", "src", "lib/include"]
ODD = ["", "", "", "h h", "a#b", "c$d", "e+f", "g~h", "i@j", "k(l)", "m&n", "o'p", "q=r", "s,t", "u%v", "w!x", "ü", "a  b", "{x}", "-d", "a;b", "^p"]


@st.composite
def cases(draw):
    real = chance(draw, 10)
    typ = draw(st.sampled_from(["application"] * 3 + ["shared_library", "static_library", "objects"])) if not real else "application"
    nsrc = draw(st.integers(1, 4 if real else 5))
    many = chance(draw, 8)
    nh = draw(st.integers(10, 30)) if many else draw(st.integers(1, 6))
    hdirs = draw(st.lists(st.sampled_from(HDIRS), min_size=1, max_size=3, unique=True))
    heads = []
    for i in range(nh):
        name = draw(st.sampled_from(ODD)) + "h%d" % i + draw(st.sampled_from([".h", ".hpp", ".inc", ""]))
        heads.append(os.path.join(draw(st.sampled_from(hdirs)), name))
    gen = chance(draw, 5)
    srcs = []
    for i in range(nsrc):
        lang = draw(st.sampled_from(["c", "cpp", "cxx", "cc"] if not real else ["c", "cpp"]))
        srcs.append(os.path.join(draw(st.sampled_from(["", "src", "src/deep"])), "s%d.%s" % (i, lang)))
    incpaths = sorted(set(hdirs[:1]) | draw(st.sets(st.sampled_from(hdirs))) | ({""} if gen else set()))
    # includes[file] = [[header number, style]]
    inc = {}
    styles = st.just(2) if chance(draw, 4) else st.integers(0, 2)
    for f in ["s%d" % i for i in range(nsrc)] + ["h%d" % i for i in range(nh)]:
        lo = 0 if f[0] == "s" else int(f[1:]) + 1
        if lo < nh:
            k = sorted(draw(st.sets(st.integers(lo, nh - 1), max_size=20 if many and f[0] == "s" else 3)))
            inc[f] = [[h, draw(styles)] for h in k]
        else:
            inc[f] = []
    where = draw(st.sampled_from(["plain", "plain", "module", "submodule"]))
    local = [] if real or where == "submodule" else sorted(draw(st.sets(st.integers(0, nh - 1), max_size=2))) if chance(draw, 5) else []
    hist = []
    for _ in range(draw(st.integers(1, 5))):
        hist.append({"ops": [draw(op(nsrc, nh, hdirs)) for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2, 3])))], "j": draw(st.sampled_from([1, 1, 3])), "say": draw(pj.SAY)})
    return {"real": real, "type": typ, "srcs": srcs, "heads": heads, "hdirs": hdirs, "inc": inc, "incpaths": incpaths, "gen": gen, "where": where,
            "split": draw(st.integers(0, nsrc - 1)), "local": local, "ifdef": draw(st.booleans()), "hist": hist,
            "builddir": draw(st.sampled_from(["build", "out/obj", "build"])), "via": draw(st.sampled_from(["cli", "invoke"]))}


@st.composite
def op(draw, nsrc, nh, hdirs):
    o = draw(st.sampled_from(["edit_h"] * 5 + ["edit_s"] * 3 + ["inc"] * 4 + ["uninc"] * 3 + ["del_h"] * 2 + ["restore_h"] * 2 + ["move_h", "touch_h", "touch_s",
                             "break_s", "break_h", "fix", "fix", "lose_o", "lose_d", "lose_dir", "lose_product", "edit_gen", "swap", "new_h", "cut_d"]))
    return {"o": o, "s": draw(st.integers(0, nsrc - 1)), "h": draw(st.integers(0, nh - 1)), "k": draw(st.integers(0, 7)),
            "file": draw(st.booleans()), "back": draw(st.booleans())}


def strategy(tier):
    return cases()


class Tree:
    """The sources as the user edits them."""

    def __init__(self, case, root):
        self.c, self.root = case, root
        self.inc = {k: [list(x) for x in v] for k, v in case["inc"].items()}
        self.hpath = list(case["heads"])
        self.present = [True] * len(self.hpath)
        self.ver = {}
        self.broken = set()
        self.stash = {}
        self.newest = 0

    def path(self, f):
        return self.c["srcs"][int(f[1:])] if f[0] == "s" else self.hpath[int(f[1:])]

    def spelled(self, f, h, style):
        hp = self.hpath[h]
        if style and os.path.dirname(hp) in self.c["incpaths"]:
            n = os.path.basename(hp)
        elif style == 2 and h in self.c["local"]:
            n = "loc_h%d.h" % h
        else:
            n = os.path.relpath(hp, os.path.dirname(self.path(f)) or ".")
        return ("<%s>" if style == 2 else '"%s"') % n

    def text(self, f):
        out = []
        for h, style in self.inc[f]:
            line = "#include " + self.spelled(f, h, style)
            if self.c["ifdef"] and style == 1:
                out += ["#ifdef VP_ON", line, "#endif"]
            else:
                out.append(line)
        if f in self.broken:
            out.append("#error broken")
        v = self.ver.get(f, 0)
        if f[0] == "h":
            out.append("#define V%s %d" % (f[1:], 10 * int(f[1:]) + v))
        else:
            if self.c["gen"] and f == "s0":
                out.append('#include "gen.h"')
            terms = ["%d" % v]
            i = int(f[1:])
            out += ["#ifdef __cplusplus", 'extern "C"', "#endif", "int f_%d(void)" % i, "{ int r = %s;" % terms[0]]
            for h in range(len(self.hpath)):
                out += ["#ifdef V%d" % h, "  r = r * 31 + V%d;" % h, "#endif"]
            if self.c["gen"] and i == 0:
                out.append("  r = r * 31 + GEN;")
            out.append("  return r; }")
            if i == 0 and self.c["type"] == "application":
                n = len(self.c["srcs"])
                out += ["#include <stdio.h>"] if self.c["real"] else []
                out += ["#ifdef __cplusplus", 'extern "C" {', "#endif"]
                out += ["int f_%d(void);" % k for k in range(n)]
                out += ["#ifdef __cplusplus", "}", "#endif", "int main(void) {"]
                out += ['  printf("%%d\\n", f_%d());' % k for k in range(n)] + ["  return 0; }"]
        return "\n".join(out) + "\n"

    def tick(self):
        """Wait until a file written now is newer than everything in the tree."""
        newest = 0
        for d, _, fs in os.walk(self.root):
            for x in fs:
                newest = max(newest, os.lstat(os.path.join(d, x)).st_mtime_ns)
        probe = self.root + ".probe"
        for _ in range(4000):
            with open(probe, "w"):
                pass
            if os.stat(probe).st_mtime_ns > newest:
                return
            time.sleep(0.001)
        raise HarnessError("file clock does not advance")

    def write(self, f):
        p = os.path.join(self.root, self.path(f))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as h:
            h.write(self.text(f))

    def init(self):
        for d in ["src/deep", "inc/sub", "lib/include", "src"]:
            os.makedirs(os.path.join(self.root, d), exist_ok=True)
        for f in self.inc:
            self.write(f)
        if self.c["gen"]:
            self.write_gen()

    def write_gen(self):
        with open(os.path.join(self.root, "gen.in"), "w") as h:
            h.write("#define GEN %d\n" % self.ver.get("gen", 0))

    def rewrite(self, f):
        if f[0] == "s" or self.present[int(f[1:])]:
            self.write(f)
            return True
        return False

    def apply(self, op, objs):
        o, s, h, k = op["o"], "s%d" % op["s"], "h%d" % op["h"], op["k"]
        hi = op["h"]
        full = os.path.join(self.root, self.hpath[hi])
        self.tick()
        if o in ("edit_h", "edit_s"):
            f = h if o == "edit_h" else s
            self.ver[f] = self.ver.get(f, 0) + 1
            return self.rewrite(f)
        if o == "edit_gen" and self.c["gen"]:
            self.ver["gen"] = self.ver.get("gen", 0) + 1
            self.write_gen()
            return True
        if o in ("inc", "swap"):
            f = s if op["file"] else "h%d" % (hi - 1 - k % hi) if hi else s
            if o == "swap" and self.inc[f]:
                self.inc[f].pop(k % len(self.inc[f]))
            if all(x[0] != hi for x in self.inc[f]) and (f[0] == "s" or int(f[1:]) < hi):
                self.inc[f].append([hi, k % 3])
            return self.rewrite(f)
        if o == "new_h":
            # a header nobody had so far: brought back with new content and included
            self.present[hi] = True
            self.ver[h] = self.ver.get(h, 0) + 1
            self.write(h)
            if all(x[0] != hi for x in self.inc[s]):
                self.inc[s].append([hi, k % 3])
                self.write(s)
            return True
        if o == "uninc":
            f = s if op["file"] else h
            if not self.inc[f]:
                return False
            gone = self.inc[f].pop(k % len(self.inc[f]))[0]
            done = self.rewrite(f)
            if op["back"] and self.present[gone]:
                # the header goes away together with its last mention
                for g in self.inc:
                    if any(x[0] == gone for x in self.inc[g]):
                        self.inc[g] = [x for x in self.inc[g] if x[0] != gone]
                        self.rewrite(g)
                os.unlink(os.path.join(self.root, self.hpath[gone]))
                self.present[gone] = False
            return done
        if o == "del_h" and self.present[hi]:
            self.stash[hi] = (os.stat(full).st_mtime_ns, self.text(h), full)
            os.unlink(full)
            self.present[hi] = False
            return True
        if o == "restore_h" and not all(self.present):
            hi = [i for i in range(len(self.present)) if not self.present[i]][k % self.present.count(False)]
            h = "h%d" % hi
            self.present[hi] = True
            if k % 2:
                self.ver[h] = self.ver.get(h, 0) + 1
            self.write(h)
            if op["back"] and self.stash.get(hi, (0,))[1:] == (self.text(h), os.path.join(self.root, self.hpath[hi])):
                t = self.stash[hi][0]         # as mv would: same content, old time
                os.utime(os.path.join(self.root, self.hpath[hi]), ns=(t, t))
            return True
        if o == "move_h" and self.present[hi]:
            dirs = self.c["hdirs"]
            new = os.path.join(dirs[k % len(dirs)], os.path.basename(self.hpath[hi]))
            if new == self.hpath[hi]:
                return False
            os.rename(full, os.path.join(self.root, new))
            self.hpath[hi] = new
            self.write(h)
            for f in self.inc:
                if any(x[0] == hi for x in self.inc[f]):
                    old = None
                    p = os.path.join(self.root, self.path(f))
                    if os.path.exists(p):
                        with open(p) as fh:
                            old = fh.read()
                    if old != self.text(f):
                        self.rewrite(f)
            return True
        if o in ("touch_h", "touch_s"):
            p = full if o == "touch_h" else os.path.join(self.root, self.path(s))
            if os.path.exists(p):
                os.utime(p)
                return True
            return False
        if o in ("break_s", "break_h"):
            f = s if o == "break_s" else h
            self.broken.add(f)
            return self.rewrite(f)
        if o == "fix":
            for f in sorted(self.broken):
                self.broken.discard(f)
                self.rewrite(f)
            if op["back"]:
                for i in range(len(self.present)):
                    if not self.present[i]:
                        self.present[i] = True
                        self.write("h%d" % i)
            return True
        # outputs
        if o in ("lose_o", "lose_d", "cut_d"):
            ext = ".o" if o == "lose_o" else ".d"
            fs = [x for x in objs() if x.endswith(ext)]
            if not fs:
                return False
            if o == "cut_d":
                open(fs[k % len(fs)], "w").close()
            else:
                os.unlink(fs[k % len(fs)])
            return True
        bd = os.path.join(self.root, self.c["builddir"])
        if o == "lose_dir" and os.path.isdir(bd):
            shutil.rmtree(bd)
            return True
        p = os.path.join(self.root, "product")
        if o == "lose_product" and os.path.exists(p):
            os.unlink(p)
            return True
        return False


def build(case, root, log, j, hpaths, say=()):
    c = case

    def body():
        cxx.use_tools(log, fake=not c["real"])
        import licant
        import licant.cli
        from licant.core import default_core
        core = default_core()

        def declare():
            kw = dict(builddir=c["builddir"], include_paths=[p or "." for p in c["incpaths"]], debug="")
            if c["ifdef"]:
                kw["defines"] = ["VP_ON"]
            if c["gen"]:
                kw["depends"] = ["gen.h"]
                licant.makefile(tgt="gen.h", deps=["gen.in"], do="cat gen.in > gen.h")
            if c["local"]:
                kw["local_headers"] = [("loc_h%d.h" % h, hpaths[h]) for h in c["local"]]
            srcs = list(c["srcs"])
            a, b = srcs[:c["split"]], srcs[c["split"]:]
            if c["where"] == "module" and a:
                licant.module("part", sources=a)
                kw.update(sources=b, mdepends=["part"])
            elif c["where"] == "submodule" and a:
                # "depends" is a module's own: whoever includes a generated header says so
                licant.module("part", sources=a, **({"depends": ["gen.h"]} if c["gen"] else {}))
                kw.update(sources=b, modules=[licant.submodule("part")])
            else:
                kw["sources"] = srcs
            f = {"application": licant.cxx_application, "shared_library": licant.cxx_shared_library,
                 "static_library": licant.cxx_static_library, "objects": licant.cxx_objects}[c["type"]]
            if c["type"] == "objects":
                f("product", **kw)
            else:
                f("product", target="product", **kw)
            return True
        d = outcome(declare)
        if d["end"] != "ok":
            return {"d": d}
        if c["via"] == "cli":
            f = lambda: licant.ex(default="product", argv=["-j%d" % j] + list(say), core=core)
        else:
            core.runtime["threads"] = j
            f = lambda: core.get("product").invoke("recurse_update")

        def g():
            v = f()
            return v if isinstance(v, (bool, int, str, type(None))) else repr(v)
        return {"d": d, "r": outcome(g)}
    ch = in_child(body, root, timeout=60)
    v = need_ok(ch, "build")
    if v["d"]["end"] != "ok":
        raise Violation("describing the product failed: %s %s" % (v["d"], ch.err[-300:]))
    ok = pj.succeeded(v["r"])
    return ok, v["r"], ch


def outputs(case, root, product=True):
    """{relative path: content} of the objects and the product."""
    out = {}
    for d, _, fs in os.walk(os.path.join(root, case["builddir"])):
        for x in fs:
            if x.endswith(".o"):
                p = os.path.join(d, x)
                with open(p, "rb") as f:
                    out[os.path.relpath(p, root)] = f.read()
    p = os.path.join(root, "product")
    if os.path.exists(p):
        if case["real"]:
            out = {"runs": subprocess.run([p], capture_output=True, timeout=20).stdout}
        else:
            with open(p, "rb") as f:
                out["product"] = f.read()
    return out


def stat(root, rel):
    try:
        s = os.stat(os.path.join(root, rel))
        return s.st_mtime_ns
    except OSError:
        return None


def compare(got, want, what):
    if got != want:
        for k in sorted(set(got) | set(want)):
            if got.get(k) != want.get(k):
                raise Violation("%s: %s is %r, from scratch it is %r" % (what, k, (got.get(k) or b"missing")[-400:], (want.get(k) or b"missing")[-400:]))


def run(case):
    partial = recovered = 0
    tags = set()
    with CaseDir() as base:
        root = os.path.join(base, "proj")
        os.mkdir(root)
        log = os.path.join(base, "log")
        t = Tree(case, root)
        t.init()
        last = {}           # source -> (files of its last compilation with their stamps) or None
        prev_ok = None
        nsucc = 0
        lost = set()        # sources whose object or header list was taken away since their last compilation

        def objs():
            return sorted(os.path.join(d, x) for d, _, fs in os.walk(os.path.join(root, case["builddir"])) for x in fs)
        hist = [{"ops": [], "j": 2}] + case["hist"] + [{"ops": [], "j": 1, "final": True}, {"ops": [], "j": 3, "sweep": True}]
        for k, h in enumerate(hist):
            changed = False
            if h.get("final"):
                # whatever went wrong is put right at the end: broken files repaired, missing headers brought back with new or old time
                if prev_ok:
                    continue
                for hi in range(len(t.present)):
                    if not t.present[hi]:
                        t.apply({"o": "restore_h", "s": 0, "h": hi, "k": 0 if case["via"] == "cli" else 1, "back": True}, objs)
                t.apply({"o": "fix", "s": 0, "h": 0, "k": 0, "back": False}, objs)
            for o in h["ops"]:
                if t.apply(o, objs):
                    tags.add("op=" + o["o"])
                    changed = True
            if h.get("sweep"):
                # every header changes once more: whoever includes it must notice
                t.tick()
                for f in t.inc:
                    if f[0] == "h":
                        t.ver[f] = t.ver.get(f, 0) + 1
                        t.rewrite(f)
            lost |= {s for s in last if last[s] is not None and
                     any(not os.path.exists(p) or os.path.getsize(p) == 0 for p in last[s][1])}
            if os.path.exists(log):
                os.unlink(log)
            what = "build %d after %s" % (k, [o["o"] for o in h["ops"]])
            ok, r, ch = build(case, root, log, h["j"], t.hpath, h.get("say", ()))
            calls, heads = cxx.read_log(log)
            # from scratch, elsewhere
            copy = os.path.join(base, "copy")
            shutil.copytree(root, copy)
            shutil.rmtree(os.path.join(copy, case["builddir"]), ignore_errors=True)
            for x in ("product", "gen.h"):
                if os.path.exists(os.path.join(copy, x)):
                    os.unlink(os.path.join(copy, x))
            sok, sr, sch = build(case, copy, os.path.join(base, "slog"), 2, t.hpath)
            if ok != sok:
                raise Violation("%s %s, although from scratch it %s\n%s\n%s" % (
                    what, "succeeded" if ok else "failed (%s)" % r, "succeeds" if sok else "fails", ch.out[-600:], sch.out[-600:]))
            if ok:
                compare(outputs(case, root), outputs(case, copy), what)
                nsucc += 1
            shutil.rmtree(copy)
            if not case["real"]:
                recompiled = set()
                for c in calls:
                    if c.mode != "c":
                        continue
                    s = os.path.relpath(os.path.join(c.cwd, c.inputs[0]), root) if c.inputs else "?"
                    if s in recompiled:
                        raise Violation("%s compiled %s twice" % (what, s))
                    recompiled.add(s)
                    was = last.get(s)
                    if was is not None and s not in lost:
                        diff = [f for f, m in was[0].items() if stat(root, f) != m]
                        if not diff:
                            raise Violation("%s recompiled %s although neither it nor a header of its last compilation changed: %s" % (
                                what, s, sorted(was[0])))
                if ok and prev_ok is not None and 0 < len(recompiled) < len(case["srcs"]):
                    partial += 1
                for s, was in last.items():       # a change stays one although taken back after a failed build
                    if was is not None and any(stat(root, f) != m for f, m in was[0].items()):
                        lost.add(s)
                for (cwd, src), (good, hs) in heads.items():
                    s = os.path.relpath(os.path.join(cwd, src), root)
                    files = [s] + [os.path.relpath(os.path.join(cwd, x), root) for x in hs]
                    # declared for all sources of the product
                    files += (["gen.h"] if case["gen"] else []) + [t.hpath[x] for x in case["local"]]
                    files += [os.path.join(case["builddir"], "__LOCAL_HEADERS__", "loc_h%d.h" % x) for x in case["local"]]
                    out = [c.out for c in calls if c.mode == "c" and c.inputs and c.inputs[0] == src]
                    o = os.path.join(root, out[0]) if out else None
                    last[s] = ({f: stat(root, f) for f in files}, [o, o[:-2] + ".d"] if o else []) if good else None
                    lost.discard(s)
            if ok and prev_ok is False:
                recovered += 1
            if not ok:
                tags.add("failed build")
            prev_ok = ok
            if ok and (h.get("sweep") or k == 0):
                if os.path.exists(log):
                    os.unlink(log)
                before = outputs(case, root)
                st0 = {p: stat(root, os.path.relpath(p, root)) for p in objs()}
                ok2, r2, _ = build(case, root, log, h["j"], t.hpath)
                if not ok2:
                    raise Violation("repeating a successful build failed: %s" % r2)
                calls, _ = cxx.read_log(log)
                bad = [c for c in calls if c.mode in ("c", "link", "ar")]
                if bad:
                    raise Violation("repeating %s called the compiler: %s" % (what, bad[:4]))
                if case["real"] and {p: stat(root, os.path.relpath(p, root)) for p in objs() if p.endswith(".o")} != \
                        {p: m for p, m in st0.items() if p.endswith(".o")}:
                    raise Violation("repeating %s recompiled objects" % what)
                compare(outputs(case, root), before, "repeating " + what)
    return Info(nsucc >= 2 and (partial or recovered or case["real"]), "real gcc" if case["real"] else None, "type=" + case["type"], "where=" + case["where"],
                case["gen"] and "generated header", case["local"] and "local headers", partial and "partial rebuild", recovered and "recovered",
                *sorted(tags))
