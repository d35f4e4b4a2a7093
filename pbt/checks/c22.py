"""C22: tool steps declared directly."""
import os
import time

from hypothesis import strategies as st

from .. import cxx
from .. import cxxproj as cp
from .. import project as pj
from ..engine import CaseDir, HarnessError, Info, Violation, chance, in_child, need_ok, outcome

ID = "C22"
QUICK, THOROUGH = 4000, 80000
FAKE_TOOLS = True
RULE = """A case is up to 14 steps declared directly - objects and header lists (language by extension or given; C, C++, assembler), executables, shared
and static libraries of earlier outputs, objcopy, moc and uic outputs, Java classes and dex files - with up to three option sets and toolchains
(standard, gcc with and without prefix, clang, own, or the process-wide default changed before), shared or not by the steps, at nested and relative
output paths, and one to three processes in which sources changed or outputs vanished before and steps and disassemblies are requested in any order.
Recording tools show the commands: exactly the steps a make-style model finds due run, each once as one command with its own tool, inputs in order,
options and output, and every output holds the current text of every source below it. Steps with an unknown language must be rejected. Non-trivial:
two option sets with different options in use, and a step with three levels below it or a second process that runs some steps but not all."""

EXT = {"cpp": "cxx", "cxx": "cxx", "cc": "cxx", "c": "cc", "asm": "cc", "s": "cc", "S": "cc"}
UNKNOWN = ["C", "CPP", "h", "o", "c++", "txt", ""]
TCS = {"std": dict(cxx="c++", cc="cc", ar="ar", objdump="objdump", objcopy="objcopy", moc="moc", uic="uic"),
       "gcc": dict(cxx="g++", cc="gcc", ar="ar", objdump="objdump", objcopy="objcopy", moc="moc", uic="uic"),
       "gccx": dict(cxx="x-g++", cc="x-gcc", ar="x-ar", objdump="x-objdump", objcopy="x-objcopy", moc="moc", uic="uic"),
       "clang": dict(cxx="clang++", cc="clang", ar="ar", objdump="objdump", objcopy="objcopy", moc="moc", uic="uic"),
       "own": dict(cxx="mycxx", cc="mycc", ar="myar", objdump="myobjdump", objcopy="myobjcopy", moc="mymoc", uic="myuic"),
       "pref": dict(cxx="x-g++", cc="x-gcc", ar="x-ar", objdump="x-objdump", objcopy="objcopy", moc=None, uic=None)}
DIRS = ["", "", "o/", "o/deep/er/", "./", "../up/", "src/../q/"]


def words(pool, hi=3, lo=0):
    return st.lists(st.sampled_from(pool), min_size=lo, max_size=hi, unique=True)


@st.composite
def optset(draw):
    o = {"tc": draw(st.sampled_from(["default", "default", "std", "gcc", "gccx", "clang", "own", "pref"]))}
    for k, pool in (("include_paths", ["inc", "a/b", "../x", "/usr/xx"]), ("defines", ["A", "B=1", "NAME_X=y", "C=2"]), ("ldscripts", ["l.ld", "d/m.ld"])):
        if chance(draw, 2):
            o[k] = draw(words(pool, lo=1))
    for k, pool in (("cxx_flags", ["-std=c++11", "-fa", "-Wall"]), ("cc_flags", ["-std=c99", "-fb", "-Wextra"]), ("ld_flags", ["-s", "-Wl,-z,now", "-fc"]),
                    ("ld_srcs_add", ["-la", "-lb", "-Ldir"]), ("optimize", ["-O2", "-Os"])):
        if chance(draw, 2):
            o[k] = " ".join(draw(words(pool, lo=1)))
    return o


@st.composite
def cases(draw):
    nopt = draw(st.sampled_from([1, 2, 2, 3]))
    opts = [draw(optset()) for _ in range(nopt)]
    srcs, steps = [], []

    def src(ext, d=""):
        n = d + "f%d" % len(srcs) + ("." + ext if ext else "")
        srcs.append(n)
        return n

    def out(ext):
        return draw(st.sampled_from(DIRS)) + "t%d%s" % (len(steps), ext)
    bad = chance(draw, 15)
    for i in range(draw(st.sampled_from([3, 5, 6, 8, 8, 10, 12, 14]))):
        objs = [j for j, s in enumerate(steps) if s["k"] in ("obj", "stat")]
        kinds = ["obj"] * 6 + ["dep", "moc", "uic", "javac"]
        if objs:
            kinds += ["exe", "exe", "exe", "dyn", "dyn", "stat", "stat", "stat", "stat", "objcopy", "objcopy"]
        if any(s["k"] == "javac" for s in steps):
            kinds += ["dex"]
        k = draw(st.sampled_from(kinds))
        s = {"k": k, "opt": draw(st.sampled_from([0, 1, 2, 3, None]))}
        if s["opt"] is not None:
            s["opt"] %= nopt
        d = draw(st.sampled_from(["", "", "src/", "../ext/"]))
        if k in ("obj", "dep"):
            ty = draw(st.sampled_from([None, None, None, "cxx", "cc", "asm"]))
            moc = [j for j, x in enumerate(steps) if x["k"] == "moc" and not x.get("used")]
            if k == "obj" and moc and chance(draw, 2):
                j = moc[0]
                steps[j]["used"] = True
                s["src"], s["deps"] = ["t", j], [j]
                ty = None
            else:
                ext = draw(st.sampled_from(sorted(EXT)))
                if ty and chance(draw, 3):
                    ext = draw(st.sampled_from(UNKNOWN))
                if bad and not ty:
                    ext, s["bad"], bad = draw(st.sampled_from(UNKNOWN)), True, False
                s["src"] = ["s", src(ext, d)]
                if bad and ty and chance(draw, 2):
                    ty, s["bad"], bad = "rust", True, False
                deps = [j for j, x in enumerate(steps) if x["k"] in ("dep", "uic") and not x.get("bad")]
                if k == "obj" and deps and chance(draw, 2):
                    s["deps"] = draw(st.lists(st.sampled_from(deps), min_size=1, max_size=2, unique=True))
            s["type"] = ty
            s["out"] = out(".o" if k == "obj" else ".d")
        elif k in ("exe", "dyn", "stat"):
            s["in"] = draw(st.lists(st.sampled_from(objs), min_size=1, max_size=4, unique=True))
            s["out"] = out({"exe": "", "dyn": ".so", "stat": ".a"}[k])
        elif k == "objcopy":
            s["in"] = [draw(st.sampled_from([j for j, x in enumerate(steps) if x["k"] in ("exe", "obj", "stat", "dyn")]))]
            s["format"] = draw(st.sampled_from(["binary", "ihex", "elf32-i386"]))
            s["sections"] = draw(words([".text", ".data", ".rodata"]))
            s["out"] = out(".bin")
            s["opt"] = draw(st.integers(0, nopt - 1))
        elif k in ("moc", "uic"):
            if s["opt"] is not None and opts[s["opt"]]["tc"] == "pref":
                s["opt"] = None
            s["src"] = ["s", src("h" if k == "moc" else "ui", d)]
            s["out"] = out(".cxx" if k == "moc" else ".h")
        elif k == "javac":
            s["srcs"] = [src("java", d) for _ in range(draw(st.integers(1, 3)))]
            s["flags"] = " ".join(draw(words(["-g", "-nowarn", "-Xlint"])))
            s["own"] = draw(st.booleans())
            s["out"] = s["srcs"][0][:-4] + "class"
        else:
            s["in"] = [draw(st.sampled_from([j for j, x in enumerate(steps) if x["k"] == "javac"]))]
            s["own"] = draw(st.booleans())
            s["out"] = out(".dex")
        steps.append(s)
    sessions = []
    dumpable = [j for j, x in enumerate(steps) if x["k"] not in ("javac", "dex")]
    for n in range(draw(st.sampled_from([1, 2, 3, 3]))):
        reqs = []
        for _ in range(draw(st.integers(1, 4))):
            r = {"t": draw(st.integers(0, len(steps) - 1)), "cli": draw(st.booleans())}
            if chance(draw, 4) and dumpable:
                r["t"], r["dump"] = draw(st.sampled_from(dumpable)), "dump%d%d.txt" % (n, len(reqs))
            reqs.append(r)
        sessions.append({"edits": sorted(draw(st.sets(st.integers(0, len(srcs) - 1), min_size=1, max_size=3))) if n and srcs else [],
                         "rm": sorted(draw(st.sets(st.integers(0, len(steps) - 1), max_size=1))) if n else [],
                         "reqs": reqs, "j": draw(st.integers(1, 4))})
    return {"opts": opts, "srcs": srcs, "steps": steps, "sessions": sessions, "set": draw(st.sampled_from([None, None, "clang", "gcc"])),
            "setcli": draw(st.booleans()), "copies": draw(st.booleans())}


def strategy(tier):
    return cases()


def closure(case, t):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x not in out:
            out.add(x)
            todo += below(case["steps"][x])
    return out


def below(s):
    return list(s.get("in", [])) + list(s.get("deps", []))


def sources(s):
    return [s["src"][1]] if s.get("src", [0])[0] == "s" else s.get("srcs", [])


def toolchain_of(case, s):
    """Names of the tools of a step."""
    if s["k"] in ("javac", "dex"):
        return {"javac": "myjavac" if s["own"] else "javac", "dx": "mydx" if s["own"] else "dx"}
    if s["opt"] is None:
        return TCS["std"]                  # options made when licant was loaded
    t = case["opts"][s["opt"]]["tc"]
    return TCS[(case["set"] or "std") if t == "default" else t]


def declare(case, licant):
    cm = licant.cxx_make
    import licant.java_make as jm
    if case["set"] and not case["setcli"]:
        cm.set_default_toolchain(case["set"])
    make = {"std": cm.standart_toolchain, "gcc": cm.gcc_toolchain, "gccx": lambda: cm.gcc_toolchain("x-"), "clang": cm.clang_toolchain,
            "own": lambda: cm.toolchain(cxx="mycxx", cc="mycc", ld="x-ld", ar="myar", objdump="myobjdump", moc="mymoc", uic="myuic", objcopy="myobjcopy"),
            "pref": lambda: cm.make_gcc_binutils("x")}
    tcs = {k: f() for k, f in make.items()}

    def options(o):
        kw = {k: (list(v) if isinstance(v, list) else v) for k, v in o.items() if k != "tc"}
        if o["tc"] != "default":
            kw["toolchain"] = tcs[o["tc"]]
        return cm.options(**kw)
    opts = [options(o) for o in case["opts"]]
    steps = case["steps"]
    for i, s in enumerate(steps):
        k, kw = s["k"], {}
        if s["opt"] is not None:
            kw["opts"] = options(case["opts"][s["opt"]]) if case["copies"] else opts[s["opt"]]
        outs = [steps[j]["out"] for j in s.get("in", [])]
        if k in ("obj", "dep", "moc", "uic"):
            src = s["src"][1] if s["src"][0] == "s" else steps[s["src"][1]]["out"]
            if s.get("deps"):
                kw["deps"] = ([src] if s["src"][0] == "s" else []) + [steps[j]["out"] for j in s["deps"]]
            if s.get("type"):
                kw["type"] = s["type"]
            {"obj": cm.object, "dep": cm.depend, "moc": cm.qt_moc, "uic": cm.qt_uic}[k](src, s["out"], **kw)
        elif k in ("exe", "dyn", "stat"):
            {"exe": cm.executable, "dyn": cm.dynamic_library, "stat": cm.static_library}[k](s["out"], outs, **kw)
        elif k == "objcopy":
            o = case["opts"][s["opt"]]["tc"]
            cm.objcopy(toolchain=tcs[o] if o != "default" else cm.default_toolchain(), tgt=s["out"], src=outs[0], format=s["format"], sections=list(s["sections"]))
        elif k == "javac":
            o = jm.java_options(jm.android_toolchain("myjavac", "mydx") if s["own"] else jm.java_toolchain("javac"), s["flags"])
            jm.javac(list(s["srcs"]), s["out"], opts=o)
        else:
            o = jm.java_options(jm.android_toolchain("myjavac", "mydx") if s["own"] else jm.android_toolchain("javac", "dx"))
            jm.dex(outs[0], s["out"], opts=o, deps=list(outs))
    return True


def child(case, sess, log):
    import licant
    import licant.cli
    cxx.use_tools(log)
    flags = ["--%s_toolchain" % case["set"]] if case["set"] and case["setcli"] else []
    if flags:
        licant.cli.parse(flags)
    d = outcome(lambda: declare(case, licant))
    res = {"d": d, "r": []}
    if d["end"] != "ok":
        return res
    core = licant.default_core()
    core.runtime["threads"] = sess["j"]
    for r in sess["reqs"]:
        t = case["steps"][r["t"]]["out"]
        n = len(cxx.read_log(log)[0])
        if r["cli"]:
            argv = flags + ["-j%d" % sess["j"]] + (["binutils", "disasm", t, r["dump"]] if r.get("dump") else [t])
            o = outcome(lambda: licant.ex(None, argv=argv, core=core))
        elif r.get("dump"):
            o = outcome(lambda: core.get("binutils").invoke("disasm", args=[t, r["dump"]]))
        else:
            o = outcome(lambda: core.get(t).invoke("makefile"))
        res["r"].append([n, len(cxx.read_log(log)[0]), o if o["end"] != "ok" else {"end": "ok", "value": o["value"] if isinstance(o["value"], bool) else None}])
    return res


def tick(base):
    newest = 0
    for d, _, fs in os.walk(base):
        for x in fs:
            newest = max(newest, os.lstat(os.path.join(d, x)).st_mtime_ns)
    probe = base + ".probe"
    for _ in range(4000):
        with open(probe, "w"):
            pass
        if os.stat(probe).st_mtime_ns > newest:
            return
        time.sleep(0.001)
    raise HarnessError("file clock does not advance")


def text(name, v):
    return "int source_%s_version_%d;\n" % ("".join(c if c.isalnum() else "_" for c in name), v)


def run(case):
    steps = case["steps"]
    bad = any(s.get("bad") for s in steps)
    partial = False
    with CaseDir() as base:
        w = os.path.join(base, "w")
        root = os.path.join(w, "p")
        for d in ("p/src", "ext"):
            os.makedirs(os.path.join(w, d))

        def full(p):
            return os.path.normpath(os.path.join(root, p))
        ver = {n: 0 for n in case["srcs"]}
        stamp = {n: 0 for n in case["srcs"]}
        made = {}
        clock = 1
        for n in case["srcs"]:
            with open(full(n), "w") as h:
                h.write(text(n, 0))
        for sn, sess in enumerate(case["sessions"]):
            clock += 1
            if sess["edits"] or sess["rm"]:
                tick(w)
            for e in sess["edits"]:
                n = case["srcs"][e]
                ver[n] += 1
                stamp[n] = clock
                with open(full(n), "w") as h:
                    h.write(text(n, ver[n]))
            for t in sess["rm"]:
                if t in made:
                    os.unlink(full(steps[t]["out"]))
                    del made[t]
            log = os.path.join(base, "log%d" % sn)
            ch = in_child(lambda: child(case, sess, log), root, timeout=60)
            v = need_ok(ch, "session")
            calls = cxx.read_log(log)[0]
            if bad:
                if v["d"]["end"] != "exit" or v["d"]["code"] == 0:
                    raise Violation("a step of unknown language is accepted: %s" % v["d"])
                if calls:
                    raise Violation("a rejected description ran %s" % calls)
                return Info(False, "unknown language")
            if v["d"]["end"] != "ok":
                raise Violation("a correct description is rejected: %s" % v["d"])
            for r, (a, b, o) in zip(sess["reqs"], v["r"]):
                t = r["t"]
                what = "process %d, %s of %s" % (sn, "disassembly" if r.get("dump") else "request", steps[t]["out"])
                if not pj.succeeded(o):
                    raise Violation("%s failed: %s\n%s" % (what, o, ch.err[-500:]))
                got = calls[a:b]
                clock += 1
                due = []
                for j in sorted(closure(case, t)):
                    s = steps[j]
                    if j not in made or any(made[x] > made[j] for x in below(s)) or any(stamp[x] > made[j] for x in sources(s)):
                        clock += 1
                        made[j] = clock
                        due.append(j)
                if sn and due and len(due) < len(closure(case, t)):
                    partial = True
                if r.get("dump"):
                    if not got or got[-1].mode != "objdump":
                        raise Violation("%s: no disassembler is run at the end: %s" % (what, got))
                    last, got = got[-1], got[:-1]
                    if last.tool != toolchain_of(case, steps[t])["objdump"] or "-D" not in last.args or len(last.args) != 2 or cp.absolute(last, last.args[-1]) != full(steps[t]["out"]):
                        raise Violation("%s: runs %s" % (what, last))
                    with open(full(steps[t]["out"])) as h, open(full(r["dump"])) as g:
                        if g.read() != "DUMP\n" + h.read():
                            raise Violation("%s: the listing is not of the present object" % what)
                match(case, what, got, due, full)
                for j in closure(case, t):
                    check_text(case, what, j, ver, full)
    used = [case["opts"][s["opt"]] for s in steps if s["opt"] is not None]
    deep = any(any(below(steps[y]) for x in below(s) for y in below(steps[x])) for s in steps)
    return Info(len({repr(sorted(o.items())) for o in used}) > 1 and (deep or partial), deep and "deep", partial and "partial", case["set"] and "default toolchain changed",
                *sorted({"step=" + s["k"] for s in steps} | {"tc=" + o["tc"] for o in used}))


def check_text(case, what, j, ver, full):
    with open(full(case["steps"][j]["out"])) as h:
        got = h.read()
    if case["steps"][j]["k"] == "dep":
        want = [os.path.basename(case["steps"][j]["src"][1])]
    else:
        want = [text(n, ver[n]) for n in all_sources(case, j)]
    for t in want:
        if t not in got:
            raise Violation("%s: %s does not hold %r" % (what, case["steps"][j]["out"], t))


def all_sources(case, j):
    """Sources whose text ends up in the output of step j."""
    s = case["steps"][j]
    out = []
    if s["k"] == "javac":
        return s["srcs"][:1]
    out += sources(s)
    for x in s.get("in", []) + ([s["src"][1]] if s.get("src", [0])[0] == "t" else []):
        out += all_sources(case, x)
    return out


def match(case, what, got, due, full):
    left = list(got)
    for j in due:
        s = case["steps"][j]
        mine = [c for c in left if belongs(case, s, c, full)]
        if len(mine) != 1:
            raise Violation("%s: %s (%s) is run by %s, all commands %s" % (what, s["out"], s["k"], mine, got))
        left.remove(mine[0])
        judge(case, what, s, mine[0], full)
    if left:
        raise Violation("%s: commands nothing asked for: %s; due were %s" % (what, left, [case["steps"][j]["out"] for j in due]))


MODES = {"obj": "c", "dep": "mm", "exe": "link", "dyn": "link", "stat": "ar", "dex": "dx"}


def belongs(case, s, c, full):
    if c.mode != MODES.get(s["k"], s["k"]):
        return False
    if s["k"] in ("dep", "moc", "uic", "javac"):
        return bool(c.inputs) and cp.absolute(c, c.inputs[0]) == full(sources(s)[0])
    return c.out is not None and cp.absolute(c, c.out) == full(s["out"])


def judge(case, what, s, c, full):
    what = "%s: %s runs %s" % (what, s["out"], c)
    tc = toolchain_of(case, s)
    o = case["opts"][s["opt"]] if s["opt"] is not None else {}
    steps, k = case["steps"], s["k"]
    ins = [full(x) for x in sources(s)] + [full(steps[x]["out"]) for x in s.get("in", [])]
    if s.get("src", [0])[0] == "t":
        ins = [full(steps[s["src"][1]]["out"])]

    def same(name, a, b):
        if a != b:
            raise Violation("%s: %s are %s, should be %s" % (what, name, a, b))
    same("inputs", [cp.absolute(c, x) for x in c.inputs], ins)
    if k in ("obj", "dep"):
        if s["type"]:
            lang = "cxx" if s["type"] == "cxx" else "cc"
        else:
            lang = EXT[ins[0].rsplit(".", 1)[1]]
        same("tool", c.tool, tc[lang])
        same("include paths", [x[2:] for x in c.args if x.startswith("-I")], o.get("include_paths", []))
        same("defines", [x[2:] for x in c.args if x.startswith("-D")], o.get("defines", []))
        rest = [x for x in c.opts() if x[:2] not in ("-I", "-D")]
        flags = o.get(lang + "_flags", "").split()
        if k == "dep":
            # whether a header scan is given the optimisation is of no consequence
            rest = [x for x in rest if x not in o.get("optimize", "").split()]
        else:
            flags += o.get("optimize", "").split()
        same("flags", rest, flags)
    elif k in ("exe", "dyn"):
        same("tool", c.tool, tc["cxx"])
        shared = [x for x in c.args if x in ("-shared", "--shared")]
        same("-shared flags", len(shared), int(k == "dyn"))
        same("linker scripts", [x[2:] for x in c.args if x.startswith("-T")], o.get("ldscripts", []))
        libs = o.get("ld_srcs_add", "").split()
        same("libraries", [x for x in c.args if x[:2] in ("-l", "-L")], libs)
        if libs and min(c.args.index(x) for x in libs) < max(c.args.index(x) for x in c.inputs):
            raise Violation(what + ": libraries before objects")
        rest = [x for x in c.opts() if x[:2] not in ("-l", "-L", "-T") and x not in shared and x not in ("-Wl,--start-group", "-Wl,--end-group")]
        same("link flags", rest, o.get("ld_flags", "").split())
    elif k == "stat":
        same("tool", c.tool, tc["ar"])
        same("number of words", len(c.args), 2 + len(ins))
    elif k == "objcopy":
        same("tool", c.tool, tc["objcopy"])
        same("options", sorted(c.args[:-2]), sorted(["-O", s["format"]] + [y for x in s["sections"] for y in ("-j", x)]))
        same("format", c.args[c.args.index("-O") + 1], s["format"])
    elif k in ("moc", "uic"):
        same("tool", c.tool, tc[k])
        same("number of words", len(c.args), 1)
    elif k == "javac":
        same("tool", c.tool, tc["javac"])
        same("flags", [x for x in c.args if x not in c.inputs], s["flags"].split())
    else:
        same("tool", c.tool, tc["dx"])
        same("number of words", len(c.args), 4)
