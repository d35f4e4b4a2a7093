"""C21: informational actions."""
import ast
import json
import os
import re

from hypothesis import strategies as st

from .. import cxx
from .. import project as pj
from ..engine import CaseDir, Info, Violation, chance, in_child, need_ok, outcome

ID = "C21"
QUICK, THOROUGH = 3600, 30000
FAKE_TOOLS = True
RULE = """A case is a build description - up to six modules with several implementations and (cyclic) dependencies, a C product of some type with
options, plain, updatable, routine, file and file-set targets with custom actions and dependencies (patterns too), included and registered
libraries - and a sequence of up to nine reports (m list, m print, cxxm collect_modules, included_from and finalopts, l list and included, actlist,
dependies and print of targets) given as command lines or through the objects, some repeated. Every report must say exactly what a model of
the description says; none may run a step or a tool or change a file; after them, in the same process, a target and the product are built, and the
steps, tool calls and files must be those of a twin process that built without reporting. Non-trivial: three or more different reports, one of
which is about a module that is needed by two others, or about a target with dependencies."""

REPORTS = ["mlist", "mlist", "mprint", "collect", "incfrom", "incfrom", "final", "llist", "lincl", "actlist", "dependies", "tprint"]
NAMES = ["all", "run", "up date", "t1", "сборка", "a,b", "x.y"]
ACTS = ["run", "deploy", "list", "x y", "go"]


@st.composite
def cases(draw):
    n = draw(st.integers(0, 6))
    mods = []
    for i in range(n):
        k = draw(st.sampled_from([1, 1, 2, 3]))
        mods.append({"n": k, "sel": draw(st.integers(0, k - 1)), "default": draw(st.integers(0, k - 1)), "impls": []})
    for m in mods:
        for k in range(m["n"]):
            ds = draw(st.lists(st.integers(0, n - 1), max_size=3, unique=True))
            m["impls"].append({"deps": [["t" if chance(draw, 3) else "s", d] for d in ds], "defines": draw(st.lists(st.sampled_from("ABC"), max_size=2, unique=True)),
                               "libs": draw(st.lists(st.sampled_from("xyz"), max_size=1))})
    root = [["t" if mods[d]["sel"] != mods[d]["default"] or chance(draw, 3) else "s", d]
            for d in (draw(st.lists(st.integers(0, n - 1), max_size=4, unique=True)) if n else [])]
    # whatever is chosen against its default is asked for by the product itself
    root += [["t", d] for d in range(n) if mods[d]["sel"] != mods[d]["default"] and d not in [r[1] for r in root]]
    targets = []
    names = draw(st.permutations(NAMES))[:draw(st.integers(0, 5))]
    for i, nm in enumerate(names):
        k = draw(st.sampled_from(["target", "routine", "upd", "file", "set"]))
        deps = sorted(draw(st.sets(st.integers(0, i - 1), max_size=3))) if i else []
        deps = [d for d in deps if targets[d]["k"] != "target"]
        if k == "file" or k == "set":
            deps = [d for d in deps if targets[d]["k"] in ("file", "set")]
        acts = draw(st.lists(st.sampled_from(ACTS), unique=True, max_size=2)) if k != "routine" else []
        targets.append({"k": k, "name": nm, "deps": deps, "acts": acts, "glob": chance(draw, 4) and k in ("upd", "file", "set"), "src": chance(draw, 2) and k == "file"})
    reps = []
    for _ in range(draw(st.integers(3, 10))):
        r = {"k": draw(st.sampled_from(REPORTS)), "a": draw(st.integers(0, 7)), "b": draw(st.integers(0, 3)), "cli": draw(st.booleans())}
        reps.append(r)
        if chance(draw, 5):
            reps.append(dict(r))
    return {"mods": mods, "root": root, "type": draw(st.sampled_from(["application", "objects", "static_library", "shared_library"])),
            "opts": draw(st.sampled_from([{}, {"cxxstd": "c++20"}, {"defines": ["P"], "builddir": "b/d"}, {"libs": ["m"], "cc_flags": "-Wall"},
                                          {"optimize": "-O2", "debug": ""}])),
            "libs": [["lib%d" % i, draw(st.sampled_from(["user", "path", "both", "no"]))] for i in range(draw(st.integers(0, 3)))],
            "targets": targets, "reports": reps, "default": draw(st.booleans()), "build": draw(st.integers(0, 9))}


def strategy(tier):
    return cases()


def impl(m, k):
    return "__default__" if m["n"] == 1 else "i%d" % k


class Model:
    def __init__(self, case):
        self.c, self.mods = case, case["mods"]

    def deps(self, i):
        """Dependencies of the chosen implementation of module i (or of the product, None)."""
        return [d[1] for d in (self.c["root"] if i is None else self.mods[i]["impls"][self.mods[i]["sel"]]["deps"])]

    def resolved(self, start=None):
        out, todo = [], list(self.deps(start))
        while todo:
            x = todo.pop()
            if x not in out:
                out.append(x)
                todo += self.deps(x)
        return sorted(out)

    def plain(self, i):
        """Can module i be a root of its own? All it needs has its default chosen."""
        return all(self.mods[x]["sel"] == self.mods[x]["default"] for x in self.resolved(i) + [i])


def pname(case):
    return "prod" if case["type"] == "objects" else "prod__module"


def declare(case, log):
    import licant
    core = licant.default_core()
    for i, m in enumerate(case["mods"]):
        for k in range(m["n"]):
            im = m["impls"][k]
            kw = {"mdepends": [("m%d" % d, impl(case["mods"][d], case["mods"][d]["sel"])) if how == "t" else "m%d" % d for how, d in im["deps"]],
                  "sources": ["m%d_%d.c" % (i, k)]}
            if im["defines"]:
                kw["defines"] = ["M%d%d%s" % (i, k, d) for d in im["defines"]]
            if im["libs"]:
                kw["libs"] = ["m%d%s" % (i, x) for x in im["libs"]]
            if m["n"] == 1:
                licant.module("m%d" % i, **kw)
            else:
                licant.module("m%d" % i, impl(m, k), default=k == m["default"], **kw)
    for name, how in case["libs"]:
        if how == "path" or how == "both":
            licant.include(name, path=name + ".g.py")
        elif how == "user":
            licant.include(name)
    f = {"application": licant.cxx_application, "objects": licant.cxx_objects, "static_library": licant.cxx_static_library,
         "shared_library": licant.cxx_shared_library}[case["type"]]
    f("prod", sources=["main.c"], mdepends=[("m%d" % d, impl(case["mods"][d], case["mods"][d]["sel"])) if how == "t" else "m%d" % d
                                            for how, d in case["root"]], **case["opts"])
    for t in case["targets"]:
        nm = t["name"]
        deps = [case["targets"][d]["name"] for d in t["deps"]] + (["in/*.in"] if t["glob"] else [])
        kw = {a: (lambda s, *args, a=a, nm=nm: log([nm, a])) for a in t["acts"]}
        if t["k"] == "target":
            core.target(nm, deps=deps, action=lambda s, nm=nm: log([nm, "action"]), actions=set(t["acts"]), **kw)
        elif t["k"] == "routine":
            core.routine(lambda *a, nm=nm: log([nm, "routine"]), tgt=nm, deps=deps)
        elif t["k"] == "upd":
            core.updtarget(nm, deps=deps, update=lambda s, nm=nm: log([nm, "update"]), update_if=lambda s: True, actions=t["acts"], **kw)
        elif t["k"] == "file":
            if t["src"]:
                licant.source("in/s.txt")

            def build(s, nm=nm):
                log([nm, "build"])
                with open(s.tgt, "w") as h:
                    h.write(nm)
            core.add(licant.FileTarget(nm, build=build, deps=deps + (["in/s.txt"] if t["src"] else []), actions=t["acts"], **kw))
        else:
            licant.fileset(nm, targets=deps, actions=t["acts"], **kw)
    return True


BASE = {"target": {"actlist", "print", "dependies"},
        "routine": {"recurse_update", "recurse_update_get_args", "invoke_routine", "update", "actlist"},
        "upd": {"actlist", "print", "dependies", "recurse_update", "recurse_update_get_args", "update", "update_if_need"}}
BASE["set"] = BASE["upd"] | {"makefile", "clean"}
BASE["file"] = BASE["set"] | {"build", "clr"}


def words(case, r):
    """The command line of a report; None if there is nothing to report on."""
    k, mods, T = r["k"], case["mods"], case["targets"]
    md = Model(case)
    if k == "mlist":
        return ["m", "list"] + [[], ["1|3"], ["m[0-2]$"], ["od"]][r["b"]]
    if k == "mprint":
        if not mods or r["b"] == 0:
            return ["m", "print", pname(case)]
        i = r["a"] % len(mods)
        return ["m", "print", "m%d" % i] + ([] if r["b"] == 1 else [impl(mods[i], r["a"] % mods[i]["n"])])
    if k in ("collect", "incfrom"):
        roots = [None] + [i for i in range(len(mods)) if md.plain(i)]
        i = roots[r["a"] % len(roots)]
        return ["cxxm", {"collect": "collect_modules", "incfrom": "included_from"}[k], pname(case) if i is None else "m%d" % i]
    if k == "final":
        return ["cxxm", "finalopts"] + ([] if case["default"] and r["b"] == 0 and r["cli"] else ["prod"])
    if k in ("llist", "lincl"):
        return ["l", {"llist": "list", "lincl": "included"}[k]]
    if not T:
        return None
    t = T[r["a"] % len(T)]
    if k == "actlist":
        # the routines take all further words as arguments
        return None if t["k"] == "routine" and r["cli"] else [t["name"], "actlist"]
    if t["k"] == "routine":
        return None
    return [t["name"], "dependies" if k == "dependies" else "print"]


def child(case, report):
    import licant
    import licant.libs
    licant.libs.gpath, licant.libs.lpath = os.path.abspath("../nothing"), os.path.abspath("../registry")
    cxx.use_tools(os.path.abspath("../tools.log"))
    log = []
    d = outcome(lambda: declare(case, log.append))
    if d["end"] != "ok":
        return {"d": d}
    core = licant.default_core()
    core.runtime["threads"] = 2
    default = "prod" if case["default"] else None
    res = {"d": d, "reports": []}
    before = pj.tree(".")
    for n, r in enumerate(case["reports"] if report else []):
        w = words(case, r)
        if w is None:
            continue
        print("\n@@BEGIN%d" % n)
        if r["cli"]:
            o = outcome(lambda: licant.ex(default, argv=list(w), core=core))
        else:
            o = outcome(lambda: core.get(w[0]).invoke(w[1], args=w[2:]) and None)
        print("@@END%d" % n)
        res["reports"].append([n, w, o])
    res["same"] = pj.tree(".") == before
    res["log"], log[:] = list(log), []
    res["tools"] = len(cxx.read_log(os.path.abspath("../tools.log"))[0])
    res["b"] = []
    T = [t for t in case["targets"]]
    goals = ["prod"] + [T[(case["build"] + i) % len(T)]["name"] for i in range(min(3, len(T)))]
    for g in goals:
        res["b"].append(outcome(lambda: licant.ex(default, argv=["-j2", g], core=core)))
    res["blog"] = sorted(log)
    return res


def setup(case, base):
    root = os.path.join(base, "p")
    os.makedirs(os.path.join(root, "in"))
    files = ["main.c", "in/a.in", "in/b.in", "in/s.txt"] + ["m%d_%d.c" % (i, k) for i, m in enumerate(case["mods"]) for k in range(m["n"])]
    for f in files:
        with open(os.path.join(root, f), "w") as h:
            h.write("int %s;\n" % re.sub(r"\W", "_", f))
    for name, _ in case["libs"]:
        with open(os.path.join(root, name + ".g.py"), "w") as h:
            h.write("import licant\nlicant.module(%r + 'mod', defines=['L'])\n" % name)
    with open(os.path.join(base, "registry"), "w") as h:
        json.dump({n: os.path.join(root, n + ".g.py") for n, how in case["libs"] if how in ("user", "both", "no")}, h)
    return root


def run(case):
    md = Model(case)
    with CaseDir() as base:
        res = []
        for twin in (True, False):
            b = os.path.join(base, "x")
            os.mkdir(b)
            root = setup(case, b)
            ch = in_child(lambda: child(case, twin), root, timeout=40)
            v = need_ok(ch, "reports")
            if v["d"]["end"] != "ok":
                raise Violation("a correct description is not accepted: %s" % v["d"])
            calls = sorted(repr(c) for c in cxx.read_log(os.path.join(b, "tools.log"))[0])
            tree = {k: x[:2] for k, x in pj.tree(root).items()}
            res.append((v, calls, tree, ch.out.decode("utf-8", "replace")))
            os.rename(b, os.path.join(base, "done%d" % twin))
        v, calls, tree, said = res[0]
        for n, w, o in v["reports"]:
            what = "report %s (%s)" % (w, "command line" if case["reports"][n]["cli"] else "object")
            if not (o["end"] == "ok" or o["end"] == "exit" and o["code"] == 0):
                raise Violation("%s failed: %s" % (what, o))
            text = said.split("@@BEGIN%d\n" % n)[1].split("@@END%d\n" % n)[0]
            judge(case, md, case["reports"][n], w, text, what, os.path.join(base, "x", "p"))
        if v["log"] or v["tools"]:
            raise Violation("reports ran %s and %d tools" % (v["log"], v["tools"]))
        if not v["same"]:
            raise Violation("reports changed files")
        t = res[1]
        if not all(pj.succeeded(o) for o in t[0]["b"]) and not any(x["k"] == "target" for x in case["targets"]):
            raise Violation("the description does not build: %s" % t[0]["b"])
        if [o["end"] for o in v["b"]] != [o["end"] for o in t[0]["b"]] or v["blog"] != t[0]["blog"] or calls != t[1] or tree != t[2]:
            raise Violation("a build after reports differs from one without: %s / %s, %s / %s" % (v["b"], t[0]["b"], v["blog"], t[0]["blog"]))
    kinds = {case["reports"][n]["k"] for n, _, _ in v["reports"]}
    twice = any(sum(x in md.deps(i) for i in md.resolved() + [None]) > 1 for x in md.resolved())
    return Info(len(kinds) >= 3 and (twice and kinds & {"incfrom", "collect"} or any(t["deps"] for t in case["targets"])), *sorted("report=" + k for k in kinds),
                twice and "module needed twice", case["type"])


def lit(text, what):
    try:
        return ast.literal_eval(text.strip())
    except (ValueError, SyntaxError):
        raise Violation("%s says %r" % (what, text))


def judge(case, md, r, w, text, what, root):
    mods, T = case["mods"], case["targets"]
    lines = text.splitlines()

    def same(got, want):
        if got != want:
            raise Violation("%s says %s, should say %s" % (what, got, want))
    k = r["k"]
    if k == "mlist":
        want = {"m%d" % i: [impl(m, j) for j in range(m["n"])] for i, m in enumerate(mods)}
        want[pname(case)] = ["__default__"]
        for name, how in case["libs"]:
            if how != "no":
                want[name + "mod"] = ["__default__"]
        if len(w) > 2:
            want = {a: b for a, b in want.items() if re.search(w[2], a)}
        got = {}
        for l in lines:
            a, b = l.split(": ", 1)
            got[a] = sorted(lit(b, what))
        same(got, {a: sorted(b) for a, b in want.items()})
        same([l.split(": ")[0] for l in lines], sorted(want))
    elif k == "mprint":
        got = lit(text, what)
        same(got.get("name"), w[2])
        if w[2].startswith("m"):
            i = int(w[2][1:])
            m = mods[i]
            j = [impl(m, x) for x in range(m["n"])].index(w[3]) if len(w) > 3 else m["default"]
            same(got.get("impl"), impl(m, j))
            o = got["opts"]
            same(o["sources"], ["m%d_%d.c" % (i, j)])
            same(sorted(o.get("defines", [])), sorted("M%d%d%s" % (i, j, d) for d in m["impls"][j]["defines"]))
            same([x if isinstance(x, str) else x[0] for x in o["mdepends"]], ["m%d" % d for _, d in m["impls"][j]["deps"]])
    elif k in ("collect", "incfrom"):
        start = None if w[2] == pname(case) else int(w[2][1:])
        need = md.resolved(start)
        if start is not None and start in need:
            # a root that is needed again: as a module, too
            pass
        if k == "collect":
            same(lines, sorted("m%d:%s" % (i, impl(mods[i], mods[i]["sel"])) for i in need))
        else:
            want = {}
            for i in need:
                want["m%d" % i] = {"m%d" % x for x in need + ([start] if start is not None else []) if i in md.deps(x)}
                if start is None and i in md.deps(None):
                    want["m%d" % i].add(pname(case))
            got = {}
            for l in lines:
                a, b = l.split(" : ", 1)
                got[a] = set(lit(b, what))
            same(got, want)
            same([l.split(" : ")[0] for l in lines], sorted(want))
    elif k == "final":
        got = lit(text, what)
        need = md.resolved()
        chosen = [(i, mods[i]["sel"]) for i in need]
        same(sorted(os.path.basename(s) for s in got["sources"]), sorted(["main.c"] + ["m%d_%d.c" % c for c in chosen]))
        same(sorted(got["defines"]), sorted(case["opts"].get("defines", []) + ["M%d%d%s" % (i, j, d) for i, j in chosen for d in mods[i]["impls"][j]["defines"]]))
        same(sorted(got["libs"]), sorted(case["opts"].get("libs", []) + ["m%d%s" % (i, x) for i, j in chosen for x in mods[i]["impls"][j]["libs"]]))
        for o, d in (("cxxstd", "c++17"), ("builddir", "build"), ("optimize", ""), ("debug", "-g"), ("ccstd", "c11")):
            same(got[o], case["opts"].get(o, d))
        same(got["cc_flags"].split(), case["opts"].get("cc_flags", "").split())
        same(got["type"], case["type"])
    elif k == "llist":
        same(sorted(lines), sorted("%s: %s" % (n, os.path.join(root, n + ".g.py")) for n, how in case["libs"] if how in ("user", "both", "no")))
    elif k == "lincl":
        same(sorted(lines), sorted("%s: %s" % (n, n + ".g.py" if how != "user" else os.path.join(root, n + ".g.py")) for n, how in case["libs"] if how != "no"))
    else:
        t = [x for x in T if x["name"] == w[0]][0]
        deps = [T[d]["name"] for d in t["deps"]] + (["in/*.in"] if t["glob"] else []) + (["in/s.txt"] if t["src"] else [])
        deps = [x for d in deps for x in (["in/a.in", "in/b.in"] if "*" in d else [d])]
        if k == "actlist":
            same(lit(text, what), sorted(BASE[t["k"]] | set(t["acts"])))
        elif k == "dependies":
            same(sorted(lit(text, what)), sorted(deps))
        else:
            name = os.path.join(root, t["name"]) if t["k"] == "file" else t["name"]
            if "'tgt': %r" % name not in text or not any("'deps': %r" % p in text for p in perms(deps)):
                raise Violation("%s says %s" % (what, text[:400]))


def perms(deps):
    if "in/a.in" not in deps:
        return [deps]
    a, b = deps.index("in/a.in"), deps.index("in/b.in")
    other = list(deps)
    other[a], other[b] = other[b], other[a]
    return [deps, other]
