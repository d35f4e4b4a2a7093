"""C14: options of modules."""
import os

from .. import cxxproj as cp
from ..engine import CaseDir, Info, Violation

ID = "C14"
QUICK, THOROUGH = 3600, 40000
FAKE_TOOLS = True
RULE = """A case is one or two C/C++ products with dependency modules (by name, by implementation, diamonds), included modules and nested submodules
declared by scripts in several directories, every one with random include paths, defines, C/C++/linker flags, libraries, library directories,
linker scripts, standards, optimisation, debug option and toolchain whose values name the module that states them. The project is built with
recording tools and every compile, header-scan and link command is compared with the options the model puts in force for its product or
submodule (exact values, once repetitions are dropped; exact order where dependencies are all explicit or all by name). Non-trivial: some command
carries options of three or more modules, or options reach a submodule from its parent."""


def strategy(tier):
    return cp.project(opts=True)


def corpus():
    m = {"role": "product", "dir": "", "sources": [{"p": "same.c", "how": "plain"}], "deps": [], "incl": [], "subs": [], "type": "application", "builddir": "build_0"}
    yield {"mods": [dict(m, name="p0", target="p0", o={"defines": ["D_p0"]}), dict(m, name="p1", target="p1", o={"defines": ["D_p1"]})],
           "products": [0, 1], "share": False, "j": 1, "order": [0, 1], "request": "set", "finding": ["shared-source", "missing [('p0', 'D_p0')]"]}


def edges(data, i):
    return [d for d, _ in data["mods"][i]["deps"]]


def kind_of_graph(data, i):
    """explicit / name / mixed, over the part reachable from i."""
    how = {e for m in [i] + cp.reach_deps(data["mods"], i) for _, e in data["mods"][m]["deps"]}
    return "none" if not how else "mixed" if len(how) > 1 else "explicit" if True in how else "name"


def values(data, root, key, pairs):
    """Expected values in canonical form: [(module, value)]."""
    out = []
    for i, v in pairs:
        if key in ("include_paths", "ldscripts"):
            v = os.path.normpath(os.path.join(root, data["mods"][i]["dir"], os.path.join(root, v[2:]) if v.startswith("~/") else v))
        elif key == "libdirs":
            v = os.path.normpath(os.path.join(root, os.path.join(root, v[2:]) if v.startswith("~/") else v))
        out.append((i, v))
    return out


PREFIX = {"include_paths": "-I", "defines": "-D", "libs": "-l", "libdirs": "-L", "ldscripts": "-T", "cxx_flags": "-fcxx-", "cc_flags": "-fcc-",
          "ld_flags": "-mld-", "std": "-std=", "optimize": "-O", "debug": "-g"}


def parse(rec):
    """{kind: [values]} of a command; what belongs to no kind under 'other'."""
    got = {k: [] for k in PREFIX}
    got["other"] = []
    args = rec.opts()
    i = 0
    while i < len(args):
        a = args[i]
        for k, p in PREFIX.items():
            if a.startswith(p):
                v = a
                if k in ("include_paths", "libdirs", "ldscripts", "defines", "libs"):
                    v = a[2:]
                    if v == "" and i + 1 < len(args):
                        i += 1
                        v = args[i]
                    if k in ("include_paths", "libdirs", "ldscripts"):
                        v = cp.absolute(rec, v)
                got[k].append(v)
                break
        else:
            got["other"].append(a)
        i += 1
    return got


def check_order(what, got, want, data, order_known):
    """got: values; want: [(module, value)]."""
    vals = cp.dedup([v for _, v in want])
    g = cp.dedup(got)
    if sorted(g) != sorted(vals):
        lost = [(data["mods"][i]["name"], v) for i, v in want if v not in g]
        leak = [v for v in g if v not in vals]
        raise Violation("%s: missing %s, unexpected %s" % (what, lost, leak))
    if order_known:
        if g != vals:
            raise Violation("%s: order %s, expected %s" % (what, g, vals))


def observed_pairs(got, want):
    """Module order seen in a list of values."""
    owner = {}
    for i, v in want:
        owner.setdefault(v, i)
    return cp.dedup([owner[v] for v in cp.dedup(got)])


def run(case):
    data = case
    mods = data["mods"]

    def depend_order(i):
        """Reference order: explicit requests at once and depth first (the last visit counts), names in order of first request."""
        last, names = {}, []
        tick = [0]

        def put(x):
            last[x] = tick[0]
            tick[0] += 1

        def follow(m):
            for d, e in mods[m]["deps"]:
                if e:
                    put(d)
                    follow(d)
                elif d not in last:
                    names.append(d)
        follow(i)
        while names:
            d = names.pop(0)
            if d not in last:
                put(d)
                follow(d)
        return sorted(last, key=last.get)

    kinds = set()
    most = 0
    with CaseDir() as base:
        root = os.path.join(base, "proj")
        os.makedirs(root)
        cp.write_files(data, root)
        cp.write_scripts(data, root)
        calls = cp.build(data, root, os.path.join(base, "log"))
        ctxs = cp.contexts(data, depend_order)
        compiled = {}
        for c in calls:
            if c.mode in ("c", "mm"):
                if len(c.inputs) < 1:
                    raise Violation("a compile command without source: %s" % c)
                compiled.setdefault((c.mode, cp.absolute(c, c.inputs[0])), []).append(c)
        bdirs = {os.path.normpath(os.path.join(root, x["ctx"].one["builddir"])) for x in ctxs}
        moc = cp.mocked(calls)
        uic = {}
        for n, c in enumerate(calls):
            if c.mode == "uic" and c.inputs:
                uic.setdefault(os.path.basename(c.inputs[0]), n)
        links = {cp.absolute(c, c.out): c for c in calls if c.mode in ("link", "ar") and c.out}
        for x in ctxs:
            ctx = x["ctx"]
            bdir = os.path.normpath(os.path.join(root, ctx.one["builddir"]))
            g = kind_of_graph(data, x["mod"])
            kinds.add(g)
            strict = strict_all(data, x)      # the order is prescribed unless names and implementations are mixed
            orders = []

            lh = [(os.path.join(root, mods[i]["dir"], real), virt) for i, (virt, real) in ctx.lists["local_headers"]]
            uis = [u for us in x["line_users"] for i in us for u in mods[i].get("ui", [])]

            def split_generated(what, incs):
                """Include paths without those that serve local and generated headers; these must serve exactly what is in force."""
                special = [p for p in incs if any(p.startswith(b + "/") for b in bdirs)]
                if special and not lh and not uis:
                    raise Violation(what + ": include path %s of another product or submodule" % special)
                for real, virt in lh:
                    for p in special:
                        try:
                            with open(os.path.join(p, virt)) as f, open(real) as g_:
                                if f.read() == g_.read():
                                    break
                        except OSError:
                            pass
                    else:
                        raise Violation(what + ": local header %s is not visible" % virt)
                for _, u in x["ui"]:
                    if not any("ui_" + u[:-3] + ".h" in fs for p in special for _, _, fs in os.walk(p)):
                        raise Violation(what + ": the header of %s is not visible" % u)
                return [p for p in incs if p not in special]

            def compare(what, got, key):
                if key == "include_paths":
                    got = split_generated(what, got)
                want = values(data, root, key, ctx.lists[key])
                check_order(what + " " + key, got, want, data, strict)
                orders.append(observed_pairs(got, want))
                return len({i for i, _ in want})
            cc, cxx_, ar = cp.TOOLCHAINS[ctx.one["toolchain"]]
            todo = [(cp.srcpath(mods[k], e, root), cp.EXTS[e["p"].rsplit(".", 1)[1]]) for k, e in x["sources"]]
            for k, h in x["moc"]:
                if h not in moc:
                    raise Violation("the Qt header %s is not compiled" % h)
                todo += [(cp.absolute(c, c.inputs[0]), "cxx") for c in moc[h] if cp.absolute(c, c.inputs[0]).startswith(bdir + "/")]
            for src, lang in todo:
                for mode in ("c", "mm"):
                    recs = [c for c in compiled.get((mode, src), []) if mode == "mm" or cp.absolute(c, c.out).startswith(bdir + "/")]
                    if mode == "c" and not recs:
                        raise Violation("%s is not compiled for %s" % (src, mods[x["mod"]]["name"]))
                    if mode == "mm" and sum(1 for y in ctxs for k2, e2 in y["sources"] if cp.srcpath(mods[k2], e2, root) == src) > 1:
                        continue       # the command does not show whose it is
                    for c in recs:
                        got = parse(c)
                        late = [u for _, u in x["ui"] if uic.get(u, len(calls)) > calls.index(c)]
                        if late:
                            raise Violation("%s is compiled before the headers of %s are generated" % (src, late))
                        what = "%s of %s for %s (%s)" % ("compilation" if mode == "c" else "header scan", os.path.relpath(src, root), mods[x["mod"]]["name"], c)
                        if c.tool != (cc if lang == "cc" else cxx_):
                            raise Violation(what + ": wrong compiler")
                        n = compare(what, got["include_paths"], "include_paths")
                        n = max(n, compare(what, got["defines"], "defines"))
                        mine, foreign = ("cc_flags", "cxx_flags") if lang == "cc" else ("cxx_flags", "cc_flags")
                        n = max(n, compare(what, got[mine], mine))
                        most = max(most, n)
                        if got[foreign] or got["ld_flags"] or got["libs"] or got["libdirs"] or got["ldscripts"]:
                            raise Violation(what + ": options of another kind of command")
                        if got["other"]:
                            raise Violation(what + ": unknown options %s" % got["other"])
                        stds = allowed_std(data, x, "ccstd" if lang == "cc" else "cxxstd")
                        if not got["std"] or got["std"][-1] not in ["-std=" + s for s in stds]:
                            raise Violation(what + ": standard %s, expected %s" % (got["std"], stds))
                        dbg = [ctx.one["debug"]] if ctx.one["debug"] else []
                        if got["debug"] != dbg:
                            raise Violation(what + ": debug option %s, expected %s" % (got["debug"], dbg))
                        opt = [ctx.one["optimize"]] if ctx.one["optimize"] else []
                        if mode == "c" and got["optimize"] != opt:
                            raise Violation(what + ": optimisation %s, expected %s" % (got["optimize"], opt))
            m = mods[x["mod"]]
            typ = m.get("type", "objects")
            if typ != "objects":
                c = links.get(os.path.normpath(os.path.join(root, m["target"])))
                if c is None:
                    raise Violation("%s is not linked" % m["target"])
                what = "link of %s (%s)" % (m["name"], c)
                if typ == "static_library":
                    if c.tool != ar:
                        raise Violation(what + ": wrong archiver")
                    kinds.add("archive")
                else:
                    got = parse(c)
                    if c.tool != cxx_:
                        raise Violation(what + ": wrong linker")
                    n = 0
                    for key in ("libs", "libdirs", "ldscripts", "ld_flags"):
                        n = max(n, compare(what, got[key], key))
                    most = max(most, n)
                    if got["include_paths"] or got["defines"] or got["cxx_flags"] or got["cc_flags"] or got["std"]:
                        raise Violation(what + ": options of another kind of command")
                    if [a for a in got["other"] if not a.startswith("-Wl,") and a not in ("--shared", "-shared")]:
                        raise Violation(what + ": unknown options %s" % got["other"])
                    if (typ == "shared_library") != any(a in ("--shared", "-shared") for a in got["other"]):
                        raise Violation(what + ": %s" % typ)
            # one order of modules for all kinds of options
            check_consistent(data, x, orders)
    return Info(most >= 3 or any(len(x["users"]) and x["mod"] not in data["products"] and any(x["ctx"].lists.values()) for x in ctxs),
                any(x["ctx"].lists["local_headers"] for x in ctxs) and "local headers", any(x["ui"] or x["moc"] for x in ctxs) and "qt",
                *["graph " + k if k != "archive" else k for k in sorted(kinds)], "contributors=%d" % min(most, 5),
                len(ctxs) > len(data["products"]) and "submodules")


def strict_all(data, x):
    """Order known for the whole line of parents: no mixed graph above."""
    return all(kind_of_graph(data, i) != "mixed" for i in x["line"])


def allowed_std(data, x, key):
    """The standard stated last; with an unknown order, any of the dependency modules' ones."""
    out = None
    for i, users in zip(x["line"], x["line_users"]):
        inc = [i] + cp.included(data, i)
        for k in inc:
            if key in data["mods"][k]["o"]:
                out = [data["mods"][k]["o"][key]]
        deps = [k for k in users if k not in inc]
        stated = [data["mods"][k]["o"][key] for k in deps if key in data["mods"][k]["o"]]
        if stated:
            out = [stated[-1]] if kind_of_graph(data, i) != "mixed" else sorted(set(stated))
    return out or ["c++17" if key == "cxxstd" else "c11"]


def check_consistent(data, x, orders):
    """No two commands of one product see two modules in different orders, and the product comes first."""
    before = set()
    for o in orders:
        if x["mod"] in o and len(x["line"]) == 1 and o[0] != x["mod"]:
            raise Violation("%s: options of its modules %s come before its own" % (data["mods"][x["mod"]]["name"], o))
        for a in range(len(o)):
            for b in range(a + 1, len(o)):
                before.add((o[a], o[b]))
    for a, b in before:
        if (b, a) in before:
            raise Violation("the order of the modules %s and %s differs between options of %s" % (data["mods"][a]["name"], data["mods"][b]["name"],
                                                                                              data["mods"][x["mod"]]["name"]))
