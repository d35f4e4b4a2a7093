"""Generated C/C++ projects (C14, C15): products, dependency modules, included modules, submodules, spread over scripts.

Plain data:
  mods: [{"name", "dir", "impl"?, "srcdir"?, "sources": [entry], "prebuilt": [..], "o": options, "deps": [..], "incl": [..], "subs": [..],
          "type"?, "target"?}]       dir is the directory of the script that declares the module
  entry: {"p": path relative to dir/srcdir, "how": plain|glob|abs|tilde}
  products: indices into mods; deps: [[index, by implementation?]]
Options carry tokens unique to module and field, so that a command line shows where each came from.
"""
import os

from hypothesis import strategies as st

from .engine import chance
from .project import SAY

DIRS = ["", "", "lib", "lib/inner", "other", "../ext"]
EXTS = {"c": "cc", "cpp": "cxx", "cxx": "cxx", "cc": "cxx", "s": "cc", "S": "cc", "asm": "cc"}
TOOLCHAINS = {
    "std": ("cc", "c++", "ar"), "gcc": ("gcc", "g++", "ar"), "x-gcc": ("x-gcc", "x-g++", "x-ar"), "clang": ("clang", "clang++", "ar"),
    "custom": ("mycc", "mycxx", "myar"), "binutils": ("x-gcc", "x-g++", "x-ar"),
}
LISTS = ("include_paths", "defines", "libs", "libdirs", "ldscripts", "local_headers")
FLAGS = ("cxx_flags", "cc_flags", "ld_flags")


@st.composite
def options(draw, tag, opts, heavy=True):
    """Options of one module."""
    o = {}
    menu = ["include_paths", "defines", "cxx_flags", "cc_flags", "ld_flags", "libs", "libdirs", "ldscripts", "cxxstd", "ccstd", "optimize", "debug"]
    if not opts:
        menu = ["include_paths", "defines"]
    elif chance(draw, 4):
        menu = menu + ["local_headers"]
    for f in menu:
        if draw(st.integers(0, 2)):
            continue
        if f == "include_paths":
            o[f] = [draw(st.sampled_from(["inc_%s", "./in/inc_%s", "../up_%s", "/abs/inc_%s", "~/inc_%s"])) % (tag + "x" * k) for k in range(draw(st.integers(1, 2)))]
        elif f == "defines":
            o[f] = [draw(st.sampled_from(["D_%s", "V_%s=1", "S_%s=-5"])) % (tag + "x" * k) for k in range(draw(st.integers(1, 2)))]
        elif f in FLAGS:
            pre = {"cxx_flags": "-fcxx-", "cc_flags": "-fcc-", "ld_flags": "-mld-"}[f]
            o[f] = " ".join(pre + tag + "x" * k for k in range(draw(st.integers(1, 2))))
        elif f == "libs":
            o[f] = ["l" + tag + "x" * k for k in range(draw(st.integers(1, 2)))]
        elif f == "libdirs":
            o[f] = [draw(st.sampled_from(["ld_%s", "/opt/ld_%s", "~/ld_%s"])) % tag]
        elif f == "ldscripts":
            o[f] = [draw(st.sampled_from(["scr_%s.ld", "./s/%s.ld", "/abs/%s.ld"])) % tag]
        elif f == "cxxstd":
            o[f] = draw(st.sampled_from(["c++11", "c++14", "c++17", "c++20"]))
        elif f == "ccstd":
            o[f] = draw(st.sampled_from(["c99", "c11", "c17", "gnu11"]))
        elif f == "optimize":
            o[f] = draw(st.sampled_from(["-O0", "-O1", "-O2", "-O3", "-Os"]))
        elif f == "local_headers":
            o[f] = [["%sloc_%s.h" % (draw(st.sampled_from(["", "v/"])), tag + "x" * k), "lh_%s.h" % (tag + "x" * k)] for k in range(draw(st.integers(1, 2)))]
        elif f == "debug":
            o[f] = draw(st.sampled_from(["", "-g3", "-g0"]))
    return o


@st.composite
def sources(draw, tag, lo, hi, rich):
    out = []
    for k in range(draw(st.integers(lo, hi))):
        ext = draw(st.sampled_from(["c", "cpp", "c", "cpp", "cxx", "cc"] + (["s", "S", "asm"] if rich else [])))
        d = draw(st.sampled_from(["", "", "a", "a/b", "..", "../src_" + tag]) if rich else st.sampled_from(["", "a"]))
        name = "%s%d" % (tag, k)
        if rich and k and chance(draw, 3):
            # a path much like the one before: same stem, perhaps same directory; or a directory that only looks like '..'
            name = "%s%d" % (tag, k - 1)
            if draw(st.booleans()):
                prev = out[-1]["p"]
                d, name = os.path.split(prev)
                d, name = draw(st.sampled_from([d.replace("..", "__") or "__", "__", "___", "____", "..", "_"])), name.rsplit(".", 1)[0]
                ext = draw(st.sampled_from([prev.rsplit(".", 1)[1], ext]))
        elif rich and chance(draw, 8):
            name = "%s%d%sz" % (tag, k // 2, "__" if k % 2 else "..")
        if rich and chance(draw, 8):
            name = name + draw(st.sampled_from([".tab", ".x.y", "+", "@2", "=", "%", ",", "-x"]))
        out.append({"p": os.path.join(d, name + "." + ext), "how": "plain"})
    seen, res = set(), []
    for e in out:
        if e["p"] not in seen:
            seen.add(e["p"])
            res.append(e)
    if rich:
        for e in res:
            if draw(st.integers(0, 5)) == 0:
                e["how"] = draw(st.sampled_from(["abs", "tilde"]))
        if chance(draw, 10):
            # its path relative to the project is the absolute path of another source
            a = [e for e in res if e["how"] == "abs"]
            if a:
                res.append({"p": a[0]["p"], "how": "shadow"})
        if chance(draw, 3):
            # a whole directory by pattern
            d = "glob_" + tag
            for k in range(draw(st.integers(1, 3))):
                res.append({"p": "%s/g%d.%s" % (d, k, draw(st.sampled_from(["c", "cpp"]))), "how": "glob"})
    return res


@st.composite
def project(draw, opts=True, rich=False):
    """opts: options everywhere; rich: many kinds of sources."""
    mods = []

    def add(role, tag, **kw):
        m = {"name": "%s%d" % (tag, len(mods)), "role": role, "dir": draw(st.sampled_from(DIRS)), "sources": [], "o": {}, "deps": [], "incl": [], "subs": []}
        m.update(kw)
        mods.append(m)
        return len(mods) - 1

    def subtree(parent, depth, plain=False):
        """plain: without files of its own, so that several products can have it."""
        for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]) if depth < 2 else st.just(0))):
            i = add("sub", "s")
            m = mods[i]
            t = "s%d" % i
            m["sources"] = draw(sources(t, 0 if depth else 1, 2, rich))
            m["o"] = draw(options(t, opts))
            if not plain and chance(draw, 3):
                m["type"] = draw(st.sampled_from(["static_library", "shared_library", "objects"]))
                if m["type"] != "objects":
                    m["target"] = draw(st.sampled_from(["lib%s.a", "bin/lib%s.so"])) % t
            if not plain and chance(draw, 6):
                m["builddir"] = "sub_build_%d" % i
            if opts and chance(draw, 8):
                m["toolchain"] = draw(st.sampled_from(sorted(TOOLCHAINS)))
            if chance(draw, 4):
                m["srcdir"] = "sd_" + t
            if headers and chance(draw, 3):
                m["deps"] = [[h, draw(st.booleans())] for h in draw(st.lists(st.sampled_from(headers), unique=True, max_size=2))]
            mods[parent]["subs"].append(i)
            subtree(i, depth + 1, plain)
    # modules without sources, usable from anywhere
    headers = [add("header", "h", o=None) for _ in range(draw(st.integers(0, 2)))]
    for h in headers:
        mods[h]["o"] = draw(options("h%d" % h, opts))
    # dependency modules
    deps = []
    for _ in range(draw(st.integers(0, 4))):
        i = add("dep", "d")
        m = mods[i]
        m["sources"] = draw(sources("d%d" % i, 0, 2, rich))
        m["o"] = draw(options("d%d" % i, opts))
        if chance(draw, 3):
            m["impl"] = "impl"
        if chance(draw, 4):
            m["srcdir"] = "sd_d%d" % i
        if deps or headers:
            m["deps"] = [[x, draw(st.booleans())] for x in draw(st.lists(st.sampled_from(deps + headers), unique=True, max_size=2))]
        deps.append(i)
    incl = []
    nprod = draw(st.sampled_from([1, 1, 2]))
    products = []
    together = nprod > 1 and draw(st.booleans())      # products share submodules
    for n in range(nprod):
        i = add("product", "p")
        m = mods[i]
        t = "p%d" % i
        m["type"] = draw(st.sampled_from(["application", "application", "shared_library", "static_library", "objects"]))
        m["target"] = draw(st.sampled_from(["%s", "bin/%s", "bin/deep/%s.out", "lib/%s.a"])) % t
        m["sources"] = draw(sources(t, 0 if deps else 1, 3, rich))
        m["o"] = draw(options(t, opts))
        m["builddir"] = draw(st.sampled_from(["build_%d", "build_%d/obj", "./out/../bb_%d"])) % n
        if chance(draw, 4):
            m["srcdir"] = draw(st.sampled_from(["sd_" + t, ".", "x/.."]))
        if chance(draw, 2):
            m["toolchain"] = draw(st.sampled_from(sorted(TOOLCHAINS)))
        pool = deps + headers
        if pool:
            m["deps"] = [[x, draw(st.booleans())] for x in draw(st.lists(st.sampled_from(pool), unique=True, max_size=3))]
        for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
            k = add("incl", "i")
            mods[k]["sources"] = draw(sources("i%d" % k, 0, 2, rich))
            mods[k]["o"] = draw(options("i%d" % k, opts))
            owner = incl[-1] if incl and chance(draw, 2) and incl[-1] in reach_incl(mods, i) else i
            mods[owner]["incl"].append(k)
            incl.append(k)
            if chance(draw, 3):
                # included on two ways
                o2 = [x for x in [i] + sorted(reach_incl(mods, i)) if x != k and k not in mods[x]["incl"]]
                if o2:
                    mods[draw(st.sampled_from(o2))]["incl"].append(k)
        subtree(i, 0, together)
        if together and products and mods[products[0]]["subs"]:
            m["subs"] += draw(st.lists(st.sampled_from(mods[products[0]]["subs"]), unique=True, max_size=2))
        if rich:
            m["variant"] = draw(st.sampled_from(["plain", "plain", "library", "positional", "noname", "both"]))
        products.append(i)
    # dependency modules with submodules
    for d in deps:
        users = [p for p in products if d in reach_deps(mods, p)]
        if (len(users) <= 1 or together) and chance(draw, 4):
            subtree(d, 1, len(users) > 1)
    if rich and not opts and chance(draw, 3) and not any(m.get("builddir") for m in mods if m["role"] == "sub"):
        # one submodule on two ways
        for k in [i for i, m in enumerate(mods) if m["role"] == "sub"][:1 + draw(st.integers(0, 2))]:
            kin = {k} | reach_subs(mods, k)
            holders = [p for p in products if k in reach_subs(mods, p)]
            if len(holders) == 1 and "target" not in mods[k]:
                others = [i for i in {holders[0]} | reach_subs(mods, holders[0]) if i not in kin and k not in mods[i]["subs"] and mods[i]["role"] in ("product", "sub")]
                if others:
                    mods[draw(st.sampled_from(sorted(others)))]["subs"].append(k)
    if rich:
        for m in mods:
            if m["sources"] and chance(draw, 6):
                m["again"] = draw(st.lists(st.tuples(st.sampled_from(["same", "dot", "dotdot", "pattern"]), st.integers(0, 5)), min_size=1, max_size=3))
        for i, m in enumerate(mods):
            if m["role"] != "header" and chance(draw, 8):
                m["prebuilt"] = ["pre_%s_%d.o" % (m["name"], k) for k in range(draw(st.integers(1, 2)))]
    if opts or rich:
        for i, m in enumerate(mods):
            if m["role"] != "header" and chance(draw, 15):
                if draw(st.booleans()):
                    m["moc"] = ["qt_%s%d%s" % (m["name"], k, draw(st.sampled_from([".h", ".hpp"]))) for k in range(draw(st.integers(1, 2)))]
                else:
                    m["ui"] = ["qt_%s%d.ui" % (m["name"], k) for k in range(draw(st.integers(1, 2)))]
        qt = [m for m in mods if m.get("ui") or m.get("moc")]
        if qt:
            for m in mods:
                if m.get("toolchain") in ("custom", "binutils"):      # these have no Qt tools
                    m["toolchain"] = "gcc"
    if chance(draw, 3):
        # submodules and included modules that are implementations of one name
        for i, m in enumerate(mods):
            if m["role"] in ("sub", "incl") and draw(st.booleans()):
                m["as"] = draw(st.sampled_from(["var", "var", "var2"]))
    share = draw(st.booleans())
    return {"mods": mods, "products": products, "share": share, "j": draw(st.integers(1, 3)), "say": draw(SAY), "order": draw(st.permutations(list(range(len(mods))))),
            "request": draw(st.sampled_from(["set", "each"]))}


def reach_incl(mods, i):
    out, todo = set(), [i]
    while todo:
        x = todo.pop()
        for k in mods[x]["incl"]:
            out.add(k)
            todo.append(k)
    return out


def reach_subs(mods, i):
    """Submodules below i, those of its dependency modules too."""
    out, todo = set(), [i]
    while todo:
        x = todo.pop()
        for y in [x] + reach_deps(mods, x):
            todo += [k for k in mods[y]["subs"] if k not in out]
            out.update(mods[y]["subs"])
    return out


def reach_deps(mods, i):
    out, todo = [], [i]
    while todo:
        x = todo.pop(0)
        for k, _ in mods[x]["deps"]:
            if k not in out:
                out.append(k)
                todo.append(k)
    return out


# ------------------------------------------------------------------ files and scripts
def srcpath(m, e, root):
    """Absolute path of a source."""
    if e["how"] == "shadow":
        return os.path.join(root, srcpath(m, dict(e, how="abs"), root).lstrip("/"))
    return os.path.normpath(os.path.join(root, m["dir"], m.get("srcdir", ""), e["p"]))


def spelled(m, e, root):
    if e["how"] == "abs":
        return srcpath(m, e, root)
    if e["how"] == "shadow":
        return os.path.relpath(srcpath(m, e, root), os.path.join(root, m["dir"], m.get("srcdir", "")))
    if e["how"] == "tilde":
        return "~/" + os.path.relpath(srcpath(m, e, root), root)
    return e["p"]


def write_files(data, root):
    for m in data["mods"]:
        os.makedirs(os.path.join(root, m["dir"], m.get("srcdir", "")), exist_ok=True)
        for e in m["sources"]:
            p = srcpath(m, e, root)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write("int in_%s;\n" % m["name"])
        for _, x in m["o"].get("local_headers", []):
            with open(os.path.join(root, m["dir"], x), "w") as f:
                f.write("/* local header %s */\n" % x)
        for x in m.get("ui", []) + m.get("moc", []):
            p = os.path.join(root, m["dir"], m.get("srcdir", ""), x)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write("/* qt %s */\n" % x)
        for x in m.get("prebuilt", []):
            with open(os.path.join(root, m["dir"], m.get("srcdir", ""), x), "w") as f:
                f.write("PREBUILT\n")


def kwargs_of(data, i, root, shared):
    """Keyword arguments that declare module i."""
    import licant
    import licant.cxx_make as cm
    m = data["mods"][i]
    kw = {}
    for k, v in m["o"].items():
        if isinstance(v, list):
            key = (k, tuple(map(str, v)))
            if k == "local_headers":
                v = [tuple(x) for x in v]
            kw[k] = shared.setdefault(key, list(v)) if data["share"] else list(v)
        else:
            kw[k] = v
    srcs, globs = [], set()
    for e in m["sources"]:
        if e["how"] == "glob":
            g = os.path.join(os.path.dirname(e["p"]), "*." + e["p"].rsplit(".", 1)[1])
            if g not in globs:
                globs.add(g)
                srcs.append(g)
        else:
            srcs.append(spelled(m, e, root))
    for how, n in m.get("again", []):        # the same files once more
        e = m["sources"][n % len(m["sources"])]
        d, b = os.path.split(e["p"])
        if how == "same" or e["how"] != "plain":
            srcs.append(srcs[n % len(srcs)])
        elif how == "dot":
            srcs.append("./" + e["p"])
        elif how == "dotdot":
            srcs.append(os.path.join(d, "..", os.path.basename(os.path.dirname(srcpath(m, e, root))), b))
        else:
            srcs.append(os.path.join(d, b[:-1] + "*"))
    if srcs or i % 2:
        kw["sources"] = srcs
    for k, n in (("ui", "qt_ui"), ("moc", "qt_moc")):
        if m.get(k):
            kw[n] = list(m[k])
    if "srcdir" in m:
        kw["srcdir"] = m["srcdir"]
    if m.get("prebuilt"):
        kw["objects"] = list(m["prebuilt"]) * (1 + bool(m.get("again")))
    if "builddir" in m:
        kw["builddir"] = m["builddir"]
    tc = m.get("toolchain")
    if tc:
        kw["toolchain"] = {"std": cm.standart_toolchain, "gcc": licant.gcc_toolchain, "x-gcc": lambda: licant.gcc_toolchain("x-"),
                           "clang": licant.clang_toolchain, "binutils": lambda: cm.make_gcc_binutils("x"),
                           "custom": lambda: cm.toolchain(cxx="mycxx", cc="mycc", ld="ld", ar="myar", objdump="objdump")}[tc]()
    mods = data["mods"]
    if m["deps"]:
        kw["mdepends"] = [(mods[d]["name"], mods[d].get("impl", "__default__")) if expl else mods[d]["name"] for d, expl in m["deps"]]
    if m["incl"]:
        kw["include_modules"] = [(mods[d]["as"], "v%d" % d) if mods[d].get("as") else mods[d]["name"] if d % 2 else (mods[d]["name"], mods[d].get("impl", "__default__")) for d in m["incl"]]
    if m["subs"]:
        kw["modules"] = [(licant.submodule((mods[d]["as"], "v%d" % d)) if d % 2 else licant.submodule(mods[d]["as"], "v%d" % d)) if mods[d].get("as")
                         else licant.submodule(mods[d]["name"]) for d in m["subs"]]
    return kw


def write_scripts(data, root):
    """One script for each module that is not declared by the main one."""
    for i, m in enumerate(data["mods"]):
        if m["dir"]:
            with open(os.path.join(root, m["dir"], "decl%d.g.py" % i), "w") as f:
                f.write("import pbt.cxxproj\npbt.cxxproj._one(%d)\n" % i)


def declare(data, root):
    """Describe the project: every module in a script in its directory."""
    import licant
    shared = {}
    mods = data["mods"]

    def one(i):
        m = mods[i]
        kw = kwargs_of(data, i, root, shared)
        if m["role"] == "product":
            f = {"application": licant.cxx_application, "shared_library": licant.cxx_shared_library, "static_library": licant.cxx_static_library,
                 "objects": licant.cxx_objects}[m["type"]]
            v = m.get("variant")
            if m["type"] == "objects":
                f(m["name"], **kw)
            elif v == "both":
                licant.cxx_static_and_shared(m["name"], m["target"] + ".static", m["target"] + ".shared", **kw)
            elif v == "library" and m["type"] != "application":
                licant.cxx_library(m["name"], target=m["target"], shared=m["type"] == "shared_library", **kw)
            elif v == "positional":
                f(m["name"], m["target"], **kw)
            elif v == "noname":
                f(m["target"], **kw)
            else:
                f(m["name"], target=m["target"], **kw)
        else:
            if m.get("type"):
                kw["type"] = m["type"]
            if m.get("target"):
                kw["target"] = m["target"]
            if m.get("as"):
                licant.implementation(m["as"], "v%d" % i, **kw)
            elif m.get("impl"):
                licant.implementation(m["name"], m["impl"], default=True, **kw)
            else:
                licant.module(m["name"], **kw)
    global _one
    _one = one
    order = [i for i in data["order"] if mods[i]["role"] != "product"] + [i for i in data["order"] if mods[i]["role"] == "product"]
    for i in order:
        d = mods[i]["dir"]
        if d == "":
            one(i)
        else:
            licant.execute(os.path.join(d, "decl%d.g.py" % i))
    licant.fileset("everything", [request_name(data, i) for i in data["products"]])
    return True


def request_name(data, i):
    m = data["mods"][i]
    return m["name"] if m["type"] == "objects" or m.get("variant") == "both" else m["target"]


def products_of(m):
    """[(type, path)] a product or submodule leaves."""
    t = m.get("type", "objects")
    if t == "objects":
        return []
    if m.get("variant") == "both":
        return [("static_library", m["target"] + ".static"), ("shared_library", m["target"] + ".shared")]
    return [(t, m["target"])]


# ------------------------------------------------------------------ the model
class Ctx:
    """Options in force: ordered lists of (owner module, value)."""

    def __init__(self):
        self.lists = {k: [] for k in LISTS + FLAGS}
        self.one = {"cxxstd": "c++17", "ccstd": "c11", "optimize": "", "debug": "-g", "builddir": "build", "toolchain": "std"}

    def copy(self):
        c = Ctx()
        c.lists = {k: list(v) for k, v in self.lists.items()}
        c.one = dict(self.one)
        return c


def add_options(ctx, data, i, full):
    """full: the module's own options (product, submodule); otherwise those a depending product takes over."""
    m = data["mods"][i]
    for k, v in m["o"].items():
        if k in FLAGS:
            ctx.lists[k] += [(i, x) for x in v.split()]
        elif k in LISTS:
            ctx.lists[k] += [(i, x) for x in v]
        elif k in ("cxxstd", "ccstd") or full:
            ctx.one[k] = v
    if full:
        for k in ("builddir", "toolchain"):
            if k in m:
                ctx.one[k] = m[k]


def included(data, i):
    out = []
    for k in data["mods"][i]["incl"]:
        out.append(k)
        out += included(data, k)
    return out


def contexts(data, depend_order):
    """[(module index or owner, ctx, sources [(module, entry)], prebuilt, sub indices)] for every product and submodule, by product.

    depend_order(i): the dependency modules of module i in order."""
    res = []

    def walk(i, base, prod, line=(), line_users=()):
        ctx = base.copy()
        add_options(ctx, data, i, True)
        users = [i]
        subs = list(data["mods"][i]["subs"])
        for k in dedup(included(data, i)) + depend_order(i):
            add_options(ctx, data, k, False)
            users.append(k)
            subs += data["mods"][k]["subs"]
        line, line_users = line + (i,), line_users + (users,)
        res.append({"mod": i, "prod": prod, "line": line, "line_users": line_users, "ctx": ctx, "users": users, "subs": subs,
                    "sources": [(k, e) for k in users for e in data["mods"][k]["sources"]],
                    "moc": [(k, x) for k in users for x in data["mods"][k].get("moc", [])],
                    "ui": [(k, x) for k in users for x in data["mods"][k].get("ui", [])],
                    "prebuilt": [(k, x) for k in users for x in data["mods"][k].get("prebuilt", [])]})
        for s in subs:
            walk(s, ctx, prod, line, line_users)
    for p in data["products"]:
        walk(p, Ctx(), p)
    return res


# ------------------------------------------------------------------ running
def build(data, root, log):
    """Describe and build in a child process (one for each request); the tool calls."""
    from . import cxx
    from . import project as pj
    from .engine import Violation, in_child, need_ok, outcome

    def body(name):
        os.environ["HOME"] = root
        cxx.use_tools(log)
        import licant
        d = outcome(lambda: declare(data, root))
        if d["end"] != "ok":
            return {"d": d}
        return {"d": d, "r": outcome(lambda: licant.ex(default="everything", argv=data.get("say", []) + [name, "-j%d" % data["j"]], core=licant.default_core()))}
    for name in ["everything"] if data["request"] == "set" else [request_name(data, i) for i in data["products"]]:
        ch = in_child(lambda: body(name), root, timeout=60)
        v = need_ok(ch, "build")
        if v["d"]["end"] != "ok":
            raise Violation("a valid description was not accepted: %s\n%s" % (v["d"], ch.out[-800:].decode("utf-8", "replace")))
        if not pj.succeeded(v["r"]):
            raise Violation("the build failed: %s\n%s" % (v["r"], ch.out[-1500:].decode("utf-8", "replace")))
    return cxx.read_log(log)[0]


def absolute(rec, p):
    return os.path.normpath(os.path.join(rec.cwd, p))


def dedup(lst):
    return list(dict.fromkeys(lst))


def mocked(calls):
    """{name of the Qt header: [compile records of its generated source]}, known by content."""
    out = {}
    for c in calls:
        if c.mode == "c" and c.inputs:
            try:
                with open(absolute(c, c.inputs[0])) as f:
                    t = f.read(200)
            except OSError:
                continue
            if t.startswith("MOC\n/* qt "):
                out.setdefault(t.split()[3], []).append(c)
    return out
