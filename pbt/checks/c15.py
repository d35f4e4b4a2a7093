"""C15: what a product is made of."""
import collections
import os

from .. import cxxproj as cp
from .. import project as pj
from ..engine import CaseDir, Info, Violation

ID = "C15"
QUICK, THOROUGH = 3600, 40000
FAKE_TOOLS = True
RULE = """A case is one or two applications, shared, static or combined libraries or object sets with dependency modules, included modules and nested
submodules (object sets or libraries) declared by scripts in several directories; sources in all recognised languages, in nested and parent
directories, below source directories, by absolute path, tilde or pattern, with equal stems and odd characters; Qt headers; prebuilt objects. The
project is built with recording tools: every source must be compiled exactly once for each product it belongs to, by the right compiler, into
an object of its own; every product must be linked or archived once from exactly the objects of its closure, each once; and the file tree may
change only at the products and below the build directories. Non-trivial: three or more sources and one of equal stems, '..', absolute
paths, patterns, submodules or two users of one module."""


def strategy(tier):
    return cp.project(opts=False, rich=True)


def expected(data, root, ctxs, calls, moc):
    """Objects by context, from the compile commands; complains about sources compiled wrongly."""
    mods = data["mods"]
    compiled = collections.defaultdict(list)
    outs = collections.defaultdict(list)
    for c in calls:
        if c.mode == "c":
            if len(c.inputs) != 1 or not c.out:
                raise Violation("a compile command with %d sources: %s" % (len(c.inputs), c))
            compiled[cp.absolute(c, c.inputs[0])].append(c)
            outs[cp.absolute(c, c.out)].append(c)
    for o, cs in outs.items():
        if len({cp.absolute(c, c.inputs[0]) for c in cs}) > 1:
            raise Violation("sources share the object %s: %s" % (os.path.relpath(o, root), cs))
        if len(cs) > 1:
            raise Violation("%s is compiled %d times: %s" % (os.path.relpath(o, root), len(cs), cs))
    used = set()
    for x in ctxs:
        bdir = os.path.normpath(os.path.join(root, x["ctx"].one["builddir"]))
        cc, cxx, _ = cp.TOOLCHAINS[x["ctx"].one["toolchain"]]
        x["objs"] = []
        who = mods[x["mod"]]["name"]
        for k, e in x["sources"]:
            src = cp.srcpath(mods[k], e, root)
            recs = [c for c in compiled[src] if cp.absolute(c, c.out).startswith(bdir + "/")]
            if len(recs) != 1:
                raise Violation("%s is compiled %d times for %s: %s" % (os.path.relpath(src, root), len(recs), who, compiled[src]))
            lang = cp.EXTS[e["p"].rsplit(".", 1)[1]]
            if recs[0].tool != (cc if lang == "cc" else cxx):
                raise Violation("wrong compiler: %s" % recs[0])
            x["objs"].append(cp.absolute(recs[0], recs[0].out))
            used.add(id(recs[0]))
        for k, h in x["moc"]:
            recs = [c for c in moc.get(h, []) if cp.absolute(c, c.out).startswith(bdir + "/")]
            if len(recs) != 1:
                raise Violation("the generated source of %s is compiled %d times for %s" % (h, len(recs), who))
            if recs[0].tool != cxx:
                raise Violation("wrong compiler: %s" % recs[0])
            x["objs"].append(cp.absolute(recs[0], recs[0].out))
            used.add(id(recs[0]))
    for cs in compiled.values():
        for c in cs:
            if id(c) not in used:
                raise Violation("a compilation nobody asked for: %s" % c)


def run(case):
    data = case
    mods = data["mods"]
    with CaseDir() as base:
        root = os.path.join(base, "proj")
        os.makedirs(root)
        cp.write_files(data, root)
        cp.write_scripts(data, root)
        before = pj.tree(base)
        log = base + ".log"
        try:
            calls = cp.build(data, root, log)
        finally:
            if os.path.exists(log):
                os.unlink(log)
        after = pj.tree(base)
        moc = cp.mocked(calls)
    ctxs = cp.contexts(data, lambda i: cp.reach_deps(mods, i))
    expected(data, root, ctxs, calls, moc)
    links = collections.defaultdict(list)
    for c in calls:
        if c.mode in ("link", "ar"):
            links[cp.absolute(c, c.out or "?")].append(c)
    by_mod = {(x["prod"], x["mod"]): x for x in ctxs}
    wanted = set()

    def result(x):
        """What a submodule hands to its parent."""
        m = mods[x["mod"]]
        parts = list(x["objs"]) + [os.path.normpath(os.path.join(root, mods[k]["dir"], mods[k].get("srcdir", ""), p)) for k, p in x["prebuilt"]]
        for s in x["subs"]:
            parts += result(by_mod[(x["prod"], s)])
        parts = list(dict.fromkeys(parts))       # a submodule of two others counts once
        made = cp.products_of(m)
        for typ, path in made:
            p = os.path.normpath(os.path.join(root, path))
            wanted.add(p)
            cs = links.get(p, [])
            if len(cs) != 1:
                raise Violation("%s is linked %d times" % (path, len(cs)))
            c = cs[0]
            if (c.mode == "ar") != (typ == "static_library") or c.mode == "link" and (typ == "shared_library") != ("--shared" in c.args or "-shared" in c.args):
                raise Violation("%s is not made as %s: %s" % (path, typ, c))
            got = [cp.absolute(c, i) for i in c.inputs]
            if sorted(got) != sorted(parts):
                g, w = collections.Counter(got), collections.Counter(parts)
                raise Violation("%s is linked from other files than its own: missing %s, too many %s" % (
                    path, [os.path.relpath(z, root) for z in (w - g)], [os.path.relpath(z, root) for z in (g - w)]))
            if os.path.relpath(p, base) not in after:
                raise Violation("%s does not exist after the build" % path)
        return [os.path.normpath(os.path.join(root, p)) for _, p in made] if made else parts
    for x in ctxs:
        if x["mod"] in data["products"]:
            result(x)
    extra = [p for p in links if p not in wanted]
    if extra:
        raise Violation("something else is linked: %s" % extra)
    bdirs = [os.path.normpath(os.path.join(root, x["ctx"].one["builddir"])) for x in ctxs]
    for rel in sorted(set(before) | set(after)):
        b, a = before.get(rel), after.get(rel)
        if b == a:
            continue
        full = os.path.join(base, rel)
        if full in wanted or any(full == d or full.startswith(d + "/") for d in bdirs):
            continue
        if b is None and a[0] == "dir" and any(w.startswith(full + "/") for w in list(wanted) + bdirs):
            continue
        raise Violation("%s was %s, outside the build directory" % (rel, "created" if b is None else "removed" if a is None else "changed"))
    entries = [(m, e) for m in mods for e in m["sources"]]
    stems = collections.Counter(os.path.splitext(cp.srcpath(m, e, ""))[0] for m, e in entries)
    flags = {
        "equal stems": any(n > 1 for n in stems.values()), "dotdot": any(".." in e["p"] or m["dir"].startswith("..") for m, e in entries),
        "absolute": any(e["how"] in ("abs", "tilde") for m, e in entries), "pattern": any(e["how"] == "glob" for m, e in entries),
        "submodules": any(m["subs"] for m in mods), "shared module": sum(len(x["users"]) for x in ctxs) > len({k for x in ctxs for k in x["users"]}),
        "prebuilt": any(m.get("prebuilt") for m in mods), "qt": any(m.get("moc") or m.get("ui") for m in mods),
        "library submodule": any(m["role"] == "sub" and m.get("type", "objects") != "objects" for m in mods),
        "submodule on two ways": any(sum(x["mod"] == y["mod"] and x["prod"] == y["prod"] for y in ctxs) > 1 for x in ctxs),
        "submodule of two products": any(sum(x["mod"] == y["mod"] and x["prod"] != y["prod"] for y in ctxs) > 0 for x in ctxs),
        "both": any(m.get("variant") == "both" and m["type"] != "objects" for m in mods),
    }
    return Info(len(entries) >= 3 and any(list(flags.values())[:6]), *[k for k, v in flags.items() if v], "products=%d" % len(data["products"]))
