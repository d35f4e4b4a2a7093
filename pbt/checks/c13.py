"""C13: module resolution."""
import os

from hypothesis import strategies as st

from .. import cxx
from .. import project as pj
from ..engine import CaseDir, Info, Violation, chance, in_child, need_ok, outcome

ID = "C13"
QUICK, THOROUGH = 3600, 40000
FAKE_TOOLS = True
RULE = """A case is a set of modules with several implementations each (defaults by flag, by separate call or none), dependencies between
implementations that name a module, a particular implementation or the empty one (cyclic, diamond, unregistered names and implementations
included), and a product depending on some; it is described twice, with the registrations in two random orders, listed with cxxm
collect_modules and built with recording tools. The linked implementations must be the listed ones, satisfy the resolution rules and be an outcome
of the reference resolver under some order of default selections; a rejection must be such an outcome too, and both orders of registration must
give the same link command or rejection. Non-trivial: some module has two implementations and is reached both by name and by implementation,
or three or more modules are linked, or the description must be rejected."""


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 4, 5, 6]))
    neat = draw(st.integers(0, 3)) > 0       # no dangling names
    mods = []
    for i in range(n):
        k = draw(st.sampled_from([1, 1, 2, 2, 3]))
        dflt = draw(st.integers(0, k - 1)) if neat or draw(st.integers(0, 3)) else None
        mods.append({"impls": [[] for _ in range(k)], "default": dflt, "how": draw(st.sampled_from(["flag", "call", "module", "only"])),
                     "reg": neat or draw(st.integers(0, 9)) > 0})
    dens = draw(st.sampled_from([1, 2, 2, 3]))
    expl = draw(st.integers(0, 3))

    @st.composite
    def dep(draw):
        m = draw(st.integers(0, n - 1))
        if draw(st.integers(0, 3)) < expl:
            if chance(draw, 12):
                return ["n", m]
            hi = len(mods[m]["impls"]) - 1 + (0 if neat or draw(st.integers(0, 5)) else 1)
            return ["t", m, draw(st.integers(0, hi))]
        return ["s", m]
    for m in mods:
        for k in range(len(m["impls"])):
            m["impls"][k] = draw(st.lists(dep(), max_size=dens))
    root = draw(st.lists(dep(), min_size=1, max_size=3))
    regs = [[i, k] for i in range(n) for k in range(len(mods[i]["impls"]))]
    return {"mods": mods, "root": root, "orders": [draw(st.permutations(regs)), draw(st.permutations(regs))],
            "nosrc": draw(st.booleans()), "j": draw(st.integers(1, 3)), "say": draw(pj.SAY)}


def strategy(tier):
    return cases()


NONE = -1


class Reject(Exception):
    pass


class Ref:
    """All outcomes of resolving explicit requests at once and defaults in any order."""

    def __init__(self, case):
        self.mods = case["mods"]
        self.memo = {}

    def impl_deps(self, m, k):
        return [] if k == NONE else self.mods[m]["impls"][k]

    def known(self, m, k):
        if not self.mods[m]["reg"]:
            return False
        return k == NONE or k < len(self.mods[m]["impls"])

    def follow(self, deps, sel, pend):
        """Explicit requests transitively; raises Reject."""
        sel, pend = dict(sel), set(pend)
        todo = [d for d in deps]
        while todo:
            d = todo.pop()
            if d[0] == "s":
                pend.add(d[1])
                continue
            m, k = d[1], (NONE if d[0] == "n" else d[2])
            if not self.known(m, k):
                raise Reject()
            if m in sel:
                if sel[m] != k:
                    raise Reject()
                continue
            sel[m] = k
            todo += self.impl_deps(m, k)
        return sel, frozenset(x for x in pend if x not in sel)

    def outcomes(self, sel, pend):
        key = (frozenset(sel.items()), pend)
        if key in self.memo:
            return self.memo[key]
        out = set()
        if not pend:
            out.add(frozenset(sel.items()))
        for m in pend:
            d = self.mods[m]
            if not d["reg"] or d["default"] is None:
                out.add("reject")
                continue
            s2 = dict(sel)
            s2[m] = d["default"]
            try:
                s2, p2 = self.follow(self.impl_deps(m, d["default"]), s2, pend - {m})
            except Reject:
                out.add("reject")
                continue
            out |= self.outcomes(s2, p2)
        self.memo[key] = out
        return out

    def all(self, root):
        try:
            sel, pend = self.follow(root, {}, ())
        except Reject:
            return {"reject"}
        return self.outcomes(sel, pend)


def valid(case, sel):
    """Why an assignment is not a resolution (independent of any algorithm)."""
    mods = case["mods"]

    def deps_of(m, k):
        return [] if k == NONE else mods[m]["impls"][k]
    every = list(case["root"]) + [d for m, k in sel.items() for d in deps_of(m, k)]
    for d in every:
        if d[1] not in sel:
            return "module m%d is needed but not linked" % d[1]
        if d[0] == "t" and sel[d[1]] != d[2] or d[0] == "n" and sel[d[1]] != NONE:
            return "m%d: another implementation than the requested one" % d[1]
    explicit = {d[1] for d in every if d[0] != "s"}
    for m, k in sel.items():
        if m not in explicit and k != mods[m]["default"]:
            return "m%d: not the default implementation" % m
    reach, todo = set(), list(case["root"])
    while todo:
        m = todo.pop()[1]
        if m not in reach:
            reach.add(m)
            todo += deps_of(m, sel[m])
    if set(sel) - reach:
        return "unneeded modules %s" % sorted(set(sel) - reach)
    return None


def describe(case, order):
    import licant
    import licant.modules
    mods = case["mods"]

    for i, m in enumerate(mods):
        if m["how"] == "call" and m["default"] is not None and i % 2 and m["reg"]:
            licant.module_defimpl("m%d" % i, implname(m, m["default"]))
    for i, k in order:
        m = mods[i]
        if not m["reg"]:
            continue
        kw = {"mdepends": [md2(case, d) for d in m["impls"][k]]}
        if not kw["mdepends"] and (i + k) % 2:
            del kw["mdepends"]
        kw["sources"] = ["m%d_i%d.c" % (i, k)]
        if k == m["default"] and m["how"] == "flag":
            licant.implementation("m%d" % i, implname(m, k), default=True, **kw)
        elif k == m["default"] and m["how"] == "module":
            licant.module("m%d" % i, impl=implname(m, k), default=True, **kw)
        elif k == m["default"] and is_only(m):
            licant.module("m%d" % i, **kw)
        else:
            licant.module("m%d" % i, impl=implname(m, k), **kw)
    for i, m in enumerate(mods):
        if m["default"] is not None and m["reg"] and (m["how"] == "call" and not i % 2 or m["how"] == "only" and not is_only(m)):
            licant.module_default_implementation("m%d" % i, implname(m, m["default"]))
    kw = {} if case["nosrc"] and case["root"] else {"sources": ["main.c"]}
    licant.cxx_application("product", target="product", mdepends=[md2(case, d) for d in case["root"]], **kw)
    return True


def is_only(m):
    return m["how"] == "only" and len(m["impls"]) == 1


def implname(m, k):
    return "__default__" if is_only(m) and k == m["default"] else "i%d" % k


def md2(case, d):
    if d[0] == "s":
        return "m%d" % d[1]
    m = case["mods"][d[1]]
    return ("m%d" % d[1], "__none__" if d[0] == "n" else implname(m, d[2]) if d[2] < len(m["impls"]) else "i%d" % d[2])


def one(case, root, log, order):
    def body():
        cxx.use_tools(log)
        import licant
        import licant.cli
        d = outcome(lambda: describe(case, order))
        if d["end"] != "ok":
            return {"d": d}
        core = licant.default_core()
        print("\n@@LIST")
        lst = outcome(lambda: core.get("cxxm").invoke("collect_modules", args=["product__module"]))
        print("@@END")
        return {"d": d, "l": lst, "r": outcome(lambda: licant.ex(default="product", argv=["-j%d" % case["j"]] + case.get("say", []), core=core))}
    ch = in_child(body, root, timeout=30)
    v = need_ok(ch, "build")
    if v["d"]["end"] != "ok":
        if v["d"]["end"] == "exit" and v["d"]["code"] != 0 or v["d"]["end"] == "exc":
            return "reject", None
        raise Violation("the description was neither accepted nor rejected with an error: %s" % v["d"])
    if not pj.succeeded(v["r"]):
        raise Violation("an accepted description does not build: %s\n%s" % (v["r"], ch.out[-800:].decode("utf-8", "replace")))
    calls, _ = cxx.read_log(log)
    links = [c for c in calls if c.mode == "link"]
    if len(links) != 1:
        raise Violation("%d link commands" % len(links))
    source = {os.path.normpath(os.path.join(c.cwd, c.out)): os.path.basename(c.inputs[0]) for c in calls if c.mode == "c"}
    sel, main, names = {}, 0, []
    for o in links[0].inputs:
        b = source.get(os.path.normpath(os.path.join(links[0].cwd, o)))
        if b is None:
            raise Violation("%s is linked but was not compiled" % o)
        names.append(b)
        if b == "main.c":
            main += 1
            continue
        m, k = b[1:-2].split("_i")
        if int(m) in sel:
            raise Violation("m%s is linked twice: %s" % (m, links[0]))
        sel[int(m)] = int(k)
    if main != (0 if case["nosrc"] else 1):
        raise Violation("main.c is linked %d times" % main)
    listed = None
    if v["l"]["end"] == "ok":
        listed = ch.out.split(b"@@LIST")[1].split(b"@@END")[0].decode().split()
    return sel, (names, listed)


def run(case):
    ref = Ref(case)
    allowed = ref.all(case["root"])
    with CaseDir() as base:
        results = []
        for n, order in enumerate(case["orders"]):
            root = os.path.join(base, "p%d" % n)
            os.mkdir(root)
            for i, m in enumerate(case["mods"]):
                for k in range(len(m["impls"])):
                    with open(os.path.join(root, "m%d_i%d.c" % (i, k)), "w") as f:
                        f.write("int m%d_i%d;\n" % (i, k))
            with open(os.path.join(root, "main.c"), "w") as f:
                f.write("int main;\n")
            results.append(one(case, root, os.path.join(base, "log%d" % n), order))
    for sel, more in results:
        if sel == "reject":
            if "reject" not in allowed:
                raise Violation("the description was rejected, but resolves to %s" % [dict(sorted(a)) for a in allowed])
            continue
        # the empty implementation leaves no trace in the link command: find the assignment that matches
        match = [dict(a) for a in allowed if a != "reject" and {m: k for m, k in a if k != NONE} == sel]
        if not match:
            why = valid(case, sel)
            raise Violation("linked %s; possible are %s (%s)" % (sel, sorted(str(a) for a in allowed), why))
        why = [valid(case, a) for a in match]
        if all(why):
            raise Violation("linked %s: %s" % (sel, why))
        if more[1] is not None:
            names = sorted(x.split(":")[0] for x in more[1])
            if all(names != sorted("m%d" % m for m in a) for a in match):
                raise Violation("cxxm collect_modules lists %s, linked are %s" % (more[1], match))
    if results[0] != results[1]:
        raise Violation("registering the modules in another order gives another result: %s / %s" % (results[0], results[1]))
    sel = results[0][0]
    mixed = False
    if sel != "reject":
        every = list(case["root"]) + [d for m, k in sel.items() for d in case["mods"][m]["impls"][k]]
        mixed = any(len(case["mods"][m]["impls"]) > 1 and any(d[0] == "s" and d[1] == m for d in every) and any(d[0] == "t" and d[1] == m for d in every)
                    for m in sel)
    return Info(sel == "reject" or mixed or len(sel) >= 3, "rejected" if sel == "reject" else "accepted", mixed and "name and implementation requested",
                len(allowed) > 1 and "order-dependent", "modules=%d" % (0 if sel == "reject" else len(sel)))
