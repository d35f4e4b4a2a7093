"""C09: target identity does not depend on spelling, the build not on declaration order."""
import os

from hypothesis import strategies as st

from .. import project as pj
from ..engine import CaseDir, Info, Violation, chance, need_ok

ID = "C09"
QUICK, THOROUGH = 3600, 30000
RULE = """A case is a project as in C05 and a history of licant processes; in each process every declared name, dependency, copy source and
requested name gets its own spelling (plain, ./, doubled slashes, dir/.., absolute, absolute through a linked root, through links to
directories that exist or not yet, '..' through a link, '~' where supported), declarations come in a fresh random order and sources are
declared explicitly or not. Every spelling must look up the same target object, and each request must run exactly the model's out-of-date
steps, once each, leaving the from-scratch contents. Non-trivial: a node is named by two or more spellings and some request has a step to run."""
STYLES = ["plain", "dot", "slashes", "updown", "abs", "abslink", "curlink", "dirlink", "linkup", "tilde", "absup"]


@st.composite
def cases(draw):
    data = draw(pj.project(forced=chance(draw, 4), odd=chance(draw, 4), min_out=3))
    p = pj.Project(data)
    hist = []
    n = len(data["nodes"])
    for k in range(draw(st.integers(1, 3))):
        s = draw(pj.session_strategy(p, threads=False))
        hist.append({"ops": draw(pj.ops_strategy(p)) if k else [], "s": s,
                     "styles": draw(st.lists(st.integers(0, len(STYLES) - 1), min_size=5, max_size=14)),
                     "order": draw(st.permutations(list(range(n)))),
                     "explicit": sorted(draw(st.sets(st.sampled_from(p.sources())))) if draw(st.booleans()) else data["explicit"]})
    return {"project": data, "hist": hist}


def strategy(tier):
    return cases()


def spelling(style, rel, root, base, tilde):
    if style == "dot":
        return "./" + rel
    if style == "slashes":
        return ".//" + rel.replace("/", "//")
    if style == "updown":
        d = os.path.dirname(rel)
        return (d + "/../" + rel) if d and "/" not in d else "deep/../" + rel
    if style == "abs":
        return os.path.join(root, rel)
    if style == "absup":
        return os.path.join(root, "..", os.path.basename(root), rel)
    if style == "abslink":
        return os.path.join(base, "linked root", rel)
    if style == "curlink":
        return "curlnk/" + rel
    if style == "dirlink":
        top = rel.split("/", 1)
        return top[0] + ".lnk/" + top[1] if len(top) == 2 else "curlnk/" + rel
    if style == "linkup":
        return "deeplnk/../../" + rel
    if style == "tilde" and tilde:
        return "~/" + rel
    return rel


def run(case):
    d0 = case["project"]
    ran, several, used = 0, 0, set()
    with CaseDir() as base:
        p = pj.Project(d0)
        disk = pj.Disk(p, base)
        os.symlink(disk.root, os.path.join(base, "linked root"))
        os.symlink(".", os.path.join(disk.root, "curlnk"))
        os.makedirs(os.path.join(disk.root, "deep/er"))
        os.symlink("deep/er", os.path.join(disk.root, "deeplnk"))
        for top in sorted({n["path"].split("/", 1)[0] for n in d0["nodes"] if "/" in n.get("path", "")}):
            os.symlink(top, os.path.join(disk.root, top + ".lnk"))
        for k, h in enumerate(case["hist"]):
            p = pj.Project(dict(d0, order=h["order"], explicit=h["explicit"]))
            disk.p = p
            disk.settle()
            for op in h["ops"]:
                disk.apply(op)
            srcs = disk.sources()
            state = {"n": 0, "names": {}}

            def spell(i, where, p=p, h=h, state=state):
                os.environ["HOME"] = disk.root
                nd = p.nodes[i]
                if "path" not in nd:
                    return nd["name"]
                kind = nd["k"]
                if p.mode == "default":
                    tilde = where == "copysrc" or (where == "decl" and kind == "copy")
                else:
                    tilde = where == "copysrc" or (where == "decl" and kind in pj.FILES and not nd.get("force"))
                style = STYLES[h["styles"][state["n"] % len(h["styles"])]]
                state["n"] += 1
                s = spelling(style, nd["path"], disk.root, base, tilde)
                if where == "decl" and "//" in s and kind == "dir":
                    s = nd["path"]
                state["names"].setdefault(i, set()).add(s)
                return s

            def probe(core, p=p, state=state):
                bad, cnt = [], 0
                for i in p.targets():
                    if p.is_file(i):
                        names = sorted(x for x in state["names"].get(i, set()) if not x.startswith("~/"))
                        names += [spelling(s, p.path(i), disk.root, base, False) for s in STYLES]
                        if len(state["names"].get(i, ())) > 1:
                            cnt += 1
                        t = core.get(os.path.join(disk.root, p.path(i)))
                        for x in names:
                            if not core.has(x):
                                bad.append("%r is not known" % x)
                            elif core.get(x) is not t:
                                bad.append("%r is another target than %r" % (x, p.path(i)))
                return {"bad": bad, "cnt": cnt}

            def reqspell(t, spell=spell):
                return spell(t, "request")
            v = need_ok(pj.session(p, base, h["s"], spell=spell, reqspell=reqspell, probe=probe), "session %d" % k)
            used |= {STYLES[x] for x in h["styles"]}
            if v["declared"]["end"] != "ok":
                raise Violation("declaring the project failed: %s" % v["declared"])
            if v["probe"]["end"] != "ok":
                raise Violation("looking up targets failed: %s" % v["probe"])
            if v["probe"]["value"]["bad"]:
                raise Violation("process %d: %s" % (k, v["probe"]["value"]["bad"][:5]))
            several += v["probe"]["value"]["cnt"]
            for n, (rq, r) in enumerate(zip(h["s"]["reqs"], v["reqs"])):
                what = "process %d request %d (build of %r)" % (k, n, p.name(rq["t"]))
                if not pj.succeeded(r["out"]):
                    raise Violation("%s failed although no step failed: %s" % (what, r["out"]))
                need = p.need(rq["t"], pj.stamps(r["pre"]), set(r["pre"]["dirs"]))
                want = {i for i in need if p.kind(i) in pj.OUTPUTS}
                got = pj.executed(p, r["pre"], r["post"])
                if got != want:
                    raise Violation("%s ran %s instead of %s" % (what, sorted(got), sorted(want)))
                if len(r["log"]) != len(set(r["log"])):
                    raise Violation("%s ran a step more than once: %s" % (what, r["log"]))
                pj.check_contents(p, r["post"], srcs, rq["t"], what)
                ran += len(want)
    return Info(several > 0 and ran > 0, "mode=" + d0["mode"], *["style=" + s for s in sorted(used)])
