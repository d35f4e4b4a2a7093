"""C08: clean."""
import os

from hypothesis import strategies as st

from .. import project as pj
from ..engine import CaseDir, Info, Violation, chance, need_ok

ID = "C08"
QUICK, THOROUGH = 3600, 30000
RULE = """A case is a project as in C05 whose file names contain spaces, quotes, shell and format metacharacters, newlines, leading dashes and
non-ASCII letters, with outputs in shared, nested and outside directories next to unrelated files and links; some targets are built, some
outputs lost again, sources edited, then a file, file-set or source target is cleaned (in the same process or another one, by object or command line). The
whole tree is compared before and after; cleaning is repeated; then the target is built again and compared with the from-scratch contents.
Non-trivial: the clean deletes something and spares an existing output, or a deleted name contains a special character."""


@st.composite
def cases(draw):
    data = draw(pj.project(odd=True, min_out=3, forced=False, outdirs=["", "out", "out", "out/a b", "build/x", "../ext", "src"],
                           srcdirs=["", "", "src", "src/sub", "out"]))
    p = pj.Project(data)
    ts = p.targets()
    built = [draw(st.sampled_from(ts)) for _ in range(draw(st.integers(0, 3)))]
    if not chance(draw, 4):
        built.insert(0, p.big())
    cleanable = [i for i in range(len(data["nodes"])) if p.kind(i) in pj.OUTPUTS + ("set",)]
    if chance(draw, 8):
        cleanable = [i for i in p.sources() if i in data["explicit"]] or cleanable
    lates = [i for i in data["explicit"] if not data["nodes"][i].get("globbed")]
    return {"project": data, "ops": draw(pj.ops_strategy(p, touches=True)) if draw(st.booleans()) else [],
            "late": draw(st.sampled_from(lates)) if lates and built and chance(draw, 5) else None, "built": built, "lost": sorted(draw(st.sets(st.sampled_from(p.outputs()), max_size=2))),
            "clean": draw(st.sampled_from(cleanable)), "via": draw(st.sampled_from(["invoke", "cli"])),
            "same": draw(st.booleans()), "j": draw(st.integers(1, 3)),
            "unrelated": sorted(draw(st.sets(st.sampled_from(["keep", "out/keep.o", "out/a b/k", "../ext/k", "src/k.o", "o", "out/a", "PWN"]),
                                             max_size=5))),
            "link": draw(st.booleans())}


def corpus():
    # a dense graph: the number of paths must not matter
    nodes = [{"k": "src", "path": "s0"}]
    for l in range(22):
        below = [0] if not l else list(range(1 + 3 * (l - 1), 1 + 3 * l))
        nodes += [{"k": "py", "deps": below, "path": "o%d_%d" % (l, k)} for k in range(3)]
    nodes.append({"k": "set", "deps": list(range(len(nodes) - 3, len(nodes))), "name": "all"})
    for via in ("invoke", "cli"):
        yield {"project": {"mode": "core", "nodes": nodes, "order": list(range(len(nodes))), "explicit": []}, "ops": [], "late": None, "built": [len(nodes) - 1],
               "lost": [], "clean": len(nodes) - 1, "via": via, "same": via == "cli", "j": 2, "unrelated": ["keep"], "link": False}


def strategy(tier):
    return cases()


def run(case):
    p = pj.Project(case["project"])
    t = case["clean"]
    late = case.get("late")
    same = case["same"] or late is not None
    with CaseDir() as base:
        disk = pj.Disk(p, base, absent=[] if late is None else [late])
        ext = os.path.join(base, "ext")
        os.makedirs(ext, exist_ok=True)
        for u in case["unrelated"]:
            f = os.path.join(disk.root, u)
            if not os.path.exists(f):
                os.makedirs(os.path.dirname(f), exist_ok=True)
                with open(f, "w") as h:
                    h.write("unrelated")
        if case["link"]:
            os.symlink("no where", os.path.join(disk.root, "lnk"))
        builds = [{"op": "build", "t": b, "via": "invoke"} for b in case["built"]]

        def trees():
            return {"p": pj.tree(disk.root), "e": pj.tree(ext)}

        def sess(reqs):
            v = need_ok(pj.session(p, base, {"reqs": reqs, "j": case["j"], "sched": [3, 9, 1]}), "session")
            if v["declared"]["end"] != "ok":
                raise Violation("declaring the project failed: %s" % v["declared"])
            return v["reqs"]
        for r in sess(builds):
            if late is None and not pj.succeeded(r["out"]):
                raise Violation("build failed although no step failed: %s" % r["out"])
        for i in case["lost"]:
            disk.apply({"o": "del", "n": i})
        disk.settle()
        for op in case.get("ops", []):
            disk.apply(op)
        disk.settle()
        before = trees()
        srcs = disk.sources()
        closure = p.closure(t)
        doomed = {i for i in closure if p.kind(i) in pj.OUTPUTS and os.path.lexists(disk.full(i))}
        clean = {"op": "clean", "t": t, "via": "invoke" if same else case["via"]}
        if same:
            # in the process that just (re)built some targets
            again = [dict(builds[0], write=[[late, "s%d late" % late]])] if late is not None else []
            rs = sess(builds[:1] + again + [clean])
            if builds:
                # what is there now: the state that process saw before it cleaned
                post = rs[-2]["post"]["files"]
                doomed = {i for i in closure if p.kind(i) in pj.OUTPUTS and str(i) in post}
                for i in p.outputs() + p.sources():
                    f = post.get(str(i))
                    key, rel = ("e", p.path(i)[7:]) if p.path(i).startswith("../ext/") else ("p", p.path(i))
                    if f is not None:
                        now = disk.full(i)
                        before[key][rel] = ["file", f[2], f[0], os.stat(now).st_mode & 0o7777 if os.path.exists(now) else 0o644]
                    else:
                        before[key].pop(rel, None)
                srcs = disk.sources()
            for d in ("p", "e"):           # directories the build created
                for k, v in trees()[d].items():
                    if v[0] == "dir":
                        before[d].setdefault(k, v)
        else:
            rs = sess([clean])
        out = rs[-1]["out"]
        if out["end"] not in ("ok",) and not (out["end"] == "exit" and out["code"] == 0):
            raise Violation("clean of %r ended with %s" % (p.name(t), out))

        def compare(what):
            after = trees()
            for key in ("p", "e"):
                gone = {("../ext/" if key == "e" else "") + k for k in set(before[key]) - set(after[key])}
                want = {p.path(i) for i in doomed if p.path(i).startswith("../ext/") == (key == "e")}
                if gone != want:
                    raise Violation("%s of %r deleted %s, should delete %s" % (what, p.name(t), sorted(gone), sorted(want)))
                new = set(after[key]) - set(before[key])
                if new:
                    raise Violation("%s created %s" % (what, sorted(new)))
                for k in after[key]:
                    if after[key][k] != before[key][k]:
                        raise Violation("%s changed %r: %s -> %s" % (what, k, before[key][k], after[key][k]))
        compare("clean")
        r = sess([dict(clean, via=case["via"])])[0]
        if not (r["out"]["end"] == "ok" or r["out"].get("code") == 0):
            raise Violation("cleaning again ended with %s" % r["out"])
        compare("cleaning again")
        if p.kind(t) != "src":
            r = sess([{"op": "build", "t": t, "via": case["via"]}])[0]
            if not pj.succeeded(r["out"]):
                raise Violation("building after clean failed: %s" % r["out"])
            pj.check_contents(p, r["post"], srcs, t, "building after clean")
            back = trees()
            for key in ("p", "e"):
                lost = set(before[key]) - set(back[key])
                if lost:
                    raise Violation("after clean and build %s is missing" % sorted(lost))
    special = any(c in p.path(i) for i in doomed for c in " '\"$;&()#`{}%\\\n\t![]?|<>~=:")
    spared = any(i not in doomed and ("files" and p.path(i) in before["p"]) for i in p.outputs())
    return Info(bool(doomed) and (spared or special), "via=" + case["via"], "same process" if same else "", "source appears" if late is not None else "",
                "edits before" if case.get("ops") else "",
                "special characters" if special else "", "spares outputs" if spared else "", "cleans %s" % p.kind(t))
