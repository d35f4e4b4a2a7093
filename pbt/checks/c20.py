"""C20: directories."""
import os

from hypothesis import strategies as st

from .. import project as pj
from ..engine import CaseDir, Info, Violation, chance, need_ok

ID = "C20"
QUICK, THOROUGH = 3600, 30000
OUTDIRS = ["out", "out/a", "out/a/b", "out/a/b/c/d", "out/z", "lib/x y", "lib/x y/q", "../ext/n/m", "../ext", "lnk", "lnk/deep/er", "", "mk/d/o"]
RULE = """A case is a project whose outputs lie in shared, nested, outside and linked directories, some of which exist at the start (with various
permissions and unrelated files), plus explicit makedir targets; 1-3 licant processes with 1-3 requests each, 1-4 threads and generated finishing
orders; meanwhile, at generated points of a build, some other process creates directories. Between processes outputs and output trees are
deleted and files are added to the directories. Every request must succeed with the from-scratch contents, create exactly the directories its
closure needs, leave existing directories (permissions, other contents) alone, and run exactly the out-of-date steps. Non-trivial: a request
needs two or more new directory levels, or a directory appears meanwhile, or something was added to an existing directory."""


@st.composite
def cases(draw):
    data = draw(pj.project(outdirs=OUTDIRS, srcdirs=["", "src", "out/a"], forced=False, odd=chance(draw, 5), min_out=3, max_nodes=12, globs=False, more_dirs=True))
    p = pj.Project(data)
    dirs = all_dirs(p)
    pre = sorted(draw(st.sets(st.sampled_from(dirs), max_size=3))) if dirs else []
    hist = []
    for k in range(draw(st.integers(1, 3))):
        s = draw(pj.session_strategy(p, threads=False))
        if dirs and draw(st.booleans()):
            s["meanwhile"] = draw(st.lists(st.tuples(st.integers(1, 8), st.sampled_from(dirs)), min_size=1, max_size=3))
        s["j"] = draw(st.integers(1, 4))
        hist.append({"ops": draw(pj.ops_strategy(p, edits=False)) if k else [], "s": s, "drop": draw(st.booleans())})
    return {"project": data, "pre": [[d, draw(st.sampled_from([0o755, 0o700, 0o711, 0o1777])), draw(st.booleans())] for d in pre], "hist": hist}


def all_dirs(p):
    ds = set()
    for i in p.outputs():
        ds |= ancestors(os.path.dirname(p.path(i)))
    for i, n in enumerate(p.nodes):
        if n["k"] == "dir":
            ds |= ancestors(n["path"])
    return sorted(ds)


def ancestors(d):
    out = set()
    while d and d not in ("..", "."):
        out.add(d)
        d = os.path.dirname(d)
    return out


def strategy(tier):
    return cases()


def run(case):
    p = pj.Project(case["project"])
    levels = meanwhile = added = 0
    with CaseDir() as base:
        disk = pj.Disk(p, base)
        os.makedirs(os.path.join(base, "elsewhere"))
        os.symlink("../elsewhere", os.path.join(disk.root, "lnk"))
        for d, mode, unrelated in case["pre"]:
            full = os.path.join(disk.root, d)
            os.makedirs(full, exist_ok=True)
            if unrelated:
                with open(os.path.join(full, "unrelated"), "w") as f:
                    f.write("mine")
            os.chmod(full, mode)

        def dirs():
            out = {}
            for top in ("proj", "ext", "elsewhere"):
                full = os.path.join(base, top)
                if os.path.isdir(full):
                    out[top] = os.stat(full).st_mode & 0o7777
                    for k, v in pj.tree(full).items():
                        if v[0] == "dir":
                            out[os.path.join(top, k)] = v[3]
            return out

        def foreign():
            out = {}
            for d, _, u in case["pre"]:
                f = os.path.join(disk.root, d, "unrelated")
                if u and os.path.exists(f):
                    out[d] = [open(f).read(), os.stat(f).st_mtime_ns]
            return out

        def real(rel):
            return os.path.relpath(os.path.realpath(os.path.join(disk.root, rel)), os.path.realpath(base))
        for k, h in enumerate(case["hist"]):
            disk.settle()
            for op in h["ops"]:
                disk.apply(op)
            if h["drop"] and k:
                for d in all_dirs(p):         # new files in existing directories: no step becomes out of date by that
                    full = os.path.join(disk.root, d)
                    if os.path.isdir(full):
                        with open(os.path.join(full, "dropped%d" % k), "w"):
                            pass
                        added += 1
            srcs = disk.sources()
            before, mine = dirs(), foreign()
            v = need_ok(pj.session(p, base, h["s"]), "session %d" % k)
            if v["declared"]["end"] != "ok":
                raise Violation("declaring the project failed: %s" % v["declared"])
            needed = set()
            for n, (rq, r) in enumerate(zip(h["s"]["reqs"], v["reqs"])):
                what = "process %d request %d (build of %r)" % (k, n, p.name(rq["t"]))
                if not pj.succeeded(r["out"]):
                    raise Violation("%s failed although no step failed: %s" % (what, r["out"]))
                need = p.need(rq["t"], pj.stamps(r["pre"]), set(r["pre"]["dirs"]))
                want = {i for i in need if p.kind(i) in pj.OUTPUTS}
                got = pj.executed(p, r["pre"], r["post"])
                if got != want and not h["s"].get("meanwhile"):
                    raise Violation("%s ran %s instead of %s" % (what, sorted(got), sorted(want)))
                if got - want:
                    raise Violation("%s ran %s instead of %s" % (what, sorted(got), sorted(want)))
                pj.check_contents(p, r["post"], srcs, rq["t"], what)
                for i in p.closure(rq["t"]):
                    if p.kind(i) == "dir":
                        needed |= ancestors(p.path(i))
                        if i not in r["post"]["dirs"]:
                            raise Violation("%s did not create the directory %r" % (what, p.path(i)))
                    elif p.kind(i) in pj.OUTPUTS:
                        needed |= ancestors(os.path.dirname(p.path(i)))
            for i, nd in list(enumerate(p.nodes)) * len(p.nodes):     # a missing directory is made by its own target, after what that depends on
                if nd["k"] == "dir" and nd["path"] in needed:
                    for x in p.closure(i):
                        needed |= ancestors(p.path(x))
            after = dirs()
            allowed = {real(d) for d in needed} | {"ext"}
            for _, d in h["s"].get("meanwhile", []):
                allowed |= {real(x) for x in ancestors(d)}
            new = set(after) - set(before)
            if new - allowed:
                raise Violation("process %d created directories outside the requested closures: %s" % (k, sorted(new - allowed)))
            if set(before) - set(after):
                raise Violation("process %d removed directories %s" % (k, sorted(set(before) - set(after))))
            for d in before:
                if before[d] != after[d]:
                    raise Violation("process %d changed the permissions of %r: %o -> %o" % (k, d, before[d], after[d]))
            if foreign() != mine:
                raise Violation("process %d changed unrelated files" % k)
            if len(new) > 1:
                levels += 1
            if h["s"].get("meanwhile") and new:
                meanwhile += 1
    return Info(levels or meanwhile or added, "mode=" + case["project"]["mode"], "several levels" if levels else "",
                "directories appear meanwhile" if meanwhile else "", "files added to directories" if added else "")
