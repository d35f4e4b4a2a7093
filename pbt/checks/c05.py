"""C05: incremental builds equal builds from scratch."""
from hypothesis import strategies as st

from .. import project as pj
from ..engine import CaseDir, Info, Violation, need_ok

ID = "C05"
QUICK, THOROUGH = 3600, 40000
RULE = """A case is a project (sources, steps written as Python functions and shell commands, copies, touches, file sets, named groups,
directories, a glob pattern; two interface styles; any declaration order) and a history of 2-5 licant processes, each preceded by source
edits, additions to the glob, deletions of outputs and output directories, and serving 1-3 build requests (through the objects or the
command line) with 1-4 threads and a generated finishing order or real threads. After every successful request all outputs of the closure
are compared with the model's from-scratch contents. Non-trivial: some request after the first rewrites an output of its closure and leaves
another one alone."""


@st.composite
def cases(draw):
    data = draw(pj.project())
    p = pj.Project(data)
    hist = []
    for k in range(draw(st.integers(2, 5))):
        hist.append({"ops": draw(pj.ops_strategy(p)) if k else [], "s": draw(pj.session_strategy(p))})
    absent = sorted(draw(st.sets(st.sampled_from(p.globbed())))) if p.globbed() and draw(st.booleans()) else []
    return {"project": data, "hist": hist, "gap": draw(st.sampled_from([10_000_000_000, 1_000_000])), "absent": absent}


def strategy(tier):
    return cases()


def run(case):
    p = pj.Project(case["project"])
    partial = built = incremental = 0
    with CaseDir() as base:
        disk = pj.Disk(p, base, case["gap"], case["absent"])
        for k, h in enumerate(case["hist"]):
            disk.settle()
            changed = [disk.apply(op) for op in h["ops"]]
            srcs = disk.sources()
            v = need_ok(pj.session(p, base, h["s"]), "session %d" % k)
            if v["declared"]["end"] != "ok":
                raise Violation("declaring the project failed: %s" % v["declared"])
            for n, (rq, r) in enumerate(zip(h["s"]["reqs"], v["reqs"])):
                what = "process %d request %d (build of %r via %s)" % (k, n, p.name(rq["t"]), rq["via"])
                if not pj.succeeded(r["out"]):
                    raise Violation("%s failed although no step failed: %s" % (what, r["out"]))
                pj.check_contents(p, r["post"], srcs, rq["t"], what)
                ex = pj.executed(p, r["pre"], r["post"])
                outs = {i for i in p.closure(rq["t"]) if p.kind(i) in pj.OUTPUTS}
                built += len(ex)
                if (k or n) and ex & outs and outs - ex:
                    partial += 1
                if any(changed):
                    incremental += 1
    d = case["project"]
    kinds = {n["k"] for n in d["nodes"]}
    return Info(partial > 0, "mode=" + d["mode"], "processes=%d" % len(case["hist"]), *["kind=" + k for k in sorted(kinds)],
                "glob" if any(n.get("glob") for n in d["nodes"]) else "", "partial rebuilds" if partial else "",
                "declared out of order" if d["order"] != sorted(d["order"]) else "",
                "real threads" if any(h["s"].get("threads_mode") for h in case["hist"]) else "")
