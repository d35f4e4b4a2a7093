"""C06: exactly the out-of-date steps are run."""
from hypothesis import strategies as st

from .. import project as pj
from ..engine import CaseDir, Info, chance, Violation, need_ok

ID = "C06"
QUICK, THOROUGH = 3600, 40000
RULE = """A case is a project as in C05 (plus forced steps) and a history of 2-5 licant processes; between them sources are edited, sources and
outputs get modification times later than, equal to, older than or just before/after those of other files, outputs, output directories and
sources are deleted. For every request the set of rewritten outputs is compared with the reference model's decision computed from the
files' actual times; each step is run at most once. Non-trivial: some request after the first runs a proper non-empty part of its closure."""


@st.composite
def cases(draw):
    data = draw(pj.project(explicit_all=draw(st.booleans())))
    p = pj.Project(data)
    # a deleted source is tolerated only where nothing copies it, and where it stays declared
    copied = {n["src"] for n in data["nodes"] if n["k"] == "copy"}
    loose = [i for i in p.sources() if i not in copied and (data["mode"] == "core" or i in data["explicit"]) and not data["nodes"][i].get("globbed")]
    hist = []
    for k in range(draw(st.integers(2, 5))):
        ops = draw(pj.ops_strategy(p, touches=True)) if k else []
        if loose and k and chance(draw, 4):
            ops.append({"o": "delsrc", "n": draw(st.sampled_from(loose))})
        hist.append({"ops": ops, "s": draw(pj.session_strategy(p))})
    return {"project": data, "hist": hist, "gap": draw(st.sampled_from([10_000_000_000, 1_000_000]))}


def strategy(tier):
    return cases()


def run(case):
    p = pj.Project(case["project"])
    partial = idle = forced = 0
    why = set()
    with CaseDir() as base:
        disk = pj.Disk(p, base, case["gap"])
        for k, h in enumerate(case["hist"]):
            disk.settle()
            for op in h["ops"]:
                if disk.apply(op):
                    why.add("op=" + op["o"] + op.get("how", ""))
            v = need_ok(pj.session(p, base, h["s"]), "session %d" % k)
            if v["declared"]["end"] != "ok":
                raise Violation("declaring the project failed: %s" % v["declared"])
            for n, (rq, r) in enumerate(zip(h["s"]["reqs"], v["reqs"])):
                what = "process %d request %d (build of %r via %s)" % (k, n, p.name(rq["t"]), rq["via"])
                need = p.need(rq["t"], pj.stamps(r["pre"]), set(r["pre"]["dirs"]))
                want = {i for i in need if p.kind(i) in pj.OUTPUTS}
                got = pj.executed(p, r["pre"], r["post"])
                if not pj.succeeded(r["out"]):
                    raise Violation("%s failed although no step failed: %s" % (what, r["out"]))
                if got != want:
                    extra = [p.path(i) if i >= 0 else "-" + p.path(-i - 1) for i in sorted(got - want)]
                    miss = [p.path(i) for i in sorted(want - got)]
                    raise Violation("%s: run although up to date: %s; out of date but not run: %s; mtimes before: %s" % (
                        what, extra, miss, {p.path(int(i)): f[0] for i, f in r["pre"]["files"].items()}))
                log = r["log"]
                if len(log) != len(set(log)):
                    raise Violation("%s ran a step twice: %s" % (what, log))
                bad = {i for i in log} ^ {i for i in want if p.kind(i) in ("py", "sh")}
                if bad:
                    raise Violation("%s: steps started %s, out of date %s" % (what, log, sorted(want)))
                for i in p.sources():
                    if r["pre"]["files"].get(str(i)) != r["post"]["files"].get(str(i)):
                        raise Violation("%s touched the source %r" % (what, p.path(i)))
                for i in need:
                    if p.kind(i) == "dir" and i not in r["post"]["dirs"]:
                        raise Violation("%s did not create the directory %r" % (what, p.path(i)))
                outs = {i for i in p.closure(rq["t"]) if p.kind(i) in pj.OUTPUTS}
                if k or n:
                    if want and outs - want:
                        partial += 1
                    if not want:
                        idle += 1
    d = case["project"]
    return Info(partial > 0, "mode=" + d["mode"], "forced" if any(n.get("force") for n in d["nodes"]) else "",
                "partial rebuilds" if partial else "", "idle rebuilds" if idle else "", *sorted(why))
