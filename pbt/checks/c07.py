"""C07: failures, kills and interrupts never spoil a later build."""
from hypothesis import strategies as st

from .. import project as pj
from ..engine import CaseDir, HarnessError, Inconclusive, Info, Violation, chance

ID = "C07"
QUICK, THOROUGH = 3600, 40000
RULE = """A case is a project as in C05 and a history of 2-5 licant processes of which at least one has an accident: a set of steps that fail
(returning False, raising, a non-zero status, a signal; before or after writing a temporary file), SIGKILL at the k-th point (before,
inside, after a step or between steps), or an interrupt at the k-th point (KeyboardInterrupt while steps are in progress, or a real SIGINT).
User edits may happen between processes; requests may be retried in the same process after a failure. Every successful request is checked
against the from-scratch contents, and whatever ran against the out-of-date model; the last process has no accident and must succeed.
Non-trivial: an accident happened after a proper part of the work of that request was done."""
ASSUMPTIONS = ["a step replaces its output atomically or not at all (copies are used only where they are not killed half way)"]


@st.composite
def cases(draw):
    data = draw(pj.project(forced=chance(draw, 3), min_out=4, max_nodes=11))
    p = pj.Project(data)
    steps = [i for i in range(len(data["nodes"])) if data["nodes"][i]["k"] in ("py", "sh")]
    hist = []
    nsess = draw(st.integers(2, 5))
    for k in range(nsess):
        ops = draw(pj.ops_strategy(p)) if k and draw(st.booleans()) else []
        s = draw(pj.session_strategy(p, max_reqs=2))
        last = k == nsess - 1
        acc = "none" if last else draw(st.sampled_from(["fail", "fail", "kill", "kill", "interrupt", "sigint", "none"]))
        if last or not chance(draw, 3):
            s["reqs"][0]["t"] = p.big()
        if acc == "fail":
            inside = [i for i in steps if i in p.closure(s["reqs"][0]["t"])] or steps
            inside = inside[len(inside) // 2:] if draw(st.booleans()) else inside
            bad = draw(st.sets(st.sampled_from(inside), min_size=1, max_size=2)) if steps else set()
            s["reqs"][0]["fault"] = {str(i): draw(st.sampled_from(["false", "raise", "late"])) for i in sorted(bad)}
            if draw(st.booleans()) and not s["reqs"][0]["via"].startswith("cli"):
                s["reqs"] = [s["reqs"][0], {"op": "build", "t": s["reqs"][0]["t"], "via": "invoke"}]
        elif acc == "kill":
            s["kill_at"] = draw(st.integers(1, 12))
            s.pop("threads_mode", None)
        elif acc == "interrupt":
            s["interrupt"] = draw(st.integers(1, 5))
            s["drain"] = draw(st.booleans())
            s["reqs"] = s["reqs"][:1]
            s.pop("threads_mode", None)
        elif acc == "sigint":
            s["sigint_at"] = draw(st.integers(1, 10))
            s["reqs"] = s["reqs"][:1]
            s["threads_mode"] = "real"
        hist.append({"ops": ops, "s": s, "acc": acc})
    return {"project": data, "hist": hist, "gap": draw(st.sampled_from([10_000_000_000, 1_000_000]))}


def strategy(tier):
    return cases()


def run(case):
    p = pj.Project(case["project"])
    nontrivial, seen = 0, set()
    owed = {}          # failed steps that a later build needing them must attempt
    with CaseDir() as base:
        disk = pj.Disk(p, base, case["gap"])
        for k, h in enumerate(case["hist"]):
            acc = h["acc"]
            disk.settle()
            for op in h["ops"]:
                if disk.apply(op):
                    owed.clear()
            srcs = disk.sources()
            before = pj.snapshot(p, disk.root)
            c = pj.session(p, base, h["s"])
            if acc in ("sigint", "interrupt"):
                owed.clear()
            if c.status == "timeout":
                raise Inconclusive("session %d: timeout" % k)
            after = pj.snapshot(p, disk.root)
            for i in p.sources():
                a, b = before["files"].get(str(i)), after["files"].get(str(i))
                if a != b:
                    raise Violation("process %d (%s) changed the source %r" % (k, acc, p.path(i)))
            if c.status == "killed" and acc == "kill":
                done = pj.executed(p, before, after)
                seen.add("killed")
                need = p.need(h["s"]["reqs"][0]["t"], pj.stamps(before), set(before["dirs"]))
                if done and {i for i in need if p.kind(i) in pj.OUTPUTS} - done:
                    nontrivial += 1
                    seen.add("killed half way")
                owed.clear()
                continue
            if c.status != "ok":
                if acc == "sigint":      # the signal arrived outside the build proper
                    continue
                raise HarnessError("session %d ended %s %s %s" % (k, c.status, c.code, c.err))
            v = c.value
            if v["declared"]["end"] != "ok":
                raise Violation("declaring the project failed: %s" % v["declared"])
            for n, (rq, r) in enumerate(zip(h["s"]["reqs"], v["reqs"])):
                what = "process %d request %d (build of %r, accident %s)" % (k, n, p.name(rq["t"]), acc)
                need = p.need(rq["t"], pj.stamps(r["pre"]), set(r["pre"]["dirs"]))
                want = {i for i in need if p.kind(i) in pj.OUTPUTS}
                got = pj.executed(p, r["pre"], r["post"])
                faults = {int(i) for i in rq.get("fault", {})} & want
                good = pj.succeeded(r["out"])
                accident = bool(faults) or (acc in ("interrupt", "sigint") and r["out"]["end"] != "ok")
                if good:
                    if faults:
                        raise Violation("%s reported success although steps %s failed" % (what, sorted(faults)))
                    if r["out"]["end"] == "ok":
                        pj.check_contents(p, r["post"], srcs, rq["t"], what)
                elif not accident:
                    raise Violation("%s failed although no step failed: %s" % (what, r["out"]))
                if acc != "sigint":
                    if got - want:
                        raise Violation("%s: run although up to date: %s" % (what, sorted(got - want)))
                    if good and want - got:
                        raise Violation("%s: out of date but not run: %s" % (what, sorted(want - got)))
                    if True:
                        late = {i for i in owed if i in p.closure(rq["t"]) and i not in faults} - set(r["log"])
                        if good and late:
                            raise Violation("%s did not attempt the steps %s that failed before" % (what, sorted(late)))
                        for i in set(r["log"]):
                            owed.pop(i, None)
                        for i in faults & set(r["log"]):
                            if not any(p.kind(d) == "dir" for d in p.closure(i)):
                                owed[i] = 1
                if accident:
                    seen.add("accident=" + acc)
                    if got and want - got:
                        nontrivial += 1
                        seen.add("half way: " + acc)
                if accident and n + 1 < len(h["s"]["reqs"]):
                    seen.add("retried in process")
    return Info(nontrivial > 0, "mode=" + case["project"]["mode"], *sorted(seen))
