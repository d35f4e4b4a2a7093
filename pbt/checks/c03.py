"""C03: failing steps."""
from hypothesis import strategies as st

from .. import graphs
from ..engine import Info, Violation

ID = "C03"
QUICK, THOROUGH = 12000, 60000
RULE = """A case is a DAG, a thread count, a finishing order and a set of steps that fail, each by returning False or raising one of several
exceptions; levels are the scheduler, targets of each kind and the command line (exit status). One in six cases has no failing step.
Non-trivial: a step of the closure fails, and the closure has a dependent of it or another step in progress with it."""


@st.composite
def cases(draw):
    case = draw(graphs.sched_case(max_nodes=10, levels=("solver", "routine", "upd", "file", "mixed", "cli", "cli"), groups=True))
    n = len(case["deps"])
    if draw(st.integers(0, 5)):
        inside = sorted(graphs.closure(case["deps"], case["root"])) if draw(st.integers(0, 5)) else list(range(n))
        inside = [i for i in inside if i not in case["groups"]] or [n]
        bad = draw(st.sets(st.sampled_from(inside), min_size=1, max_size=3))
        case["fail"] = {str(i): draw(st.sampled_from(graphs.FAIL_MODES)) for i in sorted(bad)}
    return case


def strategy(tier):
    return cases()


def run(case):
    res = graphs.run_graph(case)
    deps = graphs.effective(case)
    want = graphs.steps_of(case)
    ev = graphs.normalise(case, res)
    failing = {int(i) for i in case["fail"]} & want
    short = {k: v for k, v in res.items() if k not in ("log", "out")}
    if res["end"] == "deadlock":
        raise Violation("build hangs: %s" % ev)
    # a step that must not run: it depends on a failing one
    tainted = {i for i in want if i not in failing and (graphs.closure(deps, i) & failing)}
    tainted |= {i for i in failing if (graphs.closure(deps, i) - {i}) & failing}
    started, finished, known_failed, any_failed, batch = set(), set(), False, False, 1
    for e in ev:
        if e[0] == "b":
            batch = e[1]
        elif e[0] == "i":
            known_failed = any_failed
        if e[0] == "s":
            started.add(e[1])
            if e[1] in tainted:
                raise Violation("step %d was run although a step it depends on failed: %s" % (e[1], ev))
            if known_failed and case["mode"] == "sim":
                raise Violation("step %d was started after a failure was known: %s" % (e[1], ev))
        elif e[0] == "f":
            finished.add(e[1])
            if not e[2]:
                any_failed = True
                if batch == 1:      # it finished alone: nothing can be started between its end and its being noticed
                    known_failed = True
    if started - finished or res.get("sim", {}).get("left"):
        raise Violation("the build ended with steps %s still in progress" % sorted(started - finished))
    if failing:
        if res["end"] == "ok":
            if case["level"] == "cli":
                raise Violation("a step failed but the command line ended normally (exit status 0): %s" % ev)
            if res["value"] != "False":
                raise Violation("a step failed but the build reported %s: %s" % (res["value"], ev))
        elif res["end"] == "exit":
            if res["code"] == 0:
                raise Violation("a step failed but the exit status is 0")
        # an exception is also a report of failure
        if not any_failed:
            raise Violation("build ended (%s) without having run any failing step and without finishing: %s" % (short, ev))
    else:
        if case["level"] == "cli":
            if not (res["end"] == "ok" or res["end"] == "exit" and res["code"] == 0):
                raise Violation("no step failed but the command line ended with %s" % short)
        elif not (res["end"] == "ok" and res["value"] == "True"):
            raise Violation("no step failed but the build ended with %s" % short)
        if started != want:
            raise Violation("nothing failed but only %s of %s were run" % (sorted(started), sorted(want)))
    dependents = bool(tainted)
    other = bool(failing) and res.get("sim", {}).get("max", 0) > 1
    return Info(bool(failing) and (dependents or other), "level=" + case["level"], "mode=" + case["mode"],
                "no failure" if not failing else "failures=%d" % len(failing),
                "has dependents" if dependents else "", "concurrent with failure" if other else "",
                *["how=" + case["fail"][str(i)] for i in failing])
