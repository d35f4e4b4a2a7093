"""C04: cycles and dangling names are rejected before any step; well-formed graphs are not."""
from hypothesis import strategies as st

from .. import graphs
from ..engine import Info, Violation
from .c01 import ladder

ID = "C04"
QUICK, THOROUGH = 12000, 60000
RULE = """A case is a DAG plus, in most cases, extra edges that close at least one cycle (self-loops included) or names of undeclared targets,
inside or outside the requested closure, at the scheduler level (wrong types included) or through targets or the command line. Ill-formed closures must end in an error
with no step run; well-formed ones must be accepted. Non-trivial: the closure is ill-formed and has at least two steps."""
ERRORS = ["UnknowTargetError", "NoOneNonDependableTarget", "CircularDependencyError", "ConnectivityError", "DoubleDependsError", "TypeError"]


@st.composite
def cases(draw):
    case = draw(graphs.sched_case(max_nodes=9, levels=("solver", "solver", "routine", "upd", "file", "mixed", "cli"), modes=("sim",), groups=True))
    n = len(case["deps"])
    kind = draw(st.sampled_from(["cycle", "cycle", "cycle", "dangling", "both", "none"]))
    if kind in ("cycle", "both"):
        back = {}
        for _ in range(draw(st.integers(1, 2))):
            i = draw(st.integers(0, n - 1))
            # i gets an edge to something that depends on it: a cycle for sure
            above = [j for j in range(n) if i in graphs.closure(case["deps"], j)]
            back.setdefault(str(i), set()).add(draw(st.sampled_from(above)))
        case["back"] = {k: sorted(v) for k, v in back.items()}
    if kind in ("dangling", "both"):
        case["dangling"] = {str(draw(st.integers(0, n - 1))): [draw(st.sampled_from(["nope", "t", "t99", "x/../nope", "-"]))]}
    case["prebuilt"] = draw(st.booleans())
    return case


def corpus():
    base = {"order": list(range(75)), "prefix": "t", "threads": 3, "sched": [1, 0, 2], "mode": "sim", "level": "solver", "res": ["None"], "depform": "list",
            "trace": False, "fail": {}, "deps": ladder(25, 3), "root": 74, "prebuilt": False}
    for level in ("solver", "routine", "upd", "file", "mixed", "cli"):
        for more in ({}, {"back": {"0": [1, 72]}}, {"dangling": {"1": ["nope"]}}):
            yield dict(base, level=level, **more)


def strategy(tier):
    return cases()


def analyse(case):
    n = len(case["deps"])
    full = [sorted(set(case["deps"][i]) | set(case.get("back", {}).get(str(i), []))) for i in range(n)]
    want = set(range(n)) if case["level"] == "solver" else graphs.closure(full, case["root"])
    cyclic = any(i in graphs.closure(full, j) for i in want for j in full[i])
    dangling = any(int(k) in want for k in case.get("dangling", {}))
    dangling_any = bool(case.get("dangling"))
    cyc_any = any(i in graphs.closure(full, j) for i in range(n) for j in full[i])
    return want, cyclic, dangling, cyc_any, dangling_any


def run(case):
    want, cyclic, dangling, cyc_any, dangling_any = analyse(case)
    res = graphs.run_graph(case)
    steps = [e for e in res["log"] if e[0] in ("s", "is")]
    short = {k: v for k, v in res.items() if k not in ("log", "out")}
    bad = cyclic or dangling
    if bad:
        if steps:
            raise Violation("closure is ill-formed (cyclic=%s dangling=%s) but steps were run: %s" % (cyclic, dangling, steps))
        if res["end"] == "deadlock":
            raise Violation("ill-formed graph makes the build hang")
        if case["level"] == "solver":
            if res["end"] != "exc" or not (set(res["mro"]) & set(ERRORS)):
                raise Violation("scheduler did not refuse an ill-formed list with one of its errors: %s" % short)
        elif res["end"] == "ok":
            raise Violation("ill-formed closure accepted: %s" % short)
        elif res["end"] == "exit" and res["code"] == 0:
            raise Violation("ill-formed closure ended with exit status 0")
    elif not (cyc_any or dangling_any):
        if case["level"] == "cli":
            if not (res["end"] == "ok" or res["end"] == "exit" and res["code"] == 0):
                raise Violation("well-formed graph refused: %s" % short)
        elif res["end"] != "ok" or res["value"] != "True":
            raise Violation("well-formed graph refused: %s" % short)
    # ill-formed only outside the closure: licant may plan the whole project, either outcome is fine
    return Info(bad and len(want) > 1, "level=" + case["level"], "cyclic" if cyclic else "", "dangling" if dangling else "",
                "well-formed" if not bad else "", "ill-formed elsewhere" if not bad and (cyc_any or dangling_any) else "",
                "error=" + res.get("type", res["end"]) if bad else "")
