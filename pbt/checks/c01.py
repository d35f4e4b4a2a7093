"""C01: every step of the closure exactly once, after its dependencies; nothing else; success only at the end."""
from hypothesis import strategies as st

from .. import graphs
from ..engine import Info, Violation

ID = "C01"
QUICK, THOROUGH = 12000, 60000
RULE = """A case is a DAG (random, sparse, dense, chain, layered or star; up to 10 nodes, up to 40 in some), a declaration order, a
requested target, a thread count, a level (scheduler, routines, updatable targets, file targets, mixed; some nodes are file sets) and the order in which
running steps finish (a generated schedule; one in five cases uses real threads instead). Non-trivial: the requested closure has at least
3 steps of which one has two dependencies or two dependents."""
ASSUMPTIONS = ["in simulated cases a step counts as started when the scheduler hands it to its executor"]


def strategy(tier):
    big = graphs.sched_case(max_nodes=40, modes=("sim",), max_threads=12, groups=True)
    return st.integers(0, 7).flatmap(lambda k: big if k == 3 else graphs.sched_case(groups=True))


def ladder(layers, width):
    """Every node depends on all of the layer below."""
    return [list(range((l - 1) * width, l * width)) if l else [] for l in range(layers) for _ in range(width)]


def corpus():
    base = {"order": None, "prefix": "t", "threads": 3, "sched": [1, 0, 2], "mode": "sim", "level": "solver", "res": ["None"],
            "depform": "list", "trace": False, "fail": {}}
    for deps in ([[]], [[], [0], [0], [1, 2]], [[]] + [[i] for i in range(150)], [[]] + [[0]] * 80 + [list(range(1, 81))]):
        for level in ("solver", "routine", "file"):
            n = len(deps)
            yield dict(base, deps=deps, order=list(range(n))[::-1], root=n - 1, level=level)
    # a dense graph: the number of paths must not matter
    for level in ("solver", "routine", "upd", "file", "mixed"):
        yield dict(base, deps=ladder(25, 3), order=list(range(75)), root=74, level=level)
    deep = [[]] + [[i] for i in range(1999)]
    yield dict(base, deps=deep, order=list(range(2000)), root=1999, level="file", finding=["deep-chain", "RecursionError"])


def run(case):
    res = graphs.run_graph(case)
    deps = graphs.effective(case)
    want = graphs.steps_of(case)
    if res["end"] != "ok":
        raise Violation("well-formed build of %d steps ended with %s" % (len(want), {k: v for k, v in res.items() if k not in ("log", "out")}))
    if res["value"] != "True":
        raise Violation("no step failed but the build returned %s" % res["value"])
    ev = graphs.normalise(case, res)
    started, finished = {}, {}
    for pos, e in enumerate(ev):
        if e[0] == "s":
            if e[1] in started:
                raise Violation("step %d runs twice: %s" % (e[1], ev))
            started[e[1]] = pos
            missing = [d for d in deps[e[1]] if d not in finished]
            if missing:
                raise Violation("step %d starts before its dependencies %s have finished: %s" % (e[1], missing, ev))
        elif e[0] == "f":
            finished[e[1]] = pos
    if set(started) != want:
        raise Violation("closure of the requested target is %s but the steps run are %s" % (sorted(want), sorted(started)))
    if set(finished) != want:
        raise Violation("success reported before %s finished" % sorted(want - set(finished)))
    for e in res["log"]:
        if e[0] == "args":
            raise Violation("step %d received unexpected arguments %s" % (e[1], e[2]))
    outdeg = {}
    for i in want:
        for d in deps[i]:
            outdeg[d] = outdeg.get(d, 0) + 1
    shared = any(v > 1 for v in outdeg.values()) or any(len(deps[i]) > 1 for i in want)
    return Info(len(want) >= 3 and shared, "level=" + case["level"], "mode=" + case["mode"],
                "threads=%s" % (case["threads"] if case["threads"] < 4 else "4+"),
                "diamond" if shared else "", "file sets" if case.get("groups") else "", "partial closure" if len(want) < len(deps) else "",
                "choice points" if res.get("sim", {}).get("choices") else "",
                "steps>10" if len(want) > 10 else "")
