"""C02: at most N in progress; never idle while a step is ready."""
from hypothesis import strategies as st

from .. import graphs
from ..engine import Info, Violation

ID = "C02"
QUICK, THOROUGH = 10500, 50000
RULE = """A case is a DAG of succeeding steps, N threads and a finishing order; a fifth of the cases takes N from the command line's -j.
At every point where the scheduler is idle the number of steps in progress must be min(N, steps whose dependencies have finished).
A few cases use real threads with a barrier that only N concurrent steps can pass. Non-trivial: at some idle point two or more steps are in progress
and either N or the graph is what limits them."""
ASSUMPTIONS = ["in simulated cases a step counts as in progress from its submission to the loop's executor; real-thread cases check that the executor has the threads"]


@st.composite
def barrier_case(draw):
    k = draw(st.sampled_from([2, 3, 4, 8, 16, 30, 48]))
    extra = draw(st.integers(0, 3))
    deps = [[] for _ in range(k)] + [[draw(st.integers(0, k - 1))] for _ in range(extra)]
    deps.append(list(range(len(deps))))
    case = draw(graphs.sched_case(levels=("solver", "routine", "file"), modes=("threads",)))
    n = len(deps)
    case.update(deps=deps, root=n - 1, order=draw(st.permutations(list(range(n)))), threads=k + draw(st.integers(0, 2)),
                barrier={"nodes": list(range(k)), "parties": k, "timeout": 40})
    return case


def strategy(tier):
    sim = graphs.sched_case(max_nodes=12, levels=("solver", "routine", "upd", "file", "mixed", "cli"), modes=("sim",), max_threads=8)
    big = graphs.sched_case(max_nodes=30, levels=("solver", "routine"), modes=("sim",), max_threads=20)
    return st.integers(0, 39).flatmap(lambda k: barrier_case() if k == 39 else big if k > 34 else sim)


def run(case):
    res = graphs.run_graph(case, timeout=120)
    deps, n = case["deps"], case["threads"]
    if case["level"] == "solver":
        want = set(range(len(deps)))
    else:
        want = graphs.closure(deps, case["root"])
    if case["mode"] == "threads":
        ok = res["end"] == "ok" and res["value"] == "True"
        if not ok:
            raise Violation("%d independent steps on %d threads were not in progress together: %s" % (
                case["barrier"]["parties"], n, {k: v for k, v in res.items() if k != "log"}))
        return Info(True, "real threads barrier", "level=" + case["level"])
    ok = res["end"] == "ok" and (res["value"] == "True" or case["level"] == "cli" and res["value"] == "returned")
    if not ok:
        raise Violation("build without failures did not succeed: %s" % {k: v for k, v in res.items() if k not in ("log", "out")})
    ev = graphs.normalise(case, res)
    started, finished = set(), set()
    progress = 0
    limited = False
    for pos, e in enumerate(ev):
        if e[0] in ("s", "anon"):
            progress += 1
            if progress > n:
                raise Violation("%d steps in progress with %d threads: %s" % (progress, n, ev))
            if e[0] == "s":
                started.add(e[1])
        elif e[0] == "f":
            progress -= 1
            finished.add(e[1])
        elif e[0] == "i":
            idle_ready = [i for i in want if i not in started and all(d in finished for d in deps[i])]
            if progress < n and idle_ready:
                raise Violation("steps %s are ready but only %d of %d threads are busy: %s" % (idle_ready, progress, n, ev))
            if progress > 1:
                limited = True
    return Info(limited, "level=" + case["level"], "N=%s" % (n if n < 5 else "5+"),
                "saturated" if res["sim"]["max"] == n and n > 1 else "", "two or more in progress" if limited else "")
