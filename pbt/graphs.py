"""Dependency graphs of recording steps, run through licant's scheduler at several levels (C01-C04)."""
import os
import threading

from hypothesis import strategies as st

from .engine import CaseDir, in_child, need_ok, outcome, HarnessError
from .sim import Sim, install

PREFIXES = ["t", "t", "t", "step ", "шаг-", "a/b.", "headers://", "T:"]
OK_RESULTS = ["None", "True", "0", "''", "'x'", "[]", "1"]      # everything except the object False is success
FAIL_MODES = ["false", "false", "raise", "raise", "raise_os", "raise_run", "raise_proc", "raise_stop", "raise_gen", "raise_cancel", "raise_base",
              "raise_group", "exit", "error"]


@st.composite
def dag(draw, max_nodes=10, shape=True):
    """deps[i] is a subset of range(i): acyclic by construction."""
    n = draw(st.integers(min(4, max_nodes), max_nodes)) if draw(st.integers(0, 6)) else draw(st.integers(1, 3))
    kind = draw(st.sampled_from(["rand", "rand", "rand", "sparse", "dense", "chain", "layers", "star"]))
    deps = []
    for i in range(n):
        if i == 0:
            deps.append([])
        elif kind == "chain":
            deps.append([i - 1])
        elif kind == "star":
            deps.append([0] if i < n - 1 else list(range(1, n - 1)) or [0])
        elif kind == "layers":
            lo = (i // 3) * 3
            deps.append(sorted(draw(st.sets(st.integers(max(0, lo - 3), lo - 1), max_size=3))) if lo else [])
        else:
            m = {"rand": 3, "sparse": 1, "dense": 6}[kind]
            deps.append(sorted(draw(st.sets(st.integers(0, i - 1), max_size=m))))
    return deps


def closure(deps, root):
    seen, todo = set(), [root]
    while todo:
        i = todo.pop()
        if i not in seen:
            seen.add(i)
            todo.extend(deps[i])
    return seen


@st.composite
def sched_case(draw, max_nodes=10, levels=("solver", "routine", "upd", "file", "mixed"), modes=("sim", "sim", "sim", "sim", "threads"),
               max_threads=6, groups=False):
    deps = draw(dag(max_nodes))
    n = len(deps)
    level = draw(st.sampled_from(list(levels)))
    gr = []
    if groups and level in ("file", "mixed", "cli") and draw(st.booleans()):
        gr = sorted(draw(st.sets(st.integers(0, n - 1), max_size=max(1, n // 3))))
    return {
        "groups": gr,
        "deps": deps,
        "order": draw(st.permutations(list(range(n)))),
        "prefix": draw(st.sampled_from(PREFIXES)),
        "threads": draw(st.integers(1, max_threads)),
        "sched": draw(st.lists(st.integers(0, 23), max_size=14)),
        "mode": draw(st.sampled_from(list(modes))),
        "level": level,
        "via": draw(st.sampled_from(["invoke", "invoke", "default", "do", "do_default", "licant.do"])),
        "root": draw(st.integers(max(0, n - 3), n - 1)),
        "res": draw(st.lists(st.sampled_from(OK_RESULTS), min_size=1, max_size=3)),
        "depform": draw(st.sampled_from(["list", "set", "tuple", "dup"])),
        "trace": draw(st.booleans()) if draw(st.booleans()) else False,
        "fail": {},
    }


def effective(case):
    """deps of every step through the file sets (which have no step of their own)."""
    gr = set(case.get("groups", []))
    deps = case["deps"]
    if not gr:
        return deps
    out = []
    for i in range(len(deps)):
        res, seen, todo = [], set(), list(deps[i])
        while todo:
            d = todo.pop(0)
            if d in seen:
                continue
            seen.add(d)
            if d in gr:
                todo += deps[d]
            else:
                res.append(d)
        out.append(sorted(res))
    return out


def steps_of(case):
    """The steps that building the requested target runs."""
    want = set(range(len(case["deps"]))) if case["level"] == "solver" else closure(case["deps"], case["root"])
    return want - set(case.get("groups", []))


def node_name(case, i):
    return case["prefix"] + str(i)


class Recorder:
    """Logs steps; in sim mode a step is 'in progress' from its submission, so the k-th submission is logged too."""

    def __init__(self, sim=None):
        self.ev = []
        self.lock = threading.Lock()
        self.sim = sim
        self.k = 0

    def start(self, i):
        with self.lock:
            self.ev.append(["s", i])

    def finish(self, i, ok):
        with self.lock:
            self.ev.append(["f", i, bool(ok)])


def fail_action(mode, name):
    if mode == "false":
        return False
    if mode == "raise":
        raise ValueError("step " + name)
    if mode == "raise_os":
        raise OSError(2, "step " + name)
    if mode == "raise_run":
        raise RuntimeError("step " + name)
    if mode == "raise_stop":
        next(iter([]))
    if mode == "raise_gen":
        raise GeneratorExit("step " + name)
    if mode == "raise_cancel":
        import asyncio
        raise asyncio.CancelledError("step " + name)
    if mode == "raise_base":
        raise type("Odd", (BaseException,), {})("step " + name)
    if mode == "raise_group":
        raise BaseExceptionGroup("step " + name, [ValueError(1), GeneratorExit()])
    if mode == "exit":
        import sys
        sys.exit(3)
    if mode == "error":
        import licant
        licant.error("step " + name)
    if mode == "raise_proc":
        import subprocess
        raise subprocess.CalledProcessError(3, "cmd of " + name)
    raise HarnessError(mode)


def child_run(case, cwd):
    """Runs in the forked child: declares the graph, builds, returns the event log."""
    import licant
    import licant.core
    from licant.solver import DependableTarget, InverseRecursiveSolver
    deps, n = case["deps"], len(case["deps"])
    threads = case["threads"]
    sim = None
    log = []
    if case["mode"] == "sim":
        sim = Sim(case["sched"], on_idle=lambda s: log.append(["i"]))
        install(sim)
        sim.on_batch = lambda n: log.append(["b", n])

        # submissions are numbered; the step that a submission turns out to run is learnt when it is picked
        class Pending(list):
            def append(self, item):
                k = sim.submitted
                log.append(["sub", k])
                list.append(self, (item[0], lambda f=item[1], k=k: run_sub(k, f)))

        current = [None]

        def run_sub(k, f):
            current[0] = k
            log.append(["pick", k])
            try:
                return f()
            finally:
                log.append(["done", k])
                current[0] = None
        sim.pending = Pending()
    lock = threading.Lock()

    def step(i, name, *a, **kw):
        if sim is None:
            with lock:
                log.append(["s", i])
        else:
            log.append(["is", current[0], i])
        mode = case["fail"].get(str(i))
        ok = False
        try:
            if case.get("barrier") and sim is None and i in case["barrier"]["nodes"]:
                barrier.wait(timeout=case["barrier"]["timeout"])
            if mode is not None:
                return fail_action(mode, name)
            if a != tuple(case.get("stepargs", ())) or kw != {}:
                log.append(["args", i, repr((a, kw))])
            ok = True
            return eval(case["res"][i % len(case["res"])])
        finally:
            with lock:
                log.append(["f", i, ok])

    if case.get("barrier"):
        barrier = threading.Barrier(case["barrier"]["parties"])

    name = {i: node_name(case, i) for i in range(n)}
    dangling = {int(k): v for k, v in case.get("dangling", {}).items()}
    extra = {int(k): v for k, v in case.get("back", {}).items()}       # extra edges that may close cycles

    def deplist(i):
        l = [name[j] for j in deps[i]] + [name[j] for j in extra.get(i, [])] + list(dangling.get(i, []))
        if case["level"] in ("file", "mixed", "cli"):
            l = [path_or_name(x) for x in l]
        f = case["depform"]
        if case["level"] == "solver":
            return {"list": l, "set": set(l), "tuple": tuple(l), "dup": l + l[:1]}[f]
        return l + l[:1] if f == "dup" else l

    def kind(i):
        if i in case.get("groups", []):
            return "group"
        if case["level"] == "mixed":
            return ["routine", "upd", "file"][i % 3] if case.get("mixfile", True) else ["routine", "upd"][i % 2]
        if case["level"] == "cli":
            return ["routine", "upd", "file"][(i + case["threads"]) % 3]
        return case["level"]

    idx = {v: k for k, v in name.items()}

    def path_or_name(x):
        return x

    def go():
        if case["level"] == "solver":
            targets = []
            for i in case["order"]:
                targets.append(DependableTarget(name[i], deplist(i), step, args=[i, name[i]]))
            s = InverseRecursiveSolver(targets, count_of_threads=threads, trace=case["trace"])
            return repr(s.exec())
        via = case.get("via", "invoke")
        core = licant.MakeCore() if via != "licant.do" else licant.default_core()
        core.runtime["threads"] = threads
        if case["trace"]:
            core.runtime["trace"] = True
        for i in case["order"]:
            k = kind(i)
            if k == "routine":
                def func(*a, i=i):
                    return step(i, name[i], *a)
                core.routine(func, deps=deplist(i), tgt=name[i])
            elif k == "group":
                licant.fileset(name[i], deplist(i), core=core)
            elif k == "upd":
                core.updtarget(name[i], deps=deplist(i), update_if=lambda s: True,
                               update=lambda s, i=i: step(i, name[i]))
            else:
                def build(s, i=i):
                    r = step(i, name[i])
                    if not case.get("nofile"):
                        open(s.tgt, "w").close()
                    return r
                core.add(licant.FileTarget(tgt=name[i], deps=deplist(i), build=build, use_dirkeep=False))
        rootname = name[case["root"]]
        if case["level"] == "cli":
            argv = ["-j", str(threads)] + (["-t"] if case["trace"] else []) + case.get("argv", [])
            licant.ex(default=rootname, argv=argv, core=core)
            return "returned"
        t = core.get(rootname)
        if via == "default":
            return repr(t.invoke(t.default_action))
        if via == "do":
            return repr(core.do(rootname, "recurse_update"))
        if via == "do_default":
            return repr(core.do(t))
        if via == "licant.do":
            return repr(licant.do(rootname))
        return repr(t.invoke("recurse_update"))

    res = outcome(go)
    res["log"] = log
    if sim is not None:
        res["sim"] = {"max": sim.max_in_progress, "left": len(sim.pending), "choices": sim.choices,
                      "submitted": sim.submitted}
    return res


def run_graph(case, timeout=60):
    with CaseDir() as d:
        if case["prefix"] == "a/b.":
            os.mkdir(os.path.join(d, "a"))
        if case["prefix"] == "headers://":
            os.mkdir(os.path.join(d, "headers:"))
        c = in_child(lambda: child_run(case, d), d, timeout=timeout)
        v = need_ok(c, "graph build")
        v["out"] = c.out.decode("utf-8", "replace")
    return v


def normalise(case, res):
    """Event list [("s", i) | ("f", i, ok) | ("i",)] with starts at submission time in sim mode."""
    log = res["log"]
    if case["mode"] != "sim":
        return [tuple(e) for e in log if e[0] in "sf"]
    owner = {}
    multi = []
    for e in log:
        if e[0] == "is":
            if e[1] in owner:
                multi.append(e[2])
            owner.setdefault(e[1], e[2])
    out = []
    seen_multi = 0
    for e in log:
        if e[0] == "sub":
            if e[1] in owner:
                out.append(("s", owner[e[1]]))
            else:
                out.append(("anon", e[1]))
        elif e[0] == "is" and owner.get(e[1]) != e[2]:
            out.append(("s", e[2]))
        elif e[0] == "is" and e[1] is None:
            out.append(("s", e[2]))
        elif e[0] == "f":
            out.append(("f", e[1], e[2]))
        elif e[0] in "ib":
            out.append(tuple(e))
    return out
