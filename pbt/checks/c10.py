"""C10: routines and updatable targets in one process."""
import os

from hypothesis import strategies as st

from .. import graphs
from ..engine import CaseDir, Info, Violation, chance, in_child, need_ok, outcome
from ..sim import Sim, install

ID = "C10"
QUICK, THOROUGH = 10000, 80000
RULE = """A case is a graph of up to 9 routines, updatable targets and file targets (dependencies by name or object, three ways of declaring,
default or own core), whose conditions are booleans the history changes (or the defaults: routines always, updatable targets never), and a
sequence of up to 7 requests in one process with argument lists, by five entry points, some with a step that fails. For each request the
set of executed functions must be exactly the model's needed set, each once, dependencies first, with the request's arguments for the
requested routine and none for the others. Non-trivial: two requests with different executed sets, or arguments given to a routine that runs
as a dependency later."""
ARGS = ["a", "", "x y", "-q", "--opt=1", "é", "1", "None", "a,b", "'"]
VIAS = ["invoke", "default", "do", "do_obj", "update_action"]


@st.composite
def cases(draw):
    deps = draw(graphs.dag(max_nodes=9))
    n = len(deps)
    kinds, conds = [], []
    for i in range(n):
        k = draw(st.sampled_from(["routine", "routine", "upd", "upd", "file"]))
        if k == "file":
            deps[i] = []
        kinds.append(k)
        conds.append(draw(st.sampled_from(["var", "var", "var", "default"])) if k != "file" else "file")
    hist = []
    for _ in range(draw(st.integers(2, 7))):
        t = n - 1 if draw(st.booleans()) else draw(st.integers(0, n - 1))
        via = draw(st.sampled_from(VIAS))
        args = draw(st.lists(st.sampled_from(ARGS), max_size=3)) if kinds[t] == "routine" and via != "update_action" else []
        hist.append({"t": t, "via": via, "args": args,
                     "true": sorted(draw(st.sets(st.integers(0, n - 1), max_size=2))),
                     "fail": [draw(st.integers(0, n - 1)), draw(st.sampled_from(["false", "raise", "stop", "exit"]))] if chance(draw, 6) else None,
                     "kind": draw(st.sampled_from([0, 0, 1, 2]))})
    return {"deps": deps, "kinds": kinds, "conds": conds, "hist": hist, "default_core": draw(st.booleans()),
            "order": draw(st.permutations(list(range(n)))), "style": draw(st.integers(0, 5)),
            "j": draw(st.integers(1, 3)), "sched": draw(st.lists(st.integers(0, 23), max_size=8)),
            "real": chance(draw, 8), "unset_threads": draw(st.booleans())}


def strategy(tier):
    return cases()


def child(case):
    import licant
    import threading
    from licant.core import default_core
    if not case["real"]:
        install(Sim(case["sched"]))
    core = default_core() if case["default_core"] else licant.Core()
    if not case["unset_threads"]:
        core.runtime["threads"] = case["j"]
    log, truth, fail, lock = [], set(), {}, threading.Lock()
    deps, kinds, conds = case["deps"], case["kinds"], case["conds"]
    objs = {}

    def body(i):
        def fn(*a):
            with lock:
                log.append([i, [repr(x) for x in a]])
            if fail.get(i) == "raise":
                raise ValueError("injected")
            if fail.get(i) == "stop":
                next(iter(()))
            if fail.get(i) == "exit":
                raise SystemExit(2)
            if fail.get(i) == "false":
                return False
            if kinds[i] == "file":
                with open("f%d" % i, "w"):
                    pass
            return [None, True, 0, "", []][i % 5]
        fn.__name__ = "n%d" % i
        return fn

    def name(i):
        return "f%d" % i if kinds[i] == "file" else "n%d" % i

    def declare():
        for i in case["order"]:
            ds = [objs[d] if d in objs and (case["style"] + i) % 3 == 0 else name(d) for d in deps[i]]
            cond = {} if conds[i] != "var" else {"update_if": lambda s, i=i: [True, 1, "yes", [0]][i % 4] if i in truth else [False, 0, "", None][i % 4]}
            f = body(i)
            if kinds[i] == "routine":
                s = (case["style"] + i) % 3
                if case["default_core"] and s == 0:
                    licant.routine(deps=ds, **cond)(f)
                elif s == 1:
                    core.routine(f, deps=ds, **cond)
                elif not ds and not cond:
                    core.routine(f)
                else:
                    f.__name__ = "other"
                    core.routine(deps=ds, tgt="n%d" % i, **cond)(f)
            elif kinds[i] == "upd":
                o = core.updtarget(name(i), deps=ds, update=lambda s, f=f: f(), **cond)
                if case["style"] % 2:
                    objs[i] = o
            else:
                objs[i] = core.add(licant.FileTarget("f%d" % i, build=lambda s, f=f: f(), deps=ds))
        return True
    res = {"declared": outcome(declare), "reqs": []}
    if res["declared"]["end"] != "ok":
        return res
    for rq in case["hist"]:
        log.clear()
        fail.clear()
        truth.clear()
        truth.update(rq["true"])
        if rq["fail"]:
            fail[rq["fail"][0]] = rq["fail"][1]
        missing = [i for i in range(len(deps)) if kinds[i] == "file" and not os.path.exists("f%d" % i)]
        t = core.get(name(rq["t"]))
        args = list(rq["args"])
        if rq["kind"] == 1:
            args = [[a] for a in args]       # any objects, not only strings
        elif rq["kind"] == 2:
            args = [len(a) for a in args]

        def go():
            if rq["via"] == "do":
                return core.do(name(rq["t"]), args=args)
            if rq["via"] == "do_obj":
                return core.do(t, args=args)
            if rq["via"] == "invoke" and kinds[rq["t"]] == "routine":
                return t.invoke("invoke_routine", args=args)
            if rq["via"] == "default":
                return t.invoke(t.default_action, args=args)
            return t.invoke("recurse_update")
        out = outcome(lambda: repr(go()))
        res["reqs"].append({"out": out, "log": [list(x) for x in log], "missing": missing, "args": [repr(a) for a in args]})
    return res


def run(case):
    with CaseDir() as d:
        res = need_ok(in_child(lambda: child(case), d), "requests")
    if res["declared"]["end"] != "ok":
        raise Violation("declaring failed: %s" % res["declared"])
    deps, kinds, conds = case["deps"], case["kinds"], case["conds"]
    sets, given, carried = set(), set(), False
    for k, (rq, r) in enumerate(zip(case["hist"], res["reqs"])):
        memo = {}

        def need(i):
            if i not in memo:
                if kinds[i] == "file":
                    own = i in r["missing"]
                elif conds[i] == "var":
                    own = i in rq["true"]
                else:
                    own = kinds[i] == "routine"
                memo[i] = own or any([need(x) for x in deps[i]])
            return memo[i]
        clo = graphs.closure(deps, rq["t"])
        want = {i for i in clo if need(i)}
        ran = [e[0] for e in r["log"]]
        what = "request %d (%s of %d with %s)" % (k, rq["via"], rq["t"], r["args"])
        if len(ran) != len(set(ran)):
            raise Violation("%s ran a function twice: %s" % (what, ran))
        if set(ran) - want:
            raise Violation("%s ran %s, which did not need to run (needed: %s)" % (what, sorted(set(ran) - want), sorted(want)))
        broke = rq["fail"] and rq["fail"][0] in want
        if not broke:
            if r["out"]["end"] != "ok" or r["out"]["value"] == "False":
                raise Violation("%s ended with %s although nothing failed" % (what, r["out"]))
            if want - set(ran):
                raise Violation("%s did not run %s" % (what, sorted(want - set(ran))))
        pos = {i: x for x, i in enumerate(ran)}
        for i, args in r["log"]:
            for x in deps[i]:
                if x in want and (x not in pos or pos[x] > pos[i]):
                    raise Violation("%s ran %d before its dependency %d" % (what, i, x))
            exp = r["args"] if i == rq["t"] and rq["via"] != "update_action" else []
            if args != exp:
                raise Violation("%s: function %d got the arguments %s instead of %s" % (what, i, args, exp))
            if i in given and i != rq["t"]:
                carried = True
        if r["args"]:
            given.add(rq["t"])
        sets.add(tuple(sorted(set(ran))))
    return Info(len(sets) > 1 or carried, "default core" if case["default_core"] else "own core", "carried" if carried else "",
                "failures" if any(h["fail"] for h in case["hist"]) else "", *["via=" + h["via"] for h in case["hist"]])
