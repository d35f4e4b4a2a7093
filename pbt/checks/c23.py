"""C23: several cores in one process."""
import os
import re

from hypothesis import strategies as st

from ..engine import CaseDir, Info, Violation, chance, in_child, need_ok, outcome
from ..sim import Sim, install

ID = "C23"
QUICK, THOROUGH = 5000, 80000
RULE = """A case is two to four cores (the default one, plain and make cores) with up to six targets each - plain targets with actions, routines,
updatable and file targets, file sets, of the same names on purpose, with their own dependencies, conditions, actions, failures - declared
in turn or late, and up to ten requests to them in any order: by command line with options, by objects, by do, with arguments, reports and
target lists, some made from inside a step of another core. Oracle: for each core, a fresh process that declares and uses only that core;
result, steps with arguments, printed text and files of every request must be the same. Non-trivial: two cores share a target name with
different bodies, both are used, and one of them again after the other."""

NAMES = ["all", "run", "t1", "gen", "clean", "x y"]
ACTS = ["run", "deploy", "list", "go"]
ARGS = ["a", "", "x y", "é"]


@st.composite
def cases(draw):
    ncores = draw(st.sampled_from([2, 2, 3, 4]))
    kinds = draw(st.permutations(["default", "core", "make", "make"]))[:ncores]
    cores = []
    sets = chance(draw, 3)      # every core has files, and a set of the same name to build and to clean
    for c in range(ncores):
        targets = []
        names = draw(st.permutations(NAMES[1:] if sets else NAMES))[:draw(st.integers(1, 6))] + (["all"] if sets else [])
        for i, nm in enumerate(names):
            k = draw(st.sampled_from(["target", "routine", "routine", "upd", "upd", "file", "set"]))
            if sets and (i == 0 or nm == "all"):
                k = "file" if i == 0 else "set"
            prev = [j for j in range(i) if targets[j]["k"] != "target"]
            if k in ("file", "set"):
                prev = [j for j in prev if targets[j]["k"] in ("file", "set")]
            t = {"k": k, "name": nm, "deps": sorted(draw(st.sets(st.sampled_from(prev), max_size=3))) if prev and k != "target" else [],
                 "acts": draw(st.lists(st.sampled_from(ACTS), max_size=2, unique=True)) if k != "routine" else [],
                 "cond": draw(st.sampled_from([True, True, True, False])), "fail": draw(st.sampled_from([None] * 7 + ["false", "raise"])), "nest": None, "sh": draw(st.booleans())}
            targets.append(t)
        if any(t["k"] == "file" for t in targets):
            for t in targets:
                t["fail"] = None      # which steps still run beside a failing one is open, and files remember it
        cores.append({"k": kinds[c], "targets": targets, "late": c > 0 and chance(draw, 3), "j": draw(st.integers(1, 3))})
    # a step that uses another core
    if chance(draw, 4):
        c = draw(st.integers(0, ncores - 1))
        o = (c + draw(st.integers(1, ncores - 1))) % ncores
        may = [t for t in cores[c]["targets"] if t["k"] in ("routine", "upd", "target") and not t["fail"]]
        if may:
            draw(st.sampled_from(may))["nest"] = [o, draw(st.integers(0, len(cores[o]["targets"]) - 1))]
    reqs = []
    for _ in range(draw(st.integers(2, 10))):
        c = draw(st.integers(0, ncores - 1))
        files_ = [i for i, t in enumerate(cores[c]["targets"]) if t["k"] in ("file", "set")]
        clean = bool(files_) and chance(draw, 2)
        if sets and draw(st.booleans()):
            files_, clean = [len(cores[c]["targets"]) - 1], True
        r = {"c": c, "t": draw(st.sampled_from(files_) if clean else st.integers(0, len(cores[c]["targets"]) - 1)), "via": draw(st.sampled_from(["cli", "cli", "default", "invoke", "do", "clidef", "list", "report"])),
             "act": draw(st.sampled_from(["clean", "makefile", None] if clean else [None, None] + ACTS)), "args": draw(st.lists(st.sampled_from(ARGS), max_size=2)),
             "flags": draw(st.sampled_from([[], [], ["-q"], ["-d"], ["-j2"], ["-j1", "-q"]]))}
        reqs.append(r)
    return {"cores": cores, "reqs": reqs, "sched": draw(st.lists(st.integers(0, 23), max_size=6)), "real": any(t["nest"] for c in cores for t in c["targets"]) or chance(draw, 8)}


def strategy(tier):
    return cases()


def tname(c, t):
    return "f%d/%s" % (c, t["name"].replace(" ", "_")) if t["k"] == "file" else t["name"]


def declare(case, c, core, log, nested):
    import licant
    import licant.make
    spec = case["cores"][c]
    os.makedirs("f%d" % c, exist_ok=True)
    for i, t in enumerate(spec["targets"]):
        nm = tname(c, t)
        deps = [tname(c, spec["targets"][d]) for d in t["deps"]]

        def body(what, *args, i=i, t=t):
            log(["step", c, i, what, [str(a) for a in args]])
            if t["nest"] and what != "act":
                nested(t["nest"][0], t["nest"][1])
            if t["k"] == "file":
                with open(tname(c, t), "w") as h:
                    h.write("%d.%d" % (c, i))
            if t["fail"] == "raise":
                raise ValueError("injected")
            return False if t["fail"] == "false" else True
        kw = {a: (lambda s, *args, a=a, b=body: b("act", a, *args)) for a in t["acts"]}
        if t["k"] == "target":
            core.target(nm, deps=deps, action=lambda s, *args, b=body: b("action", *args), actions=set(t["acts"]), **kw)
        elif t["k"] == "routine":
            core.routine(lambda *args, b=body: b("routine", *args), tgt=nm, deps=deps, **({} if t["cond"] else {"update_if": lambda s: False}))
        elif t["k"] == "upd":
            core.updtarget(nm, deps=deps, update=lambda s, b=body: b("update"), update_if=lambda s, t=t: t["cond"], actions=t["acts"], **kw)
        elif t["k"] == "file" and t["sh"]:
            cmd, msg = "echo %d.%d >> {tgt}; exit %d" % (c, i, bool(t["fail"])), "BUILDS %d.%d" % (c, i)
            if spec["k"] == "make":
                core.ftarget(nm, exec=cmd, deps=deps, message=msg)
            else:
                licant.makefile(nm, deps, cmd, core=core, message=msg, actions=t["acts"], **kw)
        elif t["k"] == "file" and spec["k"] == "make":
            core.ftarget(nm, build=lambda s, b=body: b("build"), deps=deps)
        elif t["k"] == "file":
            core.add(licant.FileTarget(nm, build=lambda s, b=body: b("build"), deps=deps, actions=t["acts"], **kw))
        else:
            licant.fileset(nm, targets=deps, core=core, actions=t["acts"], **kw)
    return True


def child(case, only):
    """Everything, or only what concerns one core."""
    import licant
    if not case["real"]:
        install(Sim(case["sched"]))
    logs = []
    cores = {}
    for c, spec in enumerate(case["cores"]):
        if only is None or c == only:
            cores[c] = licant.default_core() if spec["k"] == "default" else licant.MakeCore() if spec["k"] == "make" else licant.Core()
            cores[c].runtime["threads"] = spec["j"]

    def nested(c, i):
        """From inside a step: the same as a request of its own."""
        serve({"c": c, "t": i, "via": "do", "act": None, "args": [], "flags": []}, True)

    def serve(r, inner):
        if r["c"] not in cores:
            return
        c, core = r["c"], cores[r["c"]]
        if c not in declared:
            declared[c] = outcome(lambda: declare(case, c, core, logs.append, nested))
        t = case["cores"][c]["targets"][r["t"]]
        nm = tname(c, t)
        act = [r["act"]] if r["act"] and t["k"] != "routine" else []
        built_in = r["act"] in ("clean", "makefile")
        args = r["args"] if (t["k"] in ("routine", "target") or act) and not built_in else []

        def f():
            via = r["via"]
            if via == "cli":
                licant.ex(None, argv=r["flags"] + ["--", nm] + act + args, core=core)
            elif via == "clidef":
                licant.ex(nm, argv=r["flags"] + (["--"] + act + args if act else []), core=core)
            elif via == "do":
                core.do(nm, act[0] if act else None, args=args)
            elif via == "list":
                print(sorted(str(x) for x in core.targets if ("f%d/" % c in x or x in NAMES)))
            elif via == "report":
                print(licant.util.get_actions(core.get(nm)), core.get(nm).deps)
            else:
                x = core.get(nm)
                return x.invoke(act[0] if act and (act[0] in t["acts"] or built_in) else x.default_action, args=args)
        logs.append(["begin", c])
        print("\n@@B%d" % c)
        o = outcome(f)
        print("\n@@E")
        if o["end"] == "ok":
            o = {"end": "ok", "value": repr(o["value"]) if isinstance(o["value"], (bool, type(None))) else None}
        logs.append(["end", c, o["end"], o.get("code"), o.get("value"), o.get("type"), [core.runtime[x] for x in ("threads", "quite", "debug", "trace")]])

    declared = {}
    for c, spec in enumerate(case["cores"]):
        if not spec["late"] and c in cores:
            declared[c] = outcome(lambda: declare(case, c, cores[c], logs.append, nested))
    if only is None:
        for r in case["reqs"]:
            serve(r, False)
    else:
        for r in only_reqs:
            serve(r, False)
    return {"declared": {str(c): d["end"] for c, d in declared.items()}, "log": logs}


only_reqs = []


def per_core(v, text, n, root):
    """What each core's requests did, in order: result, steps, text. Requests inside a step count for their own core."""
    reqs = {c: [] for c in range(n)}
    stack, order = [], []
    for e in v["log"]:
        if e[0] == "begin":
            x = {"c": e[1], "steps": [], "end": None, "text": []}
            reqs[e[1]].append(x)
            stack.append(x)
            order.append(x)
        elif e[0] == "end":
            stack.pop()["end"] = e[2:]
        else:
            [x for x in stack if x["c"] == e[1]][-1]["steps"].append(e[2:])
    st_, k = [], 0
    for l in text.replace(root, "ROOT").split("\n"):
        if re.match(r"@@B\d+$", l):
            st_.append(order[k])
            k += 1
        elif l == "@@E":
            st_.pop()
        elif st_ and l.strip():
            st_[-1]["text"].append(l)
    return reqs


def run(case):
    n = len(case["cores"])
    nested = any(t["nest"] for c in case["cores"] for t in c["targets"])
    with CaseDir() as base:
        root = os.path.join(base, "all")
        os.mkdir(root)
        ch = in_child(lambda: child(case, None), root, timeout=60)
        v = need_ok(ch, "several cores")
        got = per_core(v, ch.out.decode("utf-8", "replace"), n, root)
        # requests as they came about, for each core
        begun = {c: [] for c in range(n)}
        top = iter(case["reqs"])
        depth = 0
        for e in v["log"]:
            if e[0] == "begin":
                if depth == 0:
                    begun[e[1]].append(next(top))
                else:
                    begun[e[1]].append(None)
                depth += 1
            elif e[0] == "end":
                depth -= 1
        nests = {c: [] for c in range(n)}
        for e in v["log"]:
            if e[0] == "step":
                x = case["cores"][e[1]]["targets"][e[2]]["nest"]
                if x and e[3] != "act":
                    nests[x[0]].append(x[1])
        for c in range(n):
            queue = list(nests[c])
            rs = []
            for r in begun[c]:
                rs.append(r or {"c": c, "t": queue.pop(0), "via": "do", "act": None, "args": [], "flags": []})
            if not rs:
                continue
            own = os.path.join(base, "only%d" % c)
            os.mkdir(own)
            only_reqs[:] = rs
            cj = in_child(lambda: child(case, c), own, timeout=60)
            w = need_ok(cj, "one core")
            alone = per_core(w, cj.out.decode("utf-8", "replace"), n, own)[c]
            if w["declared"].get(str(c)) != "ok":
                raise Violation("declaring one core failed: %s" % w["declared"])
            if v["declared"].get(str(c)) != "ok":
                raise Violation("declaring core %d beside the others failed: %s" % (c, v["declared"]))
            for k, (a, b) in enumerate(zip(got[c], alone)):
                what = "core %d (%s), request %d %s" % (c, case["cores"][c]["k"], k, rs[k])
                if a["end"] != b["end"]:
                    raise Violation("%s ends with %s beside other cores, with %s alone" % (what, a["end"], b["end"]))
                ts = case["cores"][c]["targets"]
                if a["end"][0] != "ok" or any(ts[x[0]]["fail"] for x in a["steps"] + b["steps"]) or any(t["sh"] and t["fail"] for t in ts):
                    continue       # which steps still run beside a failing one is open
                if sorted(map(repr, a["steps"])) != sorted(map(repr, b["steps"])):
                    raise Violation("%s runs %s beside other cores, %s alone" % (what, a["steps"], b["steps"]))
                if not nested and sorted(a["text"]) != sorted(b["text"]):
                    raise Violation("%s prints %s beside other cores, %s alone" % (what, a["text"], b["text"]))
            fa, fb = files(root, c), files(own, c)
            if fa != fb:
                raise Violation("files of core %d are %s beside other cores, %s alone" % (c, fa, fb))
    seq = [r["c"] for r in case["reqs"]]
    again = any(x == z != y for x, y, z in zip(seq, seq[1:], seq[2:])) or len(seq) != len(set(seq)) and len(set(seq)) > 1
    names = [{t["name"] for t in c["targets"]} for c in case["cores"]]
    shared = any(names[a] & names[b] for a in set(seq) for b in set(seq) if a < b)
    return Info(shared and again, "cores=%d" % n, nested and any(nests.values()) and "nested", *sorted({"via=" + r["via"] for r in case["reqs"]}))


def files(root, c):
    d, out = os.path.join(root, "f%d" % c), {}
    for x in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        with open(os.path.join(d, x)) as h:
            out[x] = h.read()
    return out
