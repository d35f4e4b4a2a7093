"""C11: command line dispatch."""
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

from ..engine import CaseDir, Info, Violation, chance, in_child, need_ok, outcome
from ..sim import Sim, install

ID = "C11"
QUICK, THOROUGH = 5000, 80000
RULE = """A case is a set of targets (plain targets with custom actions and class actions, routines, updatable targets, file targets, file sets)
some with callable attributes that are no actions, whose names and action names clash on purpose, a default target or none, and an argument vector: positional words drawn from names, actions,
unknown and odd words, with -q -d -t -j in several spellings before and/or after them (and after '--' words that look like options). A
reference dispatcher says what runs with which arguments, or that nothing runs and the status is non-zero. One in ten cases is a real
process whose script calls licant.ex; others call it up to three times in one process with different words and
defaults, and each call must obey its own, and some
scripts add an option of their own and read it first. Non-trivial: two or more positional words, or a name that is both a target and an action, an error, or several calls."""
WORDS = ["all", "run", "build", "clean", "list", "x", "up date", "t1", "сборка", "a,b"]
ACTS = ["run", "build", "list", "x", "go", "update", "clean", "deploy"]
FREE = ["run", "list", "x", "go", "deploy"]     # no built-in action
ODDWORDS = ["nosuch", "", "a b", "x y z", "1", "*", "=", "run2", "--", "action"]
KINDS = ["target", "target", "routine", "routine", "upd", "file", "set"]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    names = draw(st.permutations(WORDS))[:n]
    targets = []
    for i, nm in enumerate(names):
        k = draw(st.sampled_from(KINDS))
        t = {"name": nm, "k": k, "acts": [], "deps": []}
        if k == "target":
            t["acts"] = draw(st.lists(st.sampled_from(ACTS), unique=True, max_size=3))
            t["ghost"] = chance(draw, 10)
        elif k in ("upd", "set") and i:
            t["deps"] = sorted(draw(st.sets(st.sampled_from([x["name"] for x in targets if x["k"] != "target"] or [None]), max_size=2)) - {None})
        if k in ("upd", "file", "set"):
            t["acts"] = draw(st.lists(st.sampled_from(FREE), unique=True, max_size=1))
        if k != "routine":     # attributes that could be called but are no actions
            t["hidden"] = sorted(set(draw(st.lists(st.sampled_from(FREE), max_size=2))) - set(t["acts"]))
        if k == "file":
            t["name"] = "f/" + nm.replace(" ", "_")
        targets.append(t)
    tn = [t["name"] for t in targets]
    default = draw(st.sampled_from(tn + [None] + (["ghost target"] if chance(draw, 4) else [])))

    def call(default):
        argv = []
        nw = draw(st.integers(0, 4))
        for i in range(nw):
            pool = tn + [a for t in targets for a in t["acts"] + t.get("hidden", [])] if draw(st.integers(0, 5)) and i < 2 else ACTS + ODDWORDS + tn
            argv.append(draw(st.sampled_from(pool)))
        return {"default": default, "words": [w for w in argv if w != "--"], "before": draw(opts()), "after": draw(opts()), "dash": chance(draw, 8)}
    case = call(default)
    case.update({"targets": targets, "process": chance(draw, 10), "more": [], "extra": draw(st.sampled_from([None, None, "no", "yes", "two words"])),
                 "own_core": draw(st.booleans()), "colorwrap": chance(draw, 5), "sched": draw(st.lists(st.integers(0, 23), max_size=4))})
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
        case["more"].append(call(draw(st.sampled_from([default, default] + tn + [None]))))
    return case


@st.composite
def opts(draw):
    out = []
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
        out.append(draw(st.sampled_from([["-q"], ["-d"], ["-t"], ["--quite"], ["--debug"], ["--trace"], ["-j1"], ["-j", "3"], ["--threads=2"],
                                         ["--threads", "8"], ["-qd"], ["-dj2"], ["--printruntime"]])))
    return [w for o in out for w in o]


def strategy(tier):
    return cases()


def argv_of(case):
    words = list(case["words"])
    if case.get("extra", "no") not in (None, "no") and not case["process"]:
        case = dict(case, before=case["before"] + ["--extra", case["extra"]])
    if case["dash"] and words and not case["after"]:
        return case["before"] + ["--"] + words + ["-q", "--x"][:len(words) % 3]
    return case["before"] + words + case["after"]


def words_of(case):
    words = list(case["words"])
    if case["dash"] and words and not case["after"]:
        return words + ["-q", "--x"][:len(words) % 3]
    return words


def declare(case, core, log):
    import licant
    for t in case["targets"]:
        nm = t["name"]
        kw = {a: (lambda s, *args, a=a, nm=nm: log([nm, a, list(args)])) for a in t["acts"] + t.get("hidden", [])}
        if t["k"] == "target":
            acts = set(t["acts"]) | ({"phantom"} if t["ghost"] else set())
            core.target(nm, deps=[], action=lambda s, *args, nm=nm: log([nm, "action", list(args)]), actions=acts, **kw)
        elif t["k"] == "routine":
            core.routine(lambda *args, nm=nm: log([nm, "routine", list(args)]), tgt=nm)
        elif t["k"] == "upd":
            core.updtarget(nm, deps=t["deps"], update=lambda s, nm=nm: log([nm, "update", []]), update_if=lambda s: True, actions=t["acts"], **kw)
        elif t["k"] == "file":
            core.add(licant.FileTarget(nm, build=lambda s, nm=nm: log([nm, "update", []]), deps=[], use_dirkeep=False, actions=t["acts"], **kw))
        else:
            licant.fileset(nm, targets=t["deps"], core=core, actions=t["acts"], **kw)
    return True


def run_cli(case, call, core):
    import licant
    licant.ex(default=call["default"], colorwrap=case["colorwrap"], argv=argv_of(call), core=core)


def expected(case, targets):
    """('err',) or ('run', list of (name, what, args) as a set of steps)."""
    T = {t["name"]: t for t in targets}
    words = words_of(case)
    base = {"target": {"actlist", "print", "dependies"},
            "routine": {"recurse_update", "recurse_update_get_args", "invoke_routine", "update", "actlist"},
            "upd": {"actlist", "print", "dependies", "recurse_update", "recurse_update_get_args", "update", "update_if_need"}}
    base["set"] = base["upd"] | {"makefile", "clean"}
    base["file"] = base["set"] | {"build", "clr"}

    def has(t, a):
        return a in base[t["k"]] or a in t["acts"] or (a == "phantom" and t.get("ghost"))

    def closure(nm):
        out, todo = [], [nm]
        while todo:
            x = todo.pop()
            if x not in out:
                out.append(x)
                todo += T[x]["deps"]
        return out

    def update(nm, args=()):
        steps = []
        for x in closure(nm):
            t = T[x]
            if t["k"] == "routine":
                steps.append([x, "routine", list(args) if x == nm else []])
            elif t["k"] in ("upd", "file"):
                steps.append([x, "update", []])
        return ("run", steps)

    def act(t, a, args):
        nm = t["name"]
        if a in t["acts"]:
            return ("run", [[nm, a, args]])
        if a in ("actlist", "print", "dependies"):
            return ("run", []) if not args else ("skip",)
        if a == "phantom":
            return ("err",)
        if t["k"] == "routine" and a == "invoke_routine":
            return update(nm, args)
        if a in ("recurse_update", "recurse_update_get_args", "makefile"):
            return update(nm) if not args else ("skip",)
        if a in ("clean",):
            return ("run", []) if not args else ("skip",)
        if a == "update" and not args:
            if t["k"] == "upd":
                return ("run", [[nm, "update", []]])
            if t["k"] == "routine":
                return ("run", [[nm, "routine", []]])
            if t["k"] == "set":
                return ("run", [])
        return ("skip",)      # internals called with arguments: no claim

    def dflt(t, args):
        if t["k"] == "target":
            return ("run", [[t["name"], "action", args]])
        return update(t["name"], args)
    d = case["default"]
    if not words:
        if d is None or d not in T:
            return ("err",)
        return dflt(T[d], [])
    w = words[0]
    if w in T:
        t = T[w]
        if t["k"] == "routine":
            return dflt(t, words[1:])
        if len(words) == 1:
            return dflt(t, [])
        return act(t, words[1], words[2:]) if has(t, words[1]) else ("err",)
    if d is not None and d not in T:
        return ("err",)
    if d is not None and has(T[d], w):
        return act(T[d], w, words[1:])
    return ("err",)


def process_main(path):
    """Body of the generated script of a real process."""
    with open(path) as f:
        case = json.load(f)
    import licant
    from licant.core import default_core
    fd = os.open("log", os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    core = licant.Core() if case["own_core"] else default_core()
    declare(case, core, lambda e: os.write(fd, (json.dumps(e) + "\n").encode()) and None)
    licant.ex(case["default"], colorwrap=case["colorwrap"], core=core)


def child(case):
    import licant
    from licant.core import default_core
    argv = argv_of(case)
    if case["process"]:
        with open("case.json", "w") as f:
            json.dump(case, f)
        repo = os.path.dirname(os.path.dirname(os.path.realpath(licant.__file__)))
        verif = os.path.dirname(os.path.dirname(os.path.dirname(os.path.realpath(__file__))))
        with open("make.py", "w") as f:
            f.write("import sys\nsys.path[:0] = [%r, %r]\nfrom pbt.checks.c11 import process_main\nprocess_main('case.json')\n" % (repo, verif))
        r = subprocess.run([sys.executable, "make.py"] + argv, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, timeout=50)
        log = []
        if os.path.exists("log"):
            with open("log") as f:
                log = [json.loads(x) for x in f]
        return [{"out": {"end": "exit", "code": r.returncode}, "log": log}]
    install(Sim(case["sched"]))
    core = licant.Core() if case["own_core"] else default_core()
    log = []
    if case["extra"]:
        # a script with an option of its own, read before anything is declared
        licant.cli.add_argument("--extra", default="no")
        opts, args = licant.cli.parse(argv)
        if opts.extra != case["extra"] or args != words_of(case):
            return {"declared": "parse(%s) gives extra=%r and words %s" % (argv, opts.extra, args)}
    dec = outcome(lambda: declare(case, core, log.append))
    if dec["end"] != "ok":
        return {"declared": dec}
    res = []
    for call in [case] + case["more"]:
        del log[:]
        out = outcome(lambda: run_cli(case, call, core))
        res.append({"out": out, "log": list(log)})
    return res


def run(case):
    with CaseDir() as d:
        res = need_ok(in_child(lambda: child(case), d), "command line")
    if "declared" in res:
        raise Violation("declaring or parsing failed: %s" % res["declared"])
    exps = []
    for n, (call, r) in enumerate(zip([case] + case["more"], res)):
        exp = judge(case, call, r, n)
        exps.append(exp[0])
        if exp[0] == "skip":
            break
    words = words_of(case)
    T = {t["name"] for t in case["targets"]}
    clash = any(a in T for t in case["targets"] for a in t["acts"])
    return Info(exps[0] != "skip" and (len(words) >= 2 or clash or exps[0] == "err" or len(exps) > 1), "words=%d" % len(words), len(exps) > 1 and "several calls",
                "process" if case["process"] else "", "options" if case["before"] or case["after"] else "", "clash" if clash else "",
                "no default" if case["default"] is None else "", *sorted({"expect=" + e for e in exps}))


def judge(case, call, res, n):
    out, log = res["out"], res["log"]
    exp = expected(call, case["targets"])
    what = "%sarguments %s (default %r)" % ("call %d in one process, " % (n + 1) if n else "", argv_of(call), call["default"])
    good = out["end"] == "ok" or out["end"] == "exit" and out["code"] == 0
    if exp[0] == "err":
        if good:
            raise Violation("%s should be an error but the status is 0, log %s" % (what, log))
        if log:
            raise Violation("%s should be an error but ran %s" % (what, log))
    elif exp[0] == "run":
        if not good:
            raise Violation("%s should run %s but ended with %s (log %s)" % (what, exp[1], out, log))
        if sorted(log, key=json.dumps) != sorted(exp[1], key=json.dumps):
            raise Violation("%s ran %s instead of %s" % (what, log, exp[1]))
    return exp
