"""Generated build projects: declarations, edit/build histories, and the reference model (C05-C09, C20).

A project is plain data: nodes with kinds
  src    a source file                       py    output written by a Python function
  sh     output written by a shell command   copy  copy of one file
  touch  constant file (MakeCore.touch)      set   licant.fileset
  grp    core.updtarget                      dir   makedir
Dependencies are node numbers, always smaller than the node's own number, so projects are acyclic; the order of declaration
is a separate permutation.  A py/sh step writes a digest of its name and of the contents of all its input files, so a
stale or wrong input is visible in the output, transitively.

The model knows two functions of what is on disk: scratch() - the content a build from scratch gives every output - and
need() - whether a step is out of date.
"""
import hashlib
import os
import shlex
import time

from hypothesis import strategies as st

from .engine import chance, in_child, need_ok, outcome, HarnessError, Violation
from .sim import Sim, install

FILES = ("src", "py", "sh", "copy", "touch")
OUTPUTS = ("py", "sh", "copy", "touch")
BASE = 1_600_000_000

SRC_DIRS = ["", "", "src", "src/sub", "in"]
OUT_DIRS = ["", "out", "out", "out/a", "out/a/b", "build/x"]
ODD = ["a b", "q'uote", 'd"q', "$HOME", "semi;colon", "amp&", "(p)", "ünï", "#h", "back`tick", "-dash", "br{a}ce", "{tgt}", "per%cent",
       "back\\slash", "a\nb", "tab\there", "!bang", "[x]", "q?m", "a|b", "<lt>", "~t", "=eq", "a:b", "a,b", "$(touch PWNED)", "%s", "",
       "long" * 20]


def name_of(base, i, ext, odd):
    return (odd + base + str(i) if odd is not None else base + str(i)) + ext


@st.composite
def project(draw, modes=("default", "core"), odd=False, max_nodes=9, globs=True, forced=True, dirs=True, sh=True, touch=True,
            outdirs=None, srcdirs=None, min_out=2, explicit_all=False, more_dirs=False):
    mode = draw(st.sampled_from(list(modes)))
    outdirs = outdirs or OUT_DIRS
    srcdirs = srcdirs or SRC_DIRS
    nodes = []

    def oddname():
        if not odd or draw(st.integers(0, 2)) == 0:
            return None
        o = draw(st.sampled_from(ODD))
        return o

    def join(d, n):
        return os.path.join(d, n) if d else n
    nsrc = draw(st.integers(1, 4))
    for i in range(nsrc):
        nodes.append({"k": "src", "path": join(draw(st.sampled_from(srcdirs)), name_of("s", i, draw(st.sampled_from([".txt", "", ".x.y"])), oddname()))})
    glob_ok = globs and mode == "default"
    if glob_ok and draw(st.booleans()):
        for i in range(draw(st.integers(1, 3))):
            nodes.append({"k": "src", "path": "glb/g%d.in" % i, "globbed": True})
    nout = draw(st.integers(min_out, max(min_out, max_nodes - len(nodes)))) if draw(st.integers(0, 5)) else min_out
    kinds = ["py", "py", "py", "copy", "set", "grp"] + (["sh", "sh"] if sh else []) + (["dir"] if dirs else []) + (["dir", "dir"] if more_dirs else [])
    if touch and mode == "core":
        kinds.append("touch")
    shape = draw(st.sampled_from(["rand", "rand", "chain", "wide", "groups"]))
    for j in range(nout):
        i = len(nodes)
        k = draw(st.sampled_from((kinds + ["set", "set", "grp"] if shape == "groups" else kinds) if j else ["py", "py", "copy"]))
        depable = [m for m in range(i) if nodes[m]["k"] != "src" or not nodes[m].get("globbed")]
        files = [m for m in depable if nodes[m]["k"] in FILES]
        if k == "dir":
            nodes.append({"k": "dir", "path": draw(st.sampled_from(["mk", "mk/d", "out", "mk/e/f"]))})
            if any(nodes[m]["k"] == "dir" and nodes[m]["path"] == nodes[i]["path"] for m in range(i)):
                nodes.pop()
                continue
            ds = [m for m in range(i) if nodes[m]["k"] == "dir"]
            if ds and mode == "core" and draw(st.booleans()):
                nodes[i]["deps"] = [draw(st.sampled_from(ds))]
            continue
        if shape == "chain" and draw(st.integers(0, 3)):
            deps = [depable[-1]]
        else:
            deps = sorted(draw(st.sets(st.sampled_from(depable), min_size=0 if k in ("touch", "grp") else 1, max_size=4)))
        if shape == "chain" and draw(st.booleans()):
            deps = sorted(set(deps) | {draw(st.sampled_from(depable))})
        if shape == "groups" and k not in ("touch",):
            # groups of groups, the files behind them named nowhere else
            gs = [m for m in depable if nodes[m]["k"] in ("set", "grp")]
            if gs and draw(st.integers(0, 3)):
                deps = [gs[-1]]
                if chance(draw, 4):
                    deps = sorted({gs[-1], draw(st.sampled_from(depable))})
        if draw(st.booleans()):
            deps = deps[::-1]
        node = {"k": k, "deps": deps}
        if k in OUTPUTS:
            node["path"] = join(draw(st.sampled_from(outdirs)), name_of("o", i, draw(st.sampled_from([".o", "", ".tar.gz"])), oddname()))
        else:
            node["name"] = "%s%d" % (k, i)
            if odd and draw(st.booleans()):
                node["name"] += " ./x"
        if k == "copy":
            node["src"] = draw(st.sampled_from(files))
            node["deps"] = [d for d in deps if d != node["src"]][:2]
        if glob_ok and k in ("py", "sh", "set") and any(n.get("globbed") for n in nodes) and draw(st.booleans()):
            node["glob"] = True
        if forced and k in ("py", "sh") and chance(draw, 8):
            if mode == "default" or "/" not in node["path"]:
                node["force"] = True
        nodes.append(node)
    n = len(nodes)
    order = draw(st.permutations(list(range(n)))) if draw(st.booleans()) else list(range(n))
    srcs = [i for i in range(n) if nodes[i]["k"] == "src"]
    explicit = srcs if explicit_all or draw(st.booleans()) else sorted(draw(st.sets(st.sampled_from(srcs))))
    return {"mode": mode, "nodes": nodes, "order": order, "explicit": explicit}


class Project:
    def __init__(self, data):
        self.d = data
        self.nodes = data["nodes"]
        self.mode = data["mode"]

    def kind(self, i):
        return self.nodes[i]["k"]

    def path(self, i):
        return self.nodes[i]["path"]

    def is_file(self, i):
        return self.kind(i) in FILES

    def name(self, i):
        n = self.nodes[i]
        return n["path"] if "path" in n else n["name"]

    def outputs(self):
        return [i for i in range(len(self.nodes)) if self.kind(i) in OUTPUTS]

    def sources(self):
        return [i for i in range(len(self.nodes)) if self.kind(i) == "src"]

    def targets(self):
        return [i for i in range(len(self.nodes)) if self.kind(i) in OUTPUTS + ("set", "grp")]

    def big(self):
        """The target with the largest closure."""
        return max(self.targets(), key=lambda i: (len(self.closure(i)), i))

    def globbed(self):
        return [i for i in range(len(self.nodes)) if self.nodes[i].get("globbed")]

    def alldeps(self, i, present=None):
        """Node numbers i depends on; globbed sources as present on disk (a set of node numbers; all if None)."""
        n = self.nodes[i]
        ds = list(n.get("deps", []))
        if n["k"] == "copy":
            ds = [n["src"]] + ds
        if n.get("glob"):
            ds += [g for g in self.globbed() if present is None or g in present]
        return ds

    def closure(self, i, present=None):
        seen, todo = set(), [i]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo.extend(self.alldeps(x, present))
        return seen

    def inputs(self, i, present):
        """The files a py/sh step reads: its file dependencies, looking through file sets and groups, each once, in order."""
        out = []

        def walk(x):
            for d in self.alldeps(x, present):
                if self.is_file(d):
                    if d not in out:
                        out.append(d)
                elif self.kind(d) != "dir":
                    walk(d)
        walk(i)
        return out

    # ---- what steps write
    def make(self, i, contents):
        """contents: bytes or None per input file."""
        k = self.kind(i)
        if k == "py":
            h = hashlib.sha1()
            for c in contents:
                h.update(b"<missing>" if c is None else b"%d:" % len(c) + c)
            return b"py%d:" % i + h.hexdigest().encode() + b"\n"
        if k == "sh":
            h = hashlib.md5(b"sh%d" % i + b"".join(c or b"" for c in contents))
            return h.hexdigest().encode() + b"  -\n"
        raise HarnessError(k)

    def scratch(self, files):
        """Content of every output after a build from scratch; files: present sources {node: bytes}."""
        memo = {}
        present = {g for g in self.globbed() if g in files}

        def ev(i):
            if i not in memo:
                k = self.kind(i)
                if k == "src":
                    memo[i] = files.get(i)
                elif k == "copy":
                    memo[i] = ev(self.nodes[i]["src"])
                elif k == "touch":
                    memo[i] = b"const%d" % i
                else:
                    memo[i] = self.make(i, [ev(d) for d in self.inputs(i, present)])
            return memo[i]
        return {i: ev(i) for i in range(len(self.nodes)) if self.is_file(i)}

    def need(self, t, stamps, dirs_present):
        """The set of nodes of t's closure that are out of date. stamps: {file node: mtime} for existing files."""
        present = {g for g in self.globbed() if g in stamps}
        memo, mt = {}, {}

        def mtime(i):
            if i not in mt:
                if self.is_file(i):
                    mt[i] = stamps.get(i, 0)
                elif self.kind(i) == "dir":
                    mt[i] = 0
                else:
                    mt[i] = max([mtime(d) for d in self.alldeps(i, present)], default=0)
            return mt[i]

        def nd(i):
            if i not in memo:
                k = self.kind(i)
                if k == "dir":
                    memo[i] = i not in dirs_present or any([nd(d) for d in self.alldeps(i, present)])
                else:
                    deps = self.alldeps(i, present)
                    own = False
                    if k in FILES:
                        own = i not in stamps or bool(self.nodes[i].get("force")) or \
                            any(mtime(d) > stamps[i] for d in deps)
                    memo[i] = own or any([nd(d) for d in deps])
            return memo[i]
        return {i for i in self.closure(t, present) if nd(i)}


# ---------------------------------------------------------------- inside the child
class Killed(BaseException):
    pass


class Steps:
    """The step functions of a project, with the injected faults of the current session."""

    def __init__(self, proj, base, kill_at=None, sigint_at=None):
        self.p, self.base = proj, base
        self.kill_at, self.sigint_at = kill_at, sigint_at
        self.n = 0
        self.meanwhile = []
        self.logfd = os.open(os.path.join(base, "log"), os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)

    def event(self, what, i):
        self.n += 1
        for k, d in self.meanwhile:        # somebody else creates a directory
            if k == self.n:
                os.makedirs(d, exist_ok=True)
        if self.n == self.kill_at:
            os.kill(os.getpid(), 9)
        if self.n == self.sigint_at:
            os.kill(os.getpid(), 2)
            time.sleep(0.02)

    def set_faults(self, fault):
        """Faults are flag files, so that shell steps see them too."""
        for i in range(len(self.p.nodes)):
            f = os.path.join(self.base, "fault%d" % i)
            if str(i) in fault:
                with open(f, "w") as h:
                    h.write(fault[str(i)])
            elif os.path.exists(f):
                os.unlink(f)

    def fault_of(self, i):
        try:
            with open(os.path.join(self.base, "fault%d" % i)) as f:
                return f.read()
        except OSError:
            return None

    def read(self, i):
        try:
            with open(self.p.path(i), "rb") as f:
                return f.read()
        except OSError:
            return None

    def py(self, i):
        def build(target):
            os.write(self.logfd, b"%d\n" % i)
            self.event("start", i)
            how = self.fault_of(i)
            if how == "false":
                return False
            if how == "raise":
                raise OSError("injected")
            present = {g for g in self.p.globbed() if os.path.exists(self.p.path(g))}
            data = self.p.make(i, [self.read(d) for d in self.p.inputs(i, present)])
            tmp = os.path.join(self.base, "tmp%d" % i)
            with open(tmp, "wb") as f:
                f.write(data)
            self.event("mid", i)
            if how == "late":
                return False
            os.replace(tmp, self.p.path(i))
            self.event("end", i)
            return None if i % 2 else True
        return build

    def sh(self, i, present):
        """Shell text; braces doubled because licant substitutes fields."""
        q = shlex.quote
        ins = " ".join(q("./" + self.p.path(d)) for d in self.p.inputs(i, present))
        out = q("./" + self.p.path(i))
        tmp = q(os.path.join(self.base, "tmp%d" % i))
        log = q(os.path.join(self.base, "log"))
        flt = q(os.path.join(self.base, "fault%d" % i))
        cmd = "echo %d >> %s; " % (i, log)
        cmd += "case $(cat %s 2>/dev/null) in false) exit 3;; raise) kill -9 $$;; esac; " % flt
        cmd += "{ printf %%s sh%d; cat %s 2>/dev/null; } | md5sum > %s" % (i, ins or "/dev/null", tmp)
        cmd += " && test ! -e %s" % flt
        cmd += " && mv %s %s" % (tmp, out)
        return cmd.replace("{", "{{").replace("}", "}}")


def declare(core, proj, steps, spell=None):
    """Declare the project on a core, through the public interface. spell(i, where) gives the spelling of node i's name."""
    import licant
    import licant.make
    from licant.make import FileTarget, Executor
    dflt = proj.mode == "default"
    spell = spell or (lambda i, where: proj.name(i))
    present = {g for g in proj.globbed() if os.path.exists(proj.path(g))}
    explicit = set(proj.d["explicit"])
    for i in proj.d["order"]:
        n = proj.nodes[i]
        k = n["k"]
        deps = [spell(d, "dep") for d in n.get("deps", [])]
        if n.get("glob"):
            deps = deps + ["glb/*.in"]
        if k == "src":
            if dflt:
                if i in explicit:
                    licant.source(spell(i, "decl"))
            else:
                core.source(spell(i, "decl"))
        elif k == "dir":
            if dflt:
                licant.makedir(spell(i, "decl"))
            else:
                core.makedir(spell(i, "decl"), deps=deps)
        elif k in ("py", "sh"):
            tgt = spell(i, "decl")
            if n.get("force"):
                build = steps.py(i) if k == "py" else Executor(steps.sh(i, present))
                core.add(FileTarget(tgt=tgt, build=build, deps=deps, force=True, use_dirkeep=dflt))
            elif dflt:
                if k == "sh":
                    licant.makefile(tgt=tgt, deps=deps, do=steps.sh(i, present), message="MAKE {tgt}")
                else:
                    core.add(FileTarget(tgt=tgt, build=steps.py(i), deps=deps))
            elif k == "sh":
                core.ftarget(tgt, exec=steps.sh(i, present), deps=deps)
            else:
                core.ftarget(tgt, build=steps.py(i), deps=deps)
        elif k == "copy":
            if dflt:
                licant.copy(tgt=spell(i, "decl"), src=spell(n["src"], "copysrc"), adddeps=deps)
            else:
                core.copy(spell(n["src"], "copysrc"), spell(i, "decl"), deps=deps)
        elif k == "touch":
            core.touch(spell(i, "decl"), content="const%d" % i, deps=deps)
        elif k == "set":
            # a file set takes its members as targets and may have further dependencies
            cut = len(deps) // 2 if i % 2 else 0
            if dflt:
                licant.fileset(tgt=n["name"], targets=deps[cut:], deps=deps[:cut])
            else:
                licant.fileset(tgt=n["name"], targets=deps[cut:], deps=deps[:cut], core=core)
        elif k == "grp":
            core.updtarget(n["name"], deps=deps)


def snapshot(proj, root=""):
    """{node: [mtime_ns, ino, content as latin-1]} of the existing files, [existing dir nodes] (cwd is the project)."""
    files, dirs = {}, []
    for i, n in enumerate(proj.nodes):
        if n["k"] == "dir":
            if os.path.isdir(os.path.join(root, n["path"])):
                dirs.append(i)
        elif n["k"] in FILES:
            try:
                s = os.stat(os.path.join(root, n["path"]))
                with open(os.path.join(root, n["path"]), "rb") as f:
                    files[str(i)] = [s.st_mtime_ns, s.st_ino, f.read().decode("latin-1")]
            except OSError:
                pass
    return {"files": files, "dirs": dirs}


def tree(root):
    """Everything below a directory: {path: [kind, content, mtime, mode]} (directories without time)."""
    out = {}
    for d, dirs, files in os.walk(os.fsencode(root)):
        for x in dirs + files:
            full = os.path.join(d, x)
            rel = os.path.relpath(full, os.fsencode(root)).decode("utf-8", "surrogateescape")
            s = os.lstat(full)
            if os.path.islink(full):
                out[rel] = ["link", os.readlink(full).decode("utf-8", "surrogateescape"), 0, 0]
            elif os.path.isdir(full):
                out[rel] = ["dir", "", 0, s.st_mode & 0o7777]
            else:
                with open(full, "rb") as f:
                    out[rel] = ["file", f.read().decode("latin-1"), s.st_mtime_ns, s.st_mode & 0o7777]
    return out


def wait_clock(proj, base):
    """Until a file written now is clearly newer than every file of the project."""
    newest = 0
    for n in proj.nodes:
        if n["k"] in FILES:
            try:
                newest = max(newest, os.stat(n["path"]).st_mtime_ns)
            except OSError:
                pass
    probe = os.path.join(base, "probe")
    for _ in range(2000):
        with open(probe, "w"):
            pass
        if os.stat(probe).st_mtime_ns > newest + 1_000_000:
            return
        time.sleep(0.001)
    raise HarnessError("file clock does not advance")


def take_log(base):
    p = os.path.join(base, "log")
    try:
        with open(p) as f:
            return [int(x) for x in f.read().split()]
    except OSError:
        return []


def session(proj, base, sess, spell=None, reqspell=None, timeout=60, probe=None):
    """One licant process: declare, then serve the requests. Returns the Child; its value is
    {"declared": outcome, "reqs": [{"pre": snapshot, "out": outcome, "post": snapshot, "log": [...]}]}."""
    def body():
        import licant
        import licant.cli
        from licant.core import default_core
        sim = Sim(sess.get("sched") or [0])
        sim.interrupt_at = sess.get("interrupt")
        if sess.get("threads_mode") != "real":
            install(sim)
        core = default_core() if proj.mode == "default" else licant.MakeCore()
        steps = Steps(proj, base, sess.get("kill_at"), sess.get("sigint_at"))
        steps.meanwhile = sess.get("meanwhile", [])
        sim.on_idle = lambda s: steps.event("idle", -1)
        core.runtime["threads"] = sess.get("j", 1)
        say = sess.get("say", [])
        core.runtime["quite"] = any("q" in x for x in say)
        core.runtime["trace"] = any("t" in x for x in say)
        core.runtime["debug"] = any("t" in x or "d" in x for x in say)
        res = {"declared": outcome(lambda: declare(core, proj, steps, spell) or True), "reqs": []}
        if res["declared"]["end"] != "ok":
            return res
        if probe:
            res["probe"] = outcome(lambda: probe(core))
        for rq in sess["reqs"]:
            wait_clock(proj, base)
            for i, text in rq.get("write", []):       # the user creates sources meanwhile
                os.makedirs(os.path.dirname(os.path.abspath(proj.path(i))), exist_ok=True)
                with open(proj.path(i), "w") as f:
                    f.write(text)
            open(os.path.join(base, "log"), "w").close()
            steps.set_faults(rq.get("fault", {}))
            t = rq["t"]
            name = reqspell(t) if reqspell else proj.name(t)
            if name.startswith("-"):
                name = "./" + name
            pre = snapshot(proj)
            via = rq.get("via", "invoke")
            if rq["op"] == "clean":
                if via == "cli":
                    f = lambda: licant.ex(argv=[name, "clean"], core=core)
                else:
                    f = lambda: core.get(name).invoke("clean")
            elif via == "cli":
                f = lambda: licant.ex(argv=["-j%d" % sess.get("j", 1), name] + say, core=core)
            elif via == "clidefault":
                f = lambda: licant.ex(default=name, argv=["-j", str(sess.get("j", 1))] + say, core=core)
            elif via == "default":
                f = lambda: core.get(name).invoke(core.get(name).default_action)
            else:
                f = lambda: core.get(name).invoke("recurse_update")

            def g():
                v = f()
                return v if isinstance(v, (bool, int, str, type(None))) else repr(v)
            out = outcome(g)
            if sess.get("sigint_at"):      # what the interpreter does at exit: steps in progress are completed
                import concurrent.futures.thread as cft
                cft._python_exit()
            if sess.get("interrupt"):
                sim.drain(sess.get("drain", False))
            res["reqs"].append({"pre": pre, "out": out, "post": snapshot(proj), "log": take_log(base),
                                "choices": sim.choices, "max": sim.max_in_progress})
        return res
    return in_child(body, os.path.join(base, "proj"), timeout=timeout)


def succeeded(out, via="invoke"):
    if out["end"] == "exit":
        return out["code"] == 0
    return out["end"] == "ok" and out["value"] is not False


# ---------------------------------------------------------------- parent side: the disk
class Disk:
    """The project directory of one case and what the user does to it between licant processes."""

    def __init__(self, proj, base, gap_ns=10_000_000_000, absent=()):
        self.p, self.base = proj, base
        self.root = os.path.join(base, "proj")
        os.mkdir(self.root)
        self.gap = gap_ns
        self.top = 0
        self.version = 0
        for i in proj.sources():
            if i not in absent:
                self.write(i, b"s%d v0\n" % i)
        self.settle()

    def full(self, i):
        return os.path.join(self.root, self.p.path(i))

    def write(self, i, data):
        p = self.full(i)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)

    def existing(self):
        return [i for i in range(len(self.p.nodes)) if self.p.is_file(i) and os.path.isfile(self.full(i))]

    def stamp(self, i, rank):
        ns = BASE * 10**9 + rank * self.gap
        os.utime(self.full(i), ns=(ns, ns))

    def settle(self):
        """Move all modification times into the past, keeping their order and equalities."""
        ex = self.existing()
        mt = {i: os.stat(self.full(i)).st_mtime_ns for i in ex}
        ranks = {v: r + 10 for r, v in enumerate(sorted(set(mt.values())))}
        self.rank = {i: ranks[mt[i]] for i in ex}
        for i in ex:
            self.stamp(i, self.rank[i])
        self.top = max(self.rank.values(), default=10)

    def put(self, i, rank):
        self.stamp(i, rank)
        self.rank[i] = rank
        self.top = max(self.top, rank)

    def apply(self, op):
        """Ops: edit, touch (later/equal/older/now), del, rmtree, delsrc, addsrc. Returns True if it did something."""
        o, i = op["o"], op.get("n")
        if o in ("edit", "addsrc"):
            self.version += 1
            self.write(i, b"s%d v%d\n" % (i, op.get("c", self.version)) * (1 + op.get("len", 0)))
            self.put(i, self.top + 1)
            return True
        if o == "touch":
            if not os.path.exists(self.full(i)):
                return False
            how = op["how"]
            if how == "later":
                self.put(i, self.top + 1)
            elif how == "older":
                self.put(i, 5 - op.get("k", 0) % 5)
            elif how == "equal":
                others = [x for x in self.existing() if x != i]
                if not others:
                    return False
                self.put(i, self.rank[others[op["k"] % len(others)]])
            elif how == "just":        # just before / after some other file
                others = [x for x in self.existing() if x != i]
                if not others:
                    return False
                r = self.rank[others[op["k"] % len(others)]]
                ns = BASE * 10**9 + r * self.gap + (self.gap // 4 if op["k"] % 2 else -self.gap // 4)
                os.utime(self.full(i), ns=(ns, ns))
                self.settle()
            return True
        if o in ("del", "delsrc"):
            try:
                os.unlink(self.full(i))
                self.rank.pop(i, None)
                return True
            except OSError:
                return False
        if o == "rmtree":
            import shutil
            d = os.path.join(self.root, op["d"])
            assert os.path.realpath(d).startswith(os.path.realpath(self.base) + "/")
            if not os.path.isdir(d) or os.path.islink(d):
                return False
            # only outputs may be lost
            for s in self.p.sources():
                if (self.p.path(s) + "/").startswith(op["d"] + "/"):
                    return False
            shutil.rmtree(d)
            for i in list(self.rank):
                if not os.path.exists(self.full(i)):
                    del self.rank[i]
            return True
        raise HarnessError(o)

    def sources(self):
        out = {}
        for i in self.p.sources():
            try:
                with open(self.full(i), "rb") as f:
                    out[i] = f.read()
            except OSError:
                pass
        return out


def outdirs_of(proj):
    ds = set()
    for i in proj.outputs():
        d = os.path.dirname(proj.path(i))
        while d:
            ds.add(d)
            d = os.path.dirname(d)
    for i, n in enumerate(proj.nodes):
        if n["k"] == "dir":
            ds.add(n["path"])
    return sorted(d for d in ds if not d.startswith(".."))


def stamps(snap):
    return {int(i): v[0] for i, v in snap["files"].items()}


def executed(proj, pre, post):
    """Outputs rewritten between two snapshots (including removed ones, reported as negative - 1)."""
    out = set()
    for i in proj.outputs():
        a, b = pre["files"].get(str(i)), post["files"].get(str(i))
        if b is not None and (a is None or a[:2] != b[:2]):
            out.add(i)
        if a is not None and b is None:
            out.add(-i - 1)
    return out


def check_contents(proj, post, srcs, t, what):
    """C05's oracle: every output in the closure equals a build from scratch."""
    want = proj.scratch(srcs)
    present = {g for g in proj.globbed() if g in srcs}
    for i in sorted(proj.closure(t, present)):
        if proj.kind(i) in OUTPUTS:
            got = post["files"].get(str(i))
            if got is None:
                raise Violation("%s reported success but %r does not exist" % (what, proj.path(i)))
            if got[2].encode("latin-1") != want[i]:
                raise Violation("%s reported success but %r holds %r, from scratch it is %r" % (
                    what, proj.path(i), got[2][:80], want[i][:80]))
    for i in proj.sources():
        if i in srcs:
            got = post["files"].get(str(i))
            if got is None or got[2].encode("latin-1") != srcs[i]:
                raise Violation("%s changed the source %r" % (what, proj.path(i)))


@st.composite
def ops_strategy(draw, proj, touches=False, delsrc=False, edits=True):
    """A list of user operations between two licant processes."""
    ops = []
    outs, srcs, globbed = proj.outputs(), proj.sources(), proj.globbed()
    menu = (["edit"] * 3 if edits else []) + ["del", "del", "rmtree"] + (["touch"] * 4 if touches else []) + (["delsrc"] if delsrc else [])
    if globbed:
        menu.append("addsrc")
    for _ in range(draw(st.integers(0, 3))):
        o = draw(st.sampled_from(menu))
        if o == "edit":
            ops.append({"o": "edit", "n": draw(st.sampled_from(srcs)), "c": draw(st.integers(0, 3)), "len": draw(st.integers(0, 2))})
        elif o == "del" and outs:
            ops.append({"o": "del", "n": draw(st.sampled_from(outs))})
        elif o == "rmtree":
            ds = outdirs_of(proj)
            if ds:
                ops.append({"o": "rmtree", "d": draw(st.sampled_from(ds))})
        elif o == "addsrc":
            ops.append({"o": "addsrc", "n": draw(st.sampled_from(globbed)), "c": draw(st.integers(0, 3))})
        elif o == "touch":
            how = draw(st.sampled_from(["later", "equal", "older", "just"]))
            ops.append({"o": "touch", "n": draw(st.sampled_from(outs + srcs)), "how": how, "k": draw(st.integers(0, 11))})
        elif o == "delsrc":
            ops.append({"o": "delsrc", "n": draw(st.sampled_from(srcs))})
    return ops


SAY = st.sampled_from([[], [], [], [], ["-q"], ["-d"], ["-t"], ["-qt"]])      # what is said about a build


@st.composite
def session_strategy(draw, proj, clean=False, max_reqs=3, vias=("invoke", "default", "cli", "clidefault"), threads=True):
    targets = proj.targets()
    n = draw(st.sampled_from([1, 1, 2, max_reqs]))
    reqs = []
    for _ in range(n):
        t = proj.big() if draw(st.booleans()) else draw(st.sampled_from(targets))
        via = draw(st.sampled_from(vias))
        op = "build"
        if clean and draw(st.integers(0, 2)) == 0:
            fs = [x for x in targets if proj.kind(x) != "grp"]
            if fs:
                op, t = "clean", draw(st.sampled_from(fs))
        reqs.append({"op": op, "t": t, "via": via})
    s = {"reqs": reqs, "say": draw(SAY), "j": draw(st.integers(1, 4)), "sched": draw(st.lists(st.integers(0, 23), max_size=6))}
    if threads and draw(st.integers(0, 4)) == 0:
        s["threads_mode"] = "real"
    return s
