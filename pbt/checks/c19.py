"""C19: commands run as written; only their exit status decides success."""
import os
import shlex
import shutil
import subprocess

from hypothesis import strategies as st

from .. import project as pj
from ..engine import CaseDir, HarnessError, Info, Violation, chance, in_child, need_ok, outcome

ID = "C19"
QUICK, THOROUGH = 3600, 30000
RULE = """Command cases: one to four steps (all ways of declaring them, single or chained, any thread count, with -q/-d/-t) whose command
templates are generated from shell constructs (redirections, pipes, lists, here-documents, subshells, cd, background jobs, expansions,
braces) and target fields (strings, numbers, attributes, items, format specifications, values containing braces and shell words); each
writes generated bytes (any encoding, none to 300 KB) to either stream and ends with a generated status, signal or missing command. The
same command with the fields substituted by the model is run by /bin/sh in an equal tree: files, both streams and status must agree, every
step runs once, is announced as its message and the options -q, -d and -t of its own command line (not of earlier ones in the same process)
ask for, and the build succeeds exactly if all statuses are zero
(some steps are functions calling licant.system, which must raise exactly if the status is not zero). File cases: copies and touches of arbitrary names and contents,
built twice. Non-trivial: a command that substitutes a field and writes output, fails, or writes over 64 KB; or a file name with a
character outside letters, digits, '.', '_'."""

LITERALS = ["a", "x y", "--opt=1", "-n", "%s", "é", "a;b", "$HOME", "\\n", "'", '"', "*", "`id`", "#", "~", "(", "&", "|", ">", "", "!", "\t",
            "{}", "{tgt}", "{", "}", "{{", "}}", "{0}", "%(x)s", "$", "$$x"]
FIELDVALUES = LITERALS + ["value", "two words", "{src}", "{nofield}", "$(echo sub)", "ünï cödé"]


def esc(s):
    return s.replace("{", "{{").replace("}", "}}")


@st.composite
def word(draw, fields):
    """One shell word: (template, kind/value for the model)."""
    if fields and draw(st.integers(0, 2)):
        f = draw(st.sampled_from(sorted(fields)))
        return ["f", f]
    return ["l", draw(st.sampled_from(LITERALS))]


PIECES = ["args", "args", "out", "out", "pay", "pay", "pay", "expand", "loop", "pipe", "heredoc", "rescue", "stderr", "bg", "cd", "brace",
          "shellvar", "comment", "sigpipe", "exec", "append", "raw", "subst", "cond", "umask"]


@st.composite
def step(draw, n, tier):
    fields = {}
    decl = draw(st.sampled_from(["makefile", "makefile", "filetarget", "ftarget", "ftarget-mk", "system"]))
    for name in draw(st.lists(st.sampled_from(["src", "flags", "label", "num", "opts.name", "items[1]", "table[key]", "opts.sub.deep"]),
                              unique=True, max_size=4)):
        fields[name] = draw(st.integers(-5, 1000)) if name == "num" else draw(st.sampled_from(FIELDVALUES))
    fmts = draw(st.sampled_from(["", "", ":>6", "!s", ":05d"]))
    pieces = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(PIECES))
        p = {"k": k}
        if k in ("args", "raw"):
            p["w"] = draw(st.lists(word(fields), min_size=1, max_size=4))
        elif k == "pay":
            p["to"] = draw(st.lists(st.integers(1, 2), min_size=1, max_size=4))
            p["chunks"] = [draw(payload(tier)) for _ in p["to"]]
        pieces.append(p)
    end = draw(st.sampled_from([["exit", 0]] * 10 + [["none"]] * 6 + [["exit", 1], ["exit", 2], ["exit", 127], ["exit", 126], ["exit", 255],
                                                    ["exit", 256], ["exit", 77], ["kill", "KILL"], ["kill", "TERM"], ["kill", "PIPE"],
                                                    ["kill", "INT"], ["false"], ["missing"], ["exectrue"], ["execfalse"], ["sete"],
                                                    ["syntax"], ["subexit", 3], ["pipefail"], ["failthenok"]]))
    return {"decl": decl, "fields": fields, "fmt": fmts, "pieces": pieces, "end": end, "sep": draw(st.sampled_from([";", "\n", " ;  "])),
            "message": draw(st.sampled_from([None, "say", "say", "say", "q", "default"])),
            "deps": [] if n == 0 else sorted(draw(st.sets(st.integers(0, n - 1), max_size=2)))}


@st.composite
def payload(draw, tier):
    kind = draw(st.sampled_from(["ascii", "ascii", "utf8", "latin", "bin", "long", "nl", "esc", "empty", "huge", "split"]))
    n = draw(st.integers(0, 120))
    seed = draw(st.integers(0, 9))
    if kind == "huge":
        n = draw(st.sampled_from([4095, 4096, 65535, 65536, 65537, 70000, 140000, 300000]))
    return [kind, n, seed]


def payload_bytes(p):
    kind, n, seed = p
    if kind == "ascii":
        return bytes(32 + (i * 7 + seed * 13) % 95 for i in range(n)) + (b"\n" if seed % 2 else b"")
    if kind == "utf8":
        return ("żółć €𝄞 日本 " * (n // 8 + 1) + "%d" % seed).encode()
    if kind == "latin":
        return b"caf\xe9 na\xefve \xff\xfe " * (n // 10 + 1) + b"%d" % seed
    if kind == "bin":
        return bytes((i * 37 + seed * 11) % 256 for i in range(n + 1))
    if kind == "long":
        return b"word%d " % seed * (n * 5)
    if kind == "nl":
        return b"\n\r\n\n  \t" * (n // 4 + 1)
    if kind == "esc":
        return b"\x1b[31;1mred\x1b[0m\x07\b{tgt} {} %s \\n $x " + b"%d" % seed
    if kind == "split":
        return "€".encode()[:seed % 3 + 1]
    if kind == "huge":
        unit = b"line %d of output\n" % seed if seed % 3 else b"ligne \xc5\x82 %d\n" % seed
        return (unit * (n // len(unit) + 1))[:n]
    return b""


@st.composite
def filecases(draw):
    alphabet = st.one_of(st.sampled_from(list("ab $'\"\\;&|<>(){}[]!#%=,:@^`~+-?\t\n.é日\x01\x7f")), st.sampled_from(["\udcff", "\udce9", "\u202e", "\u0301"]))
    names = []
    for i in range(draw(st.integers(1, 4))):
        parts = draw(st.lists(st.text(alphabet, min_size=0, max_size=6), min_size=1, max_size=2))
        parts = [("d" if x in (".", "..", "") else x) for x in parts[:-1]] + [parts[-1] + "%d" % i]
        if parts[0].startswith("~"):
            parts[0] = "_" + parts[0]
        names.append(parts)
    files = []
    for i, parts in enumerate(names):
        api = draw(st.sampled_from(["copy", "mkcopy", "touch"]))
        f = {"api": api, "dst": "/".join(parts)}
        if api == "touch":
            f["content"] = draw(st.one_of(st.just(""), st.text(st.characters(blacklist_categories=["Cs"]), max_size=12).filter(lambda s: "\r" not in s)))
        else:
            f["src"] = "s%d " % i + "".join(draw(st.lists(alphabet, max_size=4)))
            f["content"] = draw(st.sampled_from(["x%d" % i, "", "\x00\xff\r\n", "big"]))
        files.append(f)
    return {"kind": "files", "files": files, "abs": draw(st.booleans()), "j": draw(st.integers(1, 3)),
            "names": draw(st.sampled_from(["each", "set"]))}


@st.composite
def cases(draw, tier):
    if chance(draw, 4):
        return draw(filecases())
    steps = [draw(step(i, tier)) for i in range(draw(st.sampled_from([1, 1, 2, 3, 4])))]
    return {"kind": "cmd", "steps": steps, "j": draw(st.integers(1, 4)), "flags": draw(st.sampled_from([[], [], ["-q"], ["-d"], ["-t"], ["-q", "-d"]])),
            "via": draw(st.sampled_from(["cli", "invoke"])),
            "earlier": draw(st.lists(st.sampled_from([["-q"], ["-d"], ["-t"], ["-qd"], []]), max_size=2)) if chance(draw, 3) else []}


def strategy(tier):
    return cases(tier)


# ------------------------------------------------------------------ commands
def field_ref(name, fmt, value):
    """Template text of a field, and the text that stands for it."""
    if fmt == ":05d":
        if isinstance(value, int):
            return "{%s:05d}" % name, "%05d" % value if value >= 0 else "-%04d" % -value
        return "{%s}" % name, value
    if fmt == ":>6":
        s = str(value)
        return "{%s:>6}" % name, " " * (6 - len(s)) + s
    return "{%s%s}" % (name, fmt), str(value)


def command(s, n, where=""):
    """(template, command) of step n; the target is out<n>."""
    t, c = [], []

    def put(text):
        t.append(esc(text))
        c.append(text)

    def sep():
        put(s["sep"])

    def words(ws):
        for kind, v in ws:
            if kind == "l":
                put(" " + shlex.quote(v))
            else:
                # the field holds a value quoted for the shell
                ref, val = field_ref(v, s["fmt"], quoted(s["fields"][v]))
                t.append(" " + ref)
                c.append(" " + val)
    put("echo r >> ran%d" % n)
    sep()
    for k, p in enumerate(s["pieces"]):
        aux = "aux%d_%d" % (n, k)
        kind = p["k"]
        if kind == "args":
            put("printf '%s|'")
            words(p["w"])
            put(" > " + aux)
        elif kind == "raw":
            put("printf '[%s]\\n'")
            words(p["w"])
        elif kind == "out":
            put("echo content%d > " % k)
            t.append("{tgt}")
            c.append(where + "out%d" % n)
        elif kind == "append":
            put("echo more >> ")
            t.append("{qtgt}" if s["decl"] != "x" else "{tgt}")
            c.append(where + "out%d" % n)
        elif kind == "pay":
            put("; ".join("cat pay%d_%d_%d%s" % (n, k, i, " >&2" if to == 2 else "") for i, to in enumerate(p["to"])))
        elif kind == "expand":
            put('echo "$VPX-$((1+2))-${VPX:-no}-${UNSET:-dflt}" > %s' % aux)
        elif kind == "loop":
            put("for i in 1 2 3; do echo $i; done")
        elif kind == "pipe":
            put("printf 'a\\nb\\nc\\n' | sort -r | head -2 | tee " + aux)
        elif kind == "heredoc":
            put("cat > %s <<'EOF'\n{here} $x\n  'doc'\nEOF\n:" % aux)
        elif kind == "rescue":
            put("(exit 3) || echo rescued $?")
        elif kind == "stderr":
            put("true && echo oops >&2")
        elif kind == "bg":
            put("(sleep 0.01; echo late > %s) & wait" % aux)
        elif kind == "cd":
            put("(cd sub && echo x > ../%s && pwd | sed 's,.*/,,')" % aux)
        elif kind == "brace":
            put("{ echo a; echo b; } > %s" % aux)
        elif kind == "shellvar":
            put("x='a  b'; echo $x; echo \"$x\"; x=${x%b}; echo \"[$x]\"")
        elif kind == "comment":
            put(": # not run; touch BAD%d {\n:" % n)
        elif kind == "sigpipe":
            put("yes | head -1")
        elif kind == "exec":
            put("sh -c 'echo $0 $#' name arg")
        elif kind == "subst":
            put("echo \"$(echo in `echo inner`)\" > %s" % aux)
        elif kind == "cond":
            put("if test -e out%d; then echo exists; else echo new; fi" % n)
        elif kind == "umask":
            put("(umask 077; : > %s; ls -l %s | cut -c1-10)" % (aux, aux))
        sep()
    e = s["end"]
    put({"exit": "exit %s" % e[-1], "none": ":", "kill": "kill -%s $$" % e[-1], "false": "false", "missing": "no_such_command_vp",
         "exectrue": "exec true", "execfalse": "exec false", "sete": "set -e; false; touch BAD", "syntax": "if then",
         "subexit": "(exit %s)" % e[-1], "pipefail": "false | true", "failthenok": "false; true"}[e[0]])
    return "".join(t), "".join(c)


def quoted(v):
    return v if isinstance(v, int) else shlex.quote(v)


class Obj:
    pass


def attributes(fields):
    """Nested attributes for the declared field expressions."""
    kw, opts, sub = {}, Obj(), Obj()
    opts.sub = sub
    for name, v in fields.items():
        v = quoted(v)
        if name == "opts.name":
            opts.name = v
        elif name == "opts.sub.deep":
            sub.deep = v
        elif name == "items[1]":
            kw["items"] = ["zero", v, "two"]
        elif name == "table[key]":
            kw["table"] = {"key": v}
        else:
            kw[name] = v
    kw["opts"] = opts
    return kw



def announcement(s, n):
    """(message template, text shown) of step n."""
    t, c = "ANNOUNCED-%d- {{x}}" % n, "ANNOUNCED-%d- {x}" % n
    for name in sorted(s["fields"])[:1]:
        if not name.startswith("num"):
            t, c = t + " {%s}." % name, c + " %s." % quoted(s["fields"][name])
    return t, c


def check_announced(case, n, s, cmd, ran, out):
    """Every step that runs is announced as asked for, the others are not."""
    out = out.decode("utf-8", "surrogateescape")
    text = announcement(s, n)[1]
    quiet, debug = "-q" in case["flags"], "-d" in case["flags"] or ("-t" in case["flags"] and case["via"] == "cli")
    own = s["decl"] == "system"
    if own:
        how = "message" if s["message"] == "say" else "command"
    else:
        how = "nothing" if quiet else "command" if debug else {"say": "message", "q": "nothing"}.get(s["message"], "command")
        if how == "command" and not debug and any(x["decl"] == "ftarget-mk" for x in case["steps"]):
            how = "builtin message"
    said, shown = out.count(text), out.count(cmd)
    marks = out.count("ANNOUNCED-%d-" % n)
    what = "step %d (%s, message %s, options %s)" % (n, s["decl"], s["message"], case["flags"])
    if said != (how == "message" and bool(ran)) or marks != said:
        raise Violation("%s is announced %d times by its message %r: %r" % (what, said, text, out[:600]))
    if how == "command" and ran and shown < 1 or how != "command" and shown:
        raise Violation("%s: its command is shown %d times: %r" % (what, shown, out[:600]))


def segments(data):
    """The maximal runs of valid text."""
    out, cur = [], b""
    for ch in data.decode("utf-8", "surrogateescape"):
        if "\udc80" <= ch <= "\udcff":
            out.append(cur)
            cur = b""
        else:
            cur += ch.encode()
    out.append(cur)
    return [s for s in out if s]


def shown_in(data, text):
    pos = 0
    for s in segments(data):
        pos = text.find(s, pos)
        if pos < 0:
            return False
        pos += len(s)
    return True


def run_cmd(case):
    steps = case["steps"]
    cmds = [command(s, i) for i, s in enumerate(steps)]
    with CaseDir() as base:
        root = os.path.join(base, "proj")
        os.makedirs(os.path.join(root, "sub"))
        big = 0
        for n, s in enumerate(steps):
            for k, p in enumerate(s["pieces"]):
                if p["k"] == "pay":
                    for i, ch in enumerate(p["chunks"]):
                        data = payload_bytes(ch)
                        big = max(big, len(data))
                        with open(os.path.join(root, "pay%d_%d_%d" % (n, k, i)), "wb") as f:
                            f.write(data)
        shutil.copytree(root, os.path.join(base, "orig"))

        def body():
            os.environ["VPX"] = "env value"
            import licant
            import licant.cli
            import licant.make
            from licant.make import Executor, FileTarget
            from licant.core import default_core
            core = default_core() if not any(s["decl"] == "ftarget-mk" for s in steps) else licant.MakeCore()
            mk = not core is default_core()

            def declare():
                for n, s in enumerate(steps):
                    kw = attributes(s["fields"])
                    deps = ["out%d" % d for d in s["deps"]]
                    tmpl = cmds[n][0]
                    msg = s["message"]
                    if msg not in (None, "default"):
                        kw["message"] = announcement(s, n)[0] if msg != "q" else licant.util.quite()
                    if s["decl"] == "system":
                        text = announcement(s, n)[1] if msg == "say" else None
                        build = lambda t, n=n, text=text: licant.system(cmds[n][1], text)
                        if mk:
                            core.ftarget("out%d" % n, build=build, deps=deps)
                        else:
                            core.add(FileTarget(tgt="out%d" % n, deps=deps, build=build))
                    elif mk:
                        t = core.ftarget("out%d" % n, exec=tmpl, deps=deps)
                        for a, v in kw.items():
                            setattr(t, a, v)
                    elif s["decl"] == "makefile":
                        licant.makefile(tgt="out%d" % n, deps=deps, do=tmpl, **kw)
                    else:
                        core.add(FileTarget(tgt="out%d" % n, deps=deps, build=Executor(tmpl), **kw))
                if mk:
                    core.updtarget("all", deps=["out%d" % i for i in range(len(steps))])
                else:
                    licant.fileset("all", ["out%d" % i for i in range(len(steps))])
                return True
            d = outcome(declare)
            if d["end"] != "ok":
                return {"declared": d}
            if case["via"] == "cli":
                # other command lines in the same process, for something else
                for n, flags in enumerate(case.get("earlier", [])):
                    core.target("earlier%d" % n)
                    e = outcome(lambda: licant.ex(default="earlier%d" % n, argv=flags + ["-j3"], core=core) and None)
                    if e["end"] != "ok":
                        return {"declared": d, "r": e}
                f = lambda: licant.ex(default="all", argv=case["flags"] + ["-j%d" % case["j"]], core=core)
            else:
                core.runtime["threads"] = case["j"]
                core.runtime["quite"] = "-q" in case["flags"]
                core.runtime["debug"] = "-d" in case["flags"]
                f = lambda: core.get("all").invoke("recurse_update")

            def g():
                v = f()
                return v if isinstance(v, (bool, int, str, type(None))) else repr(v)
            r = outcome(g)
            return {"declared": d, "r": r}
        ch = in_child(body, root, timeout=20)
        v = need_ok(ch, "build")
        if v["declared"]["end"] != "ok":
            raise Violation("declaring the steps failed: %s" % v["declared"])
        r = v["r"]
        after = pj.tree(root)
        os.rename(root, os.path.join(base, "licant"))
        os.rename(os.path.join(base, "orig"), root)
        ran = [after.get("ran%d" % n, [0, ""])[1].count("r") for n in range(len(steps))]
        if max(ran) > 1:
            raise Violation("a command ran more than once: %s" % ran)
        # the same commands by the shell itself
        status, failed = {}, False
        shown = ch.out + b"\n" + ch.err.encode("utf-8", "surrogateescape")
        env = dict(os.environ, VPX="env value")
        for n, s in enumerate(steps):
            if not ran[n]:
                continue
            p = subprocess.run(["/bin/sh", "-c", cmds[n][1]], cwd=root, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=20)
            status[n] = p.returncode
            if any(d not in status or status[d] != 0 for d in s["deps"]):
                raise Violation("step %d ran although a dependency failed: statuses %s" % (n, status))
            for name, data in (("output", p.stdout), ("error output", p.stderr)):
                if s["end"][0] in ("missing", "syntax") and name == "error output":
                    data = data.split(b"/bin/sh")[0]     # the shell's own message quotes its argv
                if s["decl"] == "system" and case["j"] > 1 and len(steps) > 1:
                    continue       # it writes directly, mixed with what others write
                if not shown_in(data, shown):
                    raise Violation("step %d (%r) wrote %d bytes of %s that are not all shown: %r ... licant showed %r" % (
                        n, cmds[n][1][:300], len(data), name, data[:200], ch.out[:400]))
        for n, s in enumerate(steps):
            if s["end"][0] not in ("missing", "syntax"):
                check_announced(case, n, s, command(s, n, "" if s["decl"] == "system" else root + "/")[1], ran[n], ch.out)
        failed = any(status.values())
        want = pj.tree(root)
        a = {k: x[:2] + x[3:] for k, x in after.items()}
        b = {k: x[:2] + x[3:] for k, x in want.items()}
        if a != b:
            diff = {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}
            raise Violation("commands %s had another effect than when run by the shell (licant, shell): %s" % (
                [c[1][:300] for c in cmds], str(diff)[:800]))
        ok = pj.succeeded(r)
        # a syntax error ends the shell before anything runs
        silent = [n for n, s in enumerate(steps) if s["end"][0] == "syntax"]
        if ok and (failed or silent):
            raise Violation("the build is reported successful although a command failed: statuses %s" % status)
        if not ok and not failed and not silent:
            raise Violation("the build failed (%s) although every command that ran ended with status 0 (%s)" % (r, status))
        if ok and not all(ran):
            raise Violation("the build is reported successful but steps %s did not run" % [n for n in range(len(steps)) if not ran[n]])
        if r["end"] not in ("ok", "exit", "exc"):
            raise Violation("build ended with %s" % r)
    subst = any(s["fields"] for s in steps) or any(p["k"] in ("out", "append") for s in steps for p in s["pieces"])
    return Info(subst and (failed or big > 65536 or any(p["k"] in ("pay", "raw", "loop", "stderr") for s in steps for p in s["pieces"])),
                "cmd", "failed" if failed else "succeeded", big > 65536 and "output>64K", "j>1" if case["j"] > 1 else None,
                *sorted({"piece=" + p["k"] for s in steps for p in s["pieces"]} | {"end=" + s["end"][0] for s in steps}))


# ------------------------------------------------------------------ copies and touches
def run_files(case):
    with CaseDir() as base:
        root = os.path.join(base, "proj")
        os.makedirs(root)
        want = {}
        files = case["files"]
        seen = set()
        fs = []
        for f in files:
            path = os.path.normpath(f["dst"])
            if path in seen or any(x.startswith(path + "/") or path.startswith(x + "/") for x in seen):
                continue
            seen.add(path)
            fs.append(f)
        for f in fs:
            if "src" in f:
                data = b"0123456789" * 30000 if f["content"] == "big" else f["content"].encode("latin-1")
                with open(os.path.join(root, f["src"]), "wb") as h:
                    h.write(data)
            else:
                data = f["content"].encode()
            want[os.path.normpath(f["dst"])] = data.decode("latin-1")
        mode = any(f["api"] != "copy" for f in fs)
        before = pj.tree(root)

        def body():
            import licant
            from licant.core import default_core
            core = licant.MakeCore() if mode else default_core()

            def loc(p):
                return os.path.join(root, p) if case["abs"] else p

            def declare():
                for f in fs:
                    if f["api"] == "touch":
                        core.touch(loc(f["dst"]), content=f["content"])
                    elif mode:
                        core.copy(loc(f["src"]), loc(f["dst"]))
                    else:
                        licant.copy(src=loc(f["src"]), tgt=loc(f["dst"]))
                names = [loc(f["dst"]) for f in fs]
                if case["names"] == "set":
                    core.updtarget("ALL", deps=names)
                    names = ["ALL"]
                return names
            d = outcome(declare)
            if d["end"] != "ok":
                return {"d": d}
            core.runtime["threads"] = case["j"]
            rs = []
            for k in range(2):
                for x in d["value"]:
                    rs.append(outcome(lambda: core.get(x).invoke("recurse_update")))
                if k == 0:
                    t1 = pj.tree(root)
            return {"d": d, "rs": rs, "t1": t1, "t2": pj.tree(root)}
        v = need_ok(in_child(body, root, timeout=30), "files")
        if v["d"]["end"] != "ok":
            raise Violation("declaring copies %s failed: %s" % (fs, v["d"]))
        for r in v["rs"]:
            if not pj.succeeded(r):
                raise Violation("copies/touches %s failed: %s" % (fs, r))
        got = {k: x[1] for k, x in v["t1"].items() if x[0] == "file" and k not in before}
        if got != want:
            diff = {k: (str(got.get(k))[:60], str(want.get(k))[:60]) for k in set(got) | set(want) if got.get(k) != want.get(k)}
            raise Violation("copies/touches %s left (got, expected): %s" % (fs, diff))
        for k, x in before.items():
            if v["t1"].get(k) != x:
                raise Violation("the source %r was changed" % k)
        if v["t1"] != v["t2"]:
            raise Violation("building the copies again rewrote files: %s" % [k for k in v["t2"] if v["t1"].get(k) != v["t2"][k]])
    import re
    odd = any(re.search(r"[^A-Za-z0-9._/]", f["dst"] + f.get("src", "x")) for f in fs)
    return Info(odd, "files", *sorted({f["api"] for f in fs}))


def run(case):
    return run_cmd(case) if case["kind"] == "cmd" else run_files(case)
