"""C17: the library registry."""
import json
import os
import sys

from hypothesis import strategies as st

from .. import fresh
from ..engine import CaseDir, Info, Violation, chance, in_child, need_ok, outcome

ID = "C17"
QUICK, THOROUGH = 2400, 24000
RULE = """A case is a history of up to twelve runs of the library utility on the user's and the system's registry: registrations of files by relative,
dotted and absolute paths from several directories, registrations of whole directories, removals, listings, and invalid requests (missing file,
unknown name, wrong number of arguments, unknown option, damaged registry), with the options in any place, under odd names, with files appearing
and disappearing in between. After every run the registry file must equal a dictionary model (untouched by listings and invalid requests, which
must end with non-zero status); at the end a build script includes every known name and some unknown ones and must run exactly the file the user's,
else the system's registry names. Non-trivial: at least four runs that change a registry, among them a removal or a re-registration."""

NAMES = ["lib", "gxx", "a.b", "имя", "sp ace", 'q"uo', "x'y", "", "1", "LIB", "new\nline", "\\back", "{}", "null", "lib.posix", "a" * 300]
DIRS = ["", "d", "d/e", "w[1]", "sp ace", "st*r", "q?", "~t", "ünï"]
FILES = ["one.g.py", "two.g.py", "lib.g.py", "a.b.g.py", "script.py", ".hidden.g.py", "x.g.pyc", "ünï.g.py", "sp ace.g.py", "gxx.g.py"]


@st.composite
def cases(draw):
    files = sorted(draw(st.sets(st.tuples(st.sampled_from(DIRS), st.sampled_from(FILES)), min_size=1, max_size=8)))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.sampled_from(["reg"] * 5 + ["dir"] * 2 + ["rm"] * 3 + ["list", "bad", "bad", "toggle"]))
        op = {"k": k, "user": draw(st.sampled_from([True, True, False])), "cwd": draw(st.sampled_from(["", "", "d", "d/e", "sp ace"])),
              "place": draw(st.sampled_from(["first", "first", "last", "mid", "long"]))}
        if k in ("reg", "toggle"):
            op["file"] = draw(st.integers(0, len(files) - 1))
            op["name"] = draw(st.sampled_from(names))
            op["how"] = draw(st.sampled_from(["rel", "rel", "abs", "dot", "updown"]))
        elif k == "dir":
            op["dir"] = draw(st.sampled_from(sorted({d for d, _ in files}) + ["d", "nothere"]))
            op["how"] = draw(st.sampled_from(["rel", "abs", "dot", "slash"]))
        elif k == "rm":
            op["name"] = draw(st.sampled_from(names * 4 + ["one", "two", "a", "gxx"]))
        elif k == "bad":
            op["bad"] = draw(st.sampled_from(["three", "rm0", "rm2", "missing", "option", "damaged", "noargs"]))
            op["name"] = draw(st.sampled_from(names))
        ops.append(op)
    return {"files": [list(f) for f in files], "ops": ops, "names": names, "start": draw(st.sampled_from(["none", "none", "empty", "filled"])),
            "tunnel": chance(draw, 3)}


def strategy(tier):
    return cases()


def spell(path, cwd, how):
    rel = os.path.relpath(path, cwd)
    if how == "abs":
        return path
    if how == "dot":
        return "./" + rel
    if how == "updown":
        return "../%s/%s" % (os.path.basename(cwd), rel)
    if how == "slash":
        return rel + "/"
    return rel


def run(case):
    with CaseDir() as base:
        return run_in(case, base)


def run_in(case, base):
    root = os.path.join(base, "r")
    home = os.path.join(base, "home")
    for d in DIRS:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    os.mkdir(home)
    ran = os.path.join(base, "ran")
    paths = [os.path.join(root, d, f) for d, f in case["files"]]

    def create(p):
        with open(p, "w") as f:
            f.write("with open(%r, 'a') as f:\n    f.write(%r + '\\n')\n" % (ran, p))
    for p in paths:
        create(p)
    reg = {True: os.path.join(home, ".licant"), False: os.path.join(base, "system")}
    model = {True: {}, False: {}}
    if case["start"] != "none":
        for u in reg:
            if case["start"] == "filled":
                model[u] = {"gxx": "/pre/%s.g.py" % ("user" if u else "system"), "old": paths[0]}
            with open(reg[u], "w") as f:
                json.dump(model[u], f)

    def utility(args, cwd):
        def body():
            os.environ["HOME"] = home
            sys.argv = ["licant-libs"] + args
            fresh.forget()
            fresh.redirect("/var/lib/licant", reg[False])
            from licant.licant_libs import licant_libs_utility
            return outcome(licant_libs_utility)
        ch = in_child(body, cwd, timeout=20)
        r = need_ok(ch, "utility")
        return r, ch.out.decode("utf-8", "replace") + ch.err

    def content(u):
        try:
            with open(reg[u], "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    changes, removals, rereg, bads = 0, 0, 0, 0
    for n, op in enumerate(case["ops"]):
        u = op["user"]
        cwd = os.path.normpath(os.path.join(root, op["cwd"]))
        what = "run %d (%s)" % (n, {k: v for k, v in op.items() if k != "place"})
        if op["k"] == "toggle":
            p = paths[op["file"]]
            if os.path.exists(p):
                os.unlink(p)
            else:
                create(p)
            continue
        opts, args = (["-u"] if u else []), []
        expect, allowed = "ok", None
        new = dict(model[u])
        damage = None
        if op["k"] == "reg":
            p = paths[op["file"]]
            args = [op["name"], spell(p, cwd, op["how"])]
            if os.path.exists(p):
                rereg += op["name"] in new
                new[op["name"]] = p
            else:
                expect = "bad"
        elif op["k"] == "dir":
            d = os.path.normpath(os.path.join(root, op["dir"]))
            args = [spell(d, cwd, op["how"])]
            found = {}
            if os.path.isdir(d):
                for f in sorted(os.listdir(d)):
                    if f.endswith(".g.py") and not f.startswith("."):
                        found.setdefault(f.split(".")[0], []).append(os.path.join(d, f))
            for k, v in found.items():
                rereg += k in new
                new[k] = v[0]
            allowed = {k: v for k, v in found.items()}
        elif op["k"] == "rm":
            opts.append("-r")
            args = [op["name"]]
            if op["name"] in new:
                del new[op["name"]]
                removals += 1
            else:
                expect = "bad"
        elif op["k"] == "list":
            opts.append("-l")
            expect = "list"
        else:
            expect = "bad"
            nm = op["name"]
            b = op["bad"]
            if b == "three":
                args = [nm, spell(paths[0], cwd, "rel"), "more"]
            elif b == "rm0":
                opts.append("-r")
            elif b == "rm2":
                opts.append("-r")
                args = [nm, "lib"]
            elif b == "missing":
                args = [nm, "no/such/file.g.py"]
            elif b == "option":
                args = ["--no-such-option", nm]
            elif b == "noargs":
                expect = "any"
            else:
                damage = ["", "{", "not json", "{\"a\": ", "[1,", "[]"][n % 6].encode()
                args = [nm, spell(paths[0], cwd, "abs")]
        if op["place"] == "last":
            argv = args + opts
        elif op["place"] == "mid" and args:
            argv = args[:1] + opts + args[1:]
        elif op["place"] == "long":
            argv = [{"-u": "--user", "-r": "--remove", "-l": "--list"}[o] for o in opts] + args
        elif len(opts) == 2 and n % 2:
            argv = ["-u" + opts[1][1]] + args
        else:
            argv = opts + args
        before = {x: content(x) for x in reg}
        if damage is not None:
            with open(reg[u], "wb") as f:
                f.write(damage)
        r, said = utility(argv, cwd)
        status = 0 if r["end"] == "ok" else r.get("code", 1)
        now = content(u)
        if content(not u) != before[not u]:
            raise Violation("%s changed the other registry\n%s" % (what, said))
        if damage is not None:
            if now != damage:
                raise Violation("%s overwrote a registry it cannot read: %r" % (what, now))
            if before[u] is None:
                os.unlink(reg[u])
            else:
                with open(reg[u], "wb") as f:
                    f.write(before[u])
        if expect in ("bad", "list", "any"):
            if expect == "bad" and status == 0:
                raise Violation("%s: an invalid request ended with status zero\n%s" % (what, said))
            if expect != "bad" and status != 0:
                raise Violation("%s failed: %s\n%s" % (what, r, said))
            if damage is None and now != before[u] and (json.loads(now or b"{}") != json.loads(before[u] or b"{}")):
                raise Violation("%s changed the registry: %r -> %r" % (what, before[u], now))
            if expect == "list":
                for k, v in model[u].items():
                    if "%s %s\n" % (k, v) not in said:
                        raise Violation("%s does not show %r: %s" % (what, k, said))
                for v in set(paths) - set(model[u].values()):
                    if (" " + v + "\n") in said:
                        raise Violation("%s shows the unregistered %r: %s" % (what, v, said))
            bads += expect == "bad"
            continue
        if status != 0:
            raise Violation("%s failed: %s\n%s" % (what, r, said))
        try:
            got = json.loads(now) if now is not None else {}
        except ValueError:
            raise Violation("%s left an unreadable registry: %r" % (what, now))
        for k, vs in (allowed or {}).items():
            if got.get(k) in vs:
                new[k] = got[k]
        if got != new:
            raise Violation("%s: the registry holds %s, expected %s" % (what, got, new))
        changes += new != model[u] or op["k"] == "reg"
        model[u] = new
    # what including a name runs
    merged = dict(model[False])
    merged.update(model[True])
    for name in sorted(set(merged) | {"no such library", "lib"}):
        if os.path.exists(ran):
            os.unlink(ran)

        def body():
            os.environ["HOME"] = home
            sys.argv = ["make.py"]
            fresh.forget()
            fresh.redirect("/var/lib/licant", reg[False])
            import licant

            def inc():
                licant.include(name)
                licant.include(name)
            return outcome(inc)
        r = need_ok(in_child(body, root, timeout=20), "include")
        got = []
        if os.path.exists(ran):
            with open(ran) as f:
                got = f.read().split("\n")[:-1]
        good = name in merged and os.path.exists(merged[name])
        if got != ([merged[name]] if good else []):
            raise Violation("including %r runs %s, registered is %s" % (name, got, merged.get(name)))
        if (r["end"] == "ok") != good:
            raise Violation("including %r: %s, registered is %s" % (name, r, merged.get(name)))
    if case["tunnel"] and merged:
        tunnel(case, base, home, reg, merged, ran)
    listing(base, home, reg, merged)
    return Info(changes >= 4 and (removals or rereg), removals and "removal", rereg and "registered again", bads and "invalid request",
                model[True] and model[False] and "both registries", any(k in model[False] and model[True][k] != model[False][k] for k in model[True]) and "precedence",
                case["tunnel"] and "tunnel")


def tunnel(case, base, home, reg, merged, ran):
    """A local tunnel leads to the directory of the registered script."""
    names = sorted(k for k, p in merged.items() if os.path.exists(p))
    if not names:
        return
    name = names[len(case["ops"]) % len(names)]
    link = ["tun", "deep/er/tun", "./tun"][len(case["files"]) % 3]
    proj = os.path.join(base, "tproj")
    os.mkdir(proj)
    if os.path.exists(ran):
        os.unlink(ran)

    def body():
        os.environ["HOME"] = home
        sys.argv = ["make.py"]
        fresh.forget()
        fresh.redirect("/var/lib/licant", reg[False])
        import licant

        def inc():
            licant.include(name, local_tunel=(link, os.path.basename(merged[name])))
            licant.include(name, local_tunel=(link, os.path.basename(merged[name])))
        return outcome(inc)
    for k in range(2):
        r = need_ok(in_child(body, proj, timeout=20), "tunnel")
        if r["end"] != "ok":
            raise Violation("including %r through the local tunnel %s fails: %s" % (name, link, r))
        with open(ran) as f:
            got = f.read().split("\n")[:-1]
        if got != [merged[name]] * (k + 1):
            raise Violation("including %r through a local tunnel runs %s" % (name, got))
        if os.path.realpath(os.path.join(proj, link)) != os.path.realpath(os.path.dirname(merged[name])):
            raise Violation("the local tunnel leads to %s" % os.path.realpath(os.path.join(proj, link)))


def listing(base, home, reg, merged):
    """The target that lists the libraries in a build."""
    def body():
        os.environ["HOME"] = home
        sys.argv = ["make.py"]
        fresh.forget()
        fresh.redirect("/var/lib/licant", reg[False])
        import licant
        return outcome(lambda: licant.ex(argv=["l", "list"], core=licant.default_core()))
    ch = in_child(body, base, timeout=20)
    r = need_ok(ch, "listing")
    said = ch.out.decode("utf-8", "replace")
    if r["end"] == "exc" or r["end"] == "exit" and r["code"]:
        raise Violation("listing the libraries in a build failed: %s" % r)
    want = "".join("%s: %s\n" % (k, merged[k]) for k in sorted(merged))
    if sorted(said.splitlines()) != sorted(want.splitlines()):
        raise Violation("a build lists the libraries %r, expected %r" % (said, want))
