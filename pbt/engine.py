"""Case runner: forked children, Hypothesis driver, statistics, replay."""
import hashlib
import json
import os
import select
import shutil
import signal
import sys
import time
import traceback


class Violation(Exception):
    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig


class HarnessError(Exception):
    pass


class Inconclusive(Exception):
    """A case that ran out of its (generous) time; counted, never a violation by itself."""


class Info:
    """What a case exercised: tags for the distribution, and whether it counts as non-trivial."""

    def __init__(self, nontrivial, *tags):
        self.nontrivial = bool(nontrivial)
        self.tags = [t for t in tags if t]


class Child:
    __slots__ = ("status", "value", "err", "out", "code")

    def __repr__(self):
        return "Child(%s, %r, code=%r, err=%s)" % (self.status, self.value, self.code, (self.err or "")[-400:])


def outcome(fn):
    """Run code under test; classify how it ended (JSON-able)."""
    from .sim import Deadlock
    try:
        return {"end": "ok", "value": fn()}
    except SystemExit as e:
        c = e.code
        if c is None:
            c = 0
        elif not isinstance(c, int):
            c = 1
        return {"end": "exit", "code": c & 0xFF}
    except Deadlock as e:
        return {"end": "deadlock", "what": str(e)}
    except KeyboardInterrupt:
        return {"end": "interrupt"}
    except BaseException as e:
        return {"end": "exc", "type": type(e).__name__, "what": str(e)[:300],
                "mro": [c.__name__ for c in type(e).__mro__],
                "tb": traceback.format_exc()[-1500:]}


def in_child(fn, cwd, timeout=60.0, outfile=None, stdin_null=True):
    """Fork; run fn() in cwd with stdout/stderr captured in files; return Child.

    status: ok (value), exit (fn ended the process itself: code), killed (signal: code), timeout, harness (err).
    """
    r, w = os.pipe()
    base = outfile or os.path.join(os.environ["VP_SCRATCH"], "io")
    opath, epath = base + ".out", base + ".err"
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setsid()
            os.chdir(cwd)
            fd = os.open(opath, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o600)
            os.dup2(fd, 1)
            fd2 = os.open(epath, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o600)
            os.dup2(fd2, 2)
            os.close(fd)
            os.close(fd2)
            if stdin_null:
                z = os.open("/dev/null", os.O_RDONLY)
                os.dup2(z, 0)
                os.close(z)
            # fresh text streams on the new descriptors (the old ones may hold Hypothesis' wrappers)
            sys.stdout = os.fdopen(os.dup(1), "w", buffering=1, encoding="utf-8", errors="surrogateescape")
            sys.stderr = os.fdopen(os.dup(2), "w", buffering=1, encoding="utf-8", errors="backslashreplace")
            try:
                val = fn()
                msg = json.dumps({"s": "ok", "v": val})
            except BaseException:
                msg = json.dumps({"s": "harness", "e": traceback.format_exc()})
            try:
                sys.stdout.flush()
                sys.stderr.flush()
            except BaseException:
                pass
            data = msg.encode()
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    end = time.monotonic() + timeout
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            timed_out = True
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf += chunk
        if buf.endswith(b"}") and len(chunk) < (1 << 16):
            # the message is complete once it parses; a grandchild may still hold the pipe
            try:
                json.loads(buf)
                break
            except ValueError:
                pass
    os.close(r)
    c = Child()
    c.value = c.err = c.code = None
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
    _, st = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)     # nothing outlives a case
    except OSError:
        pass
    with open(opath, "rb") as f:
        c.out = f.read()
    with open(epath, "rb") as f:
        c.err = f.read().decode("utf-8", "replace")
    if timed_out:
        c.status = "timeout"
        return c
    if buf:
        m = json.loads(buf)
        if m["s"] == "harness":
            raise HarnessError("in child: " + m["e"])
        c.status, c.value = "ok", m["v"]
    elif os.WIFSIGNALED(st):
        c.status, c.code = "killed", os.WTERMSIG(st)
    else:
        c.status, c.code = "exit", os.WEXITSTATUS(st)
    return c


def chance(draw, n):
    """True in about one of n draws; shrinks to False."""
    from hypothesis import strategies as st
    lst = [False] * n
    lst[(n + 1) // 2] = True
    return draw(st.sampled_from(lst))


_seq = [0]


class CaseDir:
    """A fresh directory for one case; removed afterwards."""

    def __enter__(self):
        _seq[0] += 1
        self.path = os.path.join(os.path.realpath(os.environ["VP_SCRATCH"]), "case%06d" % _seq[0])
        os.mkdir(self.path)
        return self.path

    def __exit__(self, *a):
        assert self.path.startswith(os.path.realpath(os.environ["VP_SCRATCH"]) + "/case")
        shutil.rmtree(self.path, ignore_errors=True)


def need_ok(child, what):
    """The child must have delivered a value; a timeout is inconclusive, anything else a harness problem."""
    if child.status == "timeout":
        raise Inconclusive(what + ": timeout")
    if child.status != "ok":
        raise HarnessError("%s: child ended %s %s\n%s" % (what, child.status, child.code, child.err[-2000:]))
    return child.value


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


class Shard:
    """Runs one check over generated cases inside this process."""

    def __init__(self, check, tier, known, budget, stopfile, log=None):
        self.check, self.tier, self.known = check, tier, known
        self.budget, self.stopfile = budget, stopfile
        self.t0 = time.monotonic()
        self.evaluations = 0
        self.nontrivial = set()
        self.distinct = set()
        self.tags = {}
        self.samples = []
        self.skipped = 0
        self.inconclusive = []
        self.known_hits = {}
        self.found = None           # (size, case, msg, sig)
        self.found_at = None
        self.stopping = False

    def execute(self, case):
        """One case; returns Violation or None. Repeats a timed-out case to tell a hang from slowness."""
        for attempt in range(3):
            try:
                info = self.check.run(case)
                self.note(case, info)
                return None
            except Violation as v:
                if isinstance(case, dict) and case.get("finding"):       # a saved case of a recorded finding: [signature, text of its failure]
                    sig, text = case["finding"]
                    if text in str(v):
                        v.sig = sig
                return v
            except Inconclusive as e:
                last = e
        if getattr(self.check, "HANG_IS_VIOLATION", True):
            return Violation("does not terminate: three runs of this case exceeded their time limit (%s)" % last,
                             sig="hang")
        self.inconclusive.append(case)
        return None

    def note(self, case, info):
        k = case_key(case)
        self.distinct.add(k)
        for t in info.tags:
            self.tags[t] = self.tags.get(t, 0) + 1
        if info.nontrivial:
            if k not in self.nontrivial and len(self.samples) < 3 and len(json.dumps(case)) < 1500:
                self.samples.append(case)
            self.nontrivial.add(k)

    def test(self, case):
        now = time.monotonic()
        if self.found is not None:
            if now - self.found_at > 25:
                return
        elif now - self.t0 > self.budget or self.stopping:
            self.skipped += 1
            return
        elif self.evaluations % 20 == 19 and os.path.exists(self.stopfile):
            self.stopping = True
            return
        self.evaluations += 1
        v = self.execute(case)
        if v is None:
            return
        if v.sig is not None and v.sig in self.known:
            self.known_hits[v.sig] = self.known_hits.get(v.sig, 0) + 1
            return
        size = len(json.dumps(case))
        if self.found is None or size < self.found[0]:
            self.found = (size, case, str(v), v.sig)
        if self.found_at is None:
            self.found_at = now
            try:
                open(self.stopfile, "w").close()
            except OSError:
                pass
        raise v

    def hypothesis(self, seed, n):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        test = self.test

        def prop(case):
            test(case)
        prop = given(self.check.strategy(self.tier))(prop)
        prop = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                        report_multiple_bugs=False, print_blob=False,
                        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                               HealthCheck.large_base_example],
                        phases=[Phase.generate, Phase.shrink])(prop)
        prop = hypothesis.seed(seed)(prop)
        try:
            prop()
        except Violation:
            pass
        except BaseException as e:
            if isinstance(e, (HarnessError, KeyboardInterrupt)) or self.found is None:
                raise
            # Flaky etc. after a recorded violation: the recorded case stands

    def result(self):
        return {"evaluations": self.evaluations, "nontrivial": sorted(self.nontrivial),
                "distinct": len(self.distinct), "tags": self.tags, "samples": self.samples,
                "skipped": self.skipped, "inconclusive": self.inconclusive[:3],
                "n_inconclusive": len(self.inconclusive),
                "known_hits": self.known_hits,
                "found": None if self.found is None else
                {"case": self.found[1], "msg": self.found[2], "sig": self.found[3]},
                "wall": time.monotonic() - self.t0}
