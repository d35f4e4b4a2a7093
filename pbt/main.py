"""Entry point:  main.py CHECK [--tier quick|thorough] [--replay FILE] [--examples N] [--shards N]"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
UID = 54321
sys.path.insert(0, VERIF)


def load(cid):
    return importlib.import_module("pbt.checks." + cid.lower())


def known_findings():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)


def drop_privileges(path):
    """Whatever the code under test deletes or overwrites, it can only be files of this throw-away user."""
    if os.getuid() != 0:
        return False
    try:
        os.chown(path, UID, UID)
        os.setgroups([])
        os.setresgid(UID, UID, UID)
        os.setresuid(UID, UID, UID)
        return True
    except OSError:
        return False


def prepare_process(scratch, cid):
    """Environment of a shard: private HOME, licant imported once (every case runs in a fork of this process)."""
    os.makedirs(scratch, exist_ok=True)
    os.umask(0o022)
    home = os.path.join(scratch, "home")
    os.makedirs(home, exist_ok=True)
    for v in ("PREFIX", "ANDROID_ROOT"):
        os.environ.pop(v, None)
    os.environ["HOME"] = home
    os.environ["VP_SCRATCH"] = scratch
    os.environ["LANG"] = os.environ["LC_ALL"] = "C.UTF-8"
    os.chdir(scratch)
    sys.argv = ["vpmain.py"]
    sys.path.insert(0, REPO)
    import licant
    if not os.path.realpath(licant.__file__).startswith(os.path.realpath(REPO) + "/"):
        raise SystemExit("licant imported from " + licant.__file__)
    from pbt import fresh
    fresh.preload()
    import hypothesis      # noqa: F401  (before privileges go)
    check = load(cid)
    if getattr(check, "FAKE_TOOLS", False):
        from pbt import cxx, setup_tools
        cxx.install_tools(setup_tools.ensure(), os.path.join(scratch, "bin"))
    if os.getuid() == 0:
        os.chown(home, UID, UID)
    return drop_privileges(scratch), check


def shard_main(a):
    seed = a.seed * 100003 + a.shard * 1009 + 7
    from pbt.engine import Shard
    dropped, check = prepare_process(a.scratch, a.check)
    known = {k["signature"] for k in known_findings() if k["property"] == check.ID and k["status"] == "known"}
    sh = Shard(check, a.tier, known, a.budget, a.stopfile)
    fixed = list(check.corpus()) if a.shard == 0 and hasattr(check, "corpus") else []
    for case in fixed:                       # saved cases: replayed first, bypassing the library
        sh.evaluations += 1
        v = sh.execute(case)
        if v is not None:
            if v.sig in known:
                sh.known_hits[v.sig] = sh.known_hits.get(v.sig, 0) + 1
            else:
                sh.found, sh.found_at = (len(json.dumps(case)), case, str(v), v.sig), time.monotonic()
                open(a.stopfile, "w").close()
                break
    if sh.found is None and a.examples > 0:
        sh.hypothesis(seed, a.examples)
    res = sh.result()
    res["unprivileged"] = dropped
    with open(a.out, "w") as f:
        json.dump(res, f)


def merge_counts(dicts):
    t = {}
    for d in dicts:
        for k, v in d.items():
            t[k] = t.get(k, 0) + v
    return dict(sorted(t.items()))


def replay_main(a):
    scratch = tempfile.mkdtemp(prefix="vp-")
    os.chmod(scratch, 0o755)
    try:
        with open(a.replay) as f:
            rec = json.load(f)
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                from pbt.engine import Shard
                _, check = prepare_process(os.path.join(scratch, "s"), a.check)
                sh = Shard(check, "quick", set(), 600, os.path.join(scratch, "s", "stop"))
                code = 0
                for i in range(a.times):
                    v = sh.execute(rec["case"])
                    if v is not None:
                        print("run %d: %s" % (i + 1, v))
                        print("VIOLATION property=%s replay=%s" % (rec["property"], a.replay))
                        code = 1
                        break
                else:
                    print("no violation in %d run(s)" % a.times)
            except BaseException:
                traceback.print_exc()
                code = 3
            sys.stdout.flush()
            os._exit(code)
        return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--examples", type=int)
    ap.add_argument("--shards", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--times", type=int, default=5)
    ap.add_argument("--no-evidence", action="store_true")
    # internal
    ap.add_argument("--shard", type=int)
    ap.add_argument("--out")
    ap.add_argument("--scratch")
    ap.add_argument("--stopfile")
    a = ap.parse_args()
    if a.shard is not None:
        return shard_main(a)
    if a.replay:
        return replay_main(a)

    t0 = time.monotonic()
    from pbt import setup_tools
    setup_tools.ensure()
    check = load(a.check)
    total = a.examples if a.examples is not None else (check.QUICK if a.tier == "quick" else check.THOROUGH)
    ncpu = os.cpu_count() or 1
    shards = a.shards or getattr(check, "SHARDS", 8)
    budget = a.budget or (240 if a.tier == "quick" else 3000)
    scratch = tempfile.mkdtemp(prefix="vp-")
    os.chmod(scratch, 0o777)
    procs = []
    try:
        stop = os.path.join(scratch, "stop")
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONUNBUFFERED="1")
        for i in range(shards):
            sd = os.path.join(scratch, "shard%d" % i)
            os.mkdir(sd)
            os.chmod(sd, 0o755)
            out = os.path.join(sd, "result.json")
            cmd = [sys.executable, os.path.abspath(__file__), a.check, "--tier", a.tier, "--seed", str(a.seed),
                   "--examples", str((total + shards - 1) // shards), "--budget", str(budget),
                   "--shard", str(i), "--out", out, "--scratch", sd, "--stopfile", stop]
            err = open(os.path.join(scratch, "err%d" % i), "w+")
            procs.append((subprocess.Popen(cmd, env=env, stdout=err, stderr=err, stdin=subprocess.DEVNULL), out, err))
        results, errors = [], []
        for p, out, err in procs:
            rc = p.wait()
            if rc != 0 or not os.path.exists(out):
                err.seek(0)
                errors.append("shard exit %s\n%s" % (rc, err.read()[-6000:]))
                continue
            with open(out) as f:
                results.append(json.load(f))
    finally:
        for p, _, err in procs:
            if p.poll() is None:
                p.kill()
            err.close()
        shutil.rmtree(scratch, ignore_errors=True)

    nontrivial = set()
    for r in results:
        nontrivial |= set(r["nontrivial"])
    known_hits = merge_counts(r["known_hits"] for r in results)
    found = sorted((r["found"] for r in results if r["found"]), key=lambda f: len(json.dumps(f["case"])))
    samples = [s for r in results for s in r["samples"][:1]][:4]
    ev = {
        "property": check.ID, "tier": a.tier, "seed": a.seed, "level": getattr(check, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(nontrivial),
            "rule": " ".join(check.RULE.split()),
            "samples": samples,
            "distribution": merge_counts(r["tags"] for r in results),
            "skipped_after_time_budget": sum(r["skipped"] for r in results),
            "inconclusive": sum(r["n_inconclusive"] for r in results),
            "known_finding_hits": known_hits,
            "shards": len(results),
        },
        "assumptions": list(getattr(check, "ASSUMPTIONS", [])) + (
            ["cases run as an unprivileged user in a scratch directory"]
            if all(r.get("unprivileged") for r in results) else []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(found),
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", check.ID + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k in known_findings():
        if k["property"] == check.ID and k["status"] == "known" and known_hits.get(k["signature"]):
            print("KNOWN-FINDING: property=%s %s" % (check.ID, k["what"]))
    print("%s %s: %d cases, %d distinct non-trivial, %.1fs" % (
        check.ID, a.tier, ev["coverage"]["evaluations"], len(nontrivial), ev["wall_s"]))
    if os.environ.get("VP_VERBOSE"):
        print(json.dumps(ev["coverage"]["distribution"], indent=1))
    if found:
        f = found[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        from pbt.engine import case_key
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (check.ID, case_key(f["case"])[:10]))
        with open(path, "w") as fh:
            json.dump({"property": check.ID, "message": f["msg"], "signature": f["sig"], "case": f["case"],
                       "replay_cmd": "bash run.sh %s --replay %s" % (check.ID, path)}, fh, indent=1)
        print("failure: " + f["msg"][:1500])
        print("case: " + json.dumps(f["case"])[:3000])
        print("VIOLATION property=%s replay=%s" % (check.ID, path))
        return 1
    if errors:
        print("ERROR in check (not a verdict):\n" + "\n".join(errors), file=sys.stderr)
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
