#!/usr/bin/env python3
"""mutate.py CHECK[,CHECK...] FILE OLD NEW [run.sh args]: runs checks against a scratch copy of /repo with one textual change."""
import os, shutil, subprocess, sys, tempfile
checks, f, old, new, *rest = sys.argv[1:]
d = tempfile.mkdtemp(prefix="mut-")
try:
    r = os.path.join(d, "repo")
    subprocess.run(["cp", "-a", os.environ.get("VP_REPO", "/repo"), r], check=True)
    p = os.path.join(r, f)
    s = open(p).read()
    old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
    if old not in s:
        sys.exit("text not found in " + f)
    open(p, "w").write(s.replace(old, new, 1))
    for c in checks.split(","):
        x = subprocess.run(["bash", "run.sh", c, "--no-evidence"] + rest, env=dict(os.environ, VP_REPO=r), capture_output=True, text=True,
                           cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        print(c, "exit", x.returncode, "|", (x.stdout.strip().splitlines() or [""])[0], "|", [l[:300] for l in x.stdout.splitlines() if l.startswith("failure")], x.stderr[-500:])
finally:
    shutil.rmtree(d, ignore_errors=True)
