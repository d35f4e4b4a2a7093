"""Builds the helper programs the checks use (kept in /verif/.build, out of git)."""
import hashlib
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")


def ensure():
    """Compile tools_src/fcc.c unless that has been done for exactly this text."""
    src = os.path.join(VERIF, "tools_src", "fcc.c")
    with open(src, "rb") as f:
        key = hashlib.sha1(f.read()).hexdigest()[:12]
    out = os.path.join(BUILD, "fcc-" + key)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = "%s.%d" % (out, os.getpid())
        for cc in ("gcc", "clang", "cc"):
            try:
                subprocess.run([cc, "-O1", "-o", tmp, src], check=True)
                break
            except (OSError, subprocess.CalledProcessError) as e:
                err = e
        else:
            sys.exit("cannot build fcc: %s" % err)
        os.rename(tmp, out)
    return out


if __name__ == "__main__":
    ensure()
