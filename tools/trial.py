#!/usr/bin/env python3
"""trial.py [-R] PATCH|COMMIT PROP... : run checks against a scratch copy of
/repo with a patch applied (or, with -R, a commit undone). For development;
no check uses it."""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    args = sys.argv[1:]
    rev = args[0] == "-R"
    if rev:
        args = args[1:]
    what, props = args[0], args[1:]
    d = tempfile.mkdtemp(prefix="trial-", dir="/dev/shm")
    try:
        shutil.copytree("/repo/scikit-topt", d + "/scikit-topt",
                        ignore=shutil.ignore_patterns("tests", "__pycache__",
                                                      "result"))
        if os.path.exists(what):
            patch = open(what).read()
        else:
            patch = subprocess.run(["git", "-C", "/repo", "show", what],
                                   capture_output=True, text=True,
                                   check=True).stdout
        r = subprocess.run(["patch", "-p1", "-d", d] +
                           (["-R"] if rev else []), input=patch,
                           capture_output=True, text=True)
        if r.returncode:
            print("patch failed", r.stdout[-500:], r.stderr[-300:])
            return 3
        env = dict(os.environ, SKTSIM_REPO=d + "/scikit-topt")
        for p in props:
            r = subprocess.run([sys.executable, HERE + "/check.py", p],
                               capture_output=True, text=True, env=env)
            out = [x for x in r.stdout.splitlines()
                   if not x.startswith(("faults", "shrink", "C"))]
            print(f"{p} rc={r.returncode}", *[x[:260] for x in out],
                  r.stderr[-500:] if r.returncode == 2 else "",
                  sep="\n   ", flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


sys.exit(main())
