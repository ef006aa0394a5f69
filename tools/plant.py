#!/usr/bin/env python3
"""plant.py ID... : confirm a planted bug in scratch copies of /repo: the
patch applies, the stable tests pass with it, demo.sh passes without it and
fails with it, and the lines it removes are not ones our own commits added.
For development; no check uses it.  -t skips the tests."""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = "e25539b"


def original(diff):
    """Removed lines, and whether each is in the base version of its file."""
    out, name, old = [], None, None
    for line in diff.splitlines():
        if line.startswith("--- "):
            name = line[6:]
            old = subprocess.run(["git", "-C", "/repo", "show",
                                  f"{BASE}:{name}"], capture_output=True,
                                 text=True).stdout.splitlines()
            old = {x.strip() for x in old}
        elif line.startswith("-") and line[1:].strip():
            out.append((line[1:].strip() in old, name, line))
    return out


def env_of(d):
    e = {k: v for k, v in os.environ.items()
         if k not in ("SKTSIM_REPO", "PYTHONPATH")}
    e.update(PYTHONPATH=d + "/scikit-topt", MPLBACKEND="Agg",
             PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1",
             PYTHONHASHSEED="0")
    return e


def main():
    args = sys.argv[1:]
    tests = "-t" not in args
    bad = 0
    for i in [a for a in args if a != "-t"]:
        b = f"{HERE}/seeded/{i}"
        json.load(open(b + "/meta.json"))
        diff = open(b + "/patch.diff").read()
        orig = original(diff)
        mine = [x for x in orig if not x[0]]
        say = [f"orig {sum(x[0] for x in orig)} mine {len(mine)}"]
        d = tempfile.mkdtemp(prefix="plant-", dir="/dev/shm")
        try:
            repo = d + "/repo"
            subprocess.run(["cp", "-a", "/repo", repo], check=True)
            dm = d + "/demo"
            shutil.copytree(b, dm, ignore=shutil.ignore_patterns(
                "*.diff", "*.patch", "meta.json"))

            def demo():
                r = subprocess.run(["bash", dm + "/demo.sh"], cwd=repo,
                                   env=env_of(repo), capture_output=True,
                                   text=True, timeout=300)
                return r
            r0 = demo()
            say.append(f"clean {r0.returncode}")
            if r0.returncode:
                say.append(r0.stdout[-1500:] + r0.stderr[-1500:])
            a = subprocess.run(["git", "-C", repo, "apply",
                                b + "/patch.diff"], capture_output=True,
                               text=True)
            if a.returncode:
                say.append("APPLY " + a.stderr)
            r1 = demo()
            say.append(f"patched {r1.returncode}")
            if r1.returncode == 0:
                say.append(r1.stdout[-1500:] + r1.stderr[-1500:])
            ok = r0.returncode == 0 and r1.returncode != 0 and \
                not a.returncode
            if tests and ok:
                t = subprocess.run(
                    [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider",
                     "-x", "--timeout=300", f"--basetemp={d}/tmp"],
                    cwd=repo, env=env_of(repo), capture_output=True,
                    text=True)
                m = re.findall(r"\d+ (?:passed|failed|error)[^\n]*",
                               t.stdout)
                say.append(f"tests {t.returncode} {m}")
                ok = ok and t.returncode == 0
            say.append((r1.stdout + r1.stderr).strip()[-200:])
            print(i, "OK" if ok else "BAD", *say, sep=" | ", flush=True)
            for x in mine[:4]:
                print("     mine:", x[2][:100])
            bad += not ok
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return bad


sys.exit(main())
