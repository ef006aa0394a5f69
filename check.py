#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
ENV = dict(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
           NUMBA_NUM_THREADS="1", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
           PYTHONHASHSEED=os.environ.get("SIM_HASHSEED", "0"),
           NUMBA_CACHE_DIR="/dev/shm/sktsim-numba-%d" % os.getpid()
           if os.path.isdir("/dev/shm") else "/tmp/sktsim-numba",
           SKTSIM_READY="1")


def reexec():
    env = dict(os.environ)
    for k in ENV:
        env[k] = ENV[k]
    env.pop("SCITOPT_SENSITIVITY_MODE", None)
    env["PYTHONPATH"] = ""
    py = VENV if os.path.exists(VENV) else sys.executable
    os.execve(py, [py, os.path.join(HERE, "check.py")] + sys.argv[1:], env)


def main():
    if os.environ.get("SKTSIM_READY") != "1":
        reexec()
    sys.path.insert(0, HERE)
    repo = os.environ.get("SKTSIM_REPO", "/repo/scikit-topt")
    sys.path.insert(0, repo)
    from sim import core
    import importlib
    pid = sys.argv[1]
    try:
        mod = importlib.import_module(f"sim.props.{pid.lower()}")
        prop = mod.PROP()
        rc = core.main_check(prop, sys.argv[2:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    if "sim.helpers" in sys.modules:
        sys.modules["sim.helpers"].stop()
    import shutil
    shutil.rmtree(ENV["NUMBA_CACHE_DIR"], ignore_errors=True)
    os._exit(rc)


if __name__ == "__main__":
    main()
