#!/usr/bin/env python3
"""Nothing is compiled: the checks import sktopt from /repo. This only makes
sure the interpreter and the packages the simulator needs are there."""
import os
import subprocess
import sys

py = "/opt/venv/bin/python"
if not os.path.exists(py):
    py = sys.executable
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
sys.exit(subprocess.call(
    [py, "-c", "import numpy, scipy, skfem, meshio, pyamg, matplotlib"],
    env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1")))
