"""Other interpreters, started with other settings that cannot be changed
later (string hashing, the allocator's fill pattern, an environment). Each
imports the code once and answers requests by forking."""
import atexit
import importlib
import os
import pickle
import shutil
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import traceback

from .core import RT, VERIF, Violation

KINDS = (
    {"PYTHONHASHSEED": "1", "MALLOC_PERTURB_": "85", "LC_ALL": "C"},
    {"PYTHONHASHSEED": "4242", "MALLOC_PERTURB_": "170", "TZ": "Asia/Tokyo",
     "COLUMNS": "40"},
    {"PYTHONHASHSEED": "77", "MALLOC_PERTURB_": "255", "LC_ALL": "C.UTF-8",
     "PYTHONUTF8": "1"},
)
_dir = None


def start(pid):
    """Start all helpers; they end with this process."""
    global _dir
    _dir = tempfile.mkdtemp(prefix="sktsim-h-", dir="/dev/shm"
                            if os.path.isdir("/dev/shm") else "/tmp")
    atexit.register(stop)
    for n, extra in enumerate(KINDS):
        env = dict(os.environ, **extra)
        subprocess.Popen(
            [sys.executable, os.path.join(VERIF, "check.py"), pid, "--serve",
             path(n)], env=env, stdin=subprocess.PIPE,
            stdout=subprocess.DEVNULL, cwd=VERIF)


def stop():
    if _dir and os.path.isdir(_dir):
        shutil.rmtree(_dir, ignore_errors=True)


def path(n):
    return os.path.join(_dir, str(n))


def _send(s, obj):
    b = pickle.dumps(obj)
    s.sendall(struct.pack("<Q", len(b)) + b)


def _recv(s):
    def exactly(n):
        out = b""
        while len(out) < n:
            b = s.recv(min(1 << 16, n - len(out)))
            if not b:
                raise EOFError
            out += b
        return out
    return pickle.loads(exactly(struct.unpack("<Q", exactly(8))[0]))


def serve(prop, where):
    """Answer until whoever started this process is gone."""
    import select
    prop.setup_safe()
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(where + ".new")
    srv.listen(64)
    os.rename(where + ".new", where)
    while True:
        r, _, _ = select.select([srv, 0], [], [])
        if 0 in r and not os.read(0, 1):
            return
        if srv not in r:
            continue
        c, _ = srv.accept()
        if os.fork():
            c.close()
            continue
        try:
            srv.close()
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            signal.alarm(320)
            mod, fn, args = _recv(c)
            try:
                out = ("ok", getattr(importlib.import_module(mod),
                                     fn)(*args))
            except Violation as v:
                out = ("viol", (v.kind, v.detail))
            except BaseException:
                out = ("err", traceback.format_exc())
            _send(c, out)
        finally:
            os._exit(0)


def ask(n, mod, fn, *args):
    """Run sim module function ``mod.fn(*args)`` in helper n."""
    import time
    end = RT() + 300
    while True:
        s = socket.socket(socket.AF_UNIX)
        try:
            s.connect(path(n))
            break
        except OSError:
            s.close()
            if RT() > end:
                raise RuntimeError("helper process did not come up")
            time.sleep(0.05)
    with s:
        _send(s, (mod, fn, args))
        try:
            tag, val = _recv(s)
        except EOFError:
            raise Violation("process-died", f"helper {KINDS[n]}")
    if tag == "viol":
        raise Violation(*val)
    if tag == "err":
        raise RuntimeError("run failed in the harness:\n" + val)
    return val
