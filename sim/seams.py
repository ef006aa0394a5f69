"""The other seams: linear solvers, clock, plotting, rendering, randomness,
and the installation of all of them around one simulated run."""
import os
import shutil
import sys
import tempfile
import time
import types
import weakref
import warnings

from .memory import Memory
from .vfs import Disk, SimCrash, SimInterrupt, _real as _vfs_real

_rt = types.SimpleNamespace(
    perf_counter=time.perf_counter, time=time.time, monotonic=time.monotonic,
    sleep=time.sleep, rmtree=shutil.rmtree,
)


def scratch_base():
    for p in ("/dev/shm", "/tmp"):
        if os.path.isdir(p) and os.access(p, os.W_OK):
            return p
    return tempfile.gettempdir()


# --------------------------------------------------------------------- clock
class Clock:
    """Simulated time. ``pattern`` is cycled: each read first moves time by the
    next entry (which may be zero or negative)."""

    def __init__(self, pattern=(1e-3,)):
        self.t = 1000.0
        self.pattern = list(pattern) or [1e-3]
        self.i = 0
        self.reads = 0
        self.span = 0.0
        self.yield_hook = None
        self.backward = 0

    def _tick(self):
        d = self.pattern[self.i % len(self.pattern)]
        self.i += 1
        self.reads += 1
        self.t += d
        self.span += abs(d)
        if d < 0:
            self.backward += 1
        return self.t

    def perf_counter(self):
        if self.yield_hook is not None:
            self.yield_hook("clock", "")
        return self._tick()

    def wall(self):
        # wall time: stays inside a valid calendar range
        return 1.7e9 + (self.t % 1.0e7)

    def perf_counter_ns(self):
        return int(self.perf_counter() * 1e9)


# ------------------------------------------------------------------- solvers
class SolverFaults:
    """Counts solver entries and fails the ones the plan names."""

    KINDS = ("cg", "spsolve", "splu", "lusolve", "amg", "ksp")

    def __init__(self):
        self.n = 0
        self.total = 0
        self.faults = []
        self.fired = {}
        self.log = []
        self.yield_hook = None

    def arm(self, faults=()):
        self.n = 0
        self.faults = [dict(f) for f in faults]
        self.log = []

    def disarm(self):
        self.faults = []

    def enter(self, kind):
        if self.yield_hook is not None:
            self.yield_hook("solve", kind)
        k = self.n
        self.n += 1
        self.total += 1
        self.log.append(kind)
        for f in self.faults:
            if f["at"] == k or (f["at"] == "all" and
                                f.get("kind") in (None, kind)):
                act = f["act"]
                if act == "raise":
                    self._note(act, kind)
                    raise RuntimeError(f"simulated failure in {kind}")
                if act == "memory":
                    self._note(act, kind)
                    raise MemoryError(f"simulated allocation failure {kind}")
                if act == "interrupt":
                    self._note(act, kind)
                    raise SimInterrupt("simulated interrupt")
                return act
        return None

    def _note(self, act, kind):
        k = f"{act}@{kind}"
        self.fired[k] = self.fired.get(k, 0) + 1


class CallFaults(SolverFaults):
    """Calls the code under test makes into numerical libraries, as places
    where an allocation fails or the user interrupts (sys.monitoring)."""
    ROOTS = ("numpy", "scipy", "skfem", "pyamg", "meshio")
    TOOL = 3

    def __init__(self, package):
        super().__init__()
        self.prefix = os.path.dirname(os.path.abspath(package.__file__)) \
            + os.sep
        self.seen = {}

    def arm(self, faults=()):
        super().arm(faults)
        self.seen = {}

    def _call(self, code, offset, fn, arg0):
        if not code.co_filename.startswith(self.prefix) or \
                code.co_name == "<module>":
            return sys.monitoring.DISABLE
        if not self.numeric(fn):
            return None
        # of a call made in a loop, count the 1st, 2nd, 4th, 8th ... only
        n = self.seen[code, offset] = self.seen.get((code, offset), 0) + 1
        if n & (n - 1) == 0:
            self.enter("call")

    def numeric(self, fn):
        for x in (fn, getattr(fn, "__objclass__", None),
                  getattr(fn, "__self__", None)):
            m = getattr(x, "__module__", None)
            if not isinstance(m, str):
                m = type(x).__module__
            if m.split(".")[0] in self.ROOTS:
                return True
        return False

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "calls")
        m.register_callback(self.TOOL, m.events.CALL, self._call)
        m.set_events(self.TOOL, m.events.CALL)
        m.restart_events()
        return self

    def __exit__(self, *exc):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.register_callback(self.TOOL, m.events.CALL, None)
        m.free_tool_id(self.TOOL)
        return False


def _spoil(x):
    """One entry overflowed; the solver noticed nothing."""
    import numpy as np
    x = np.array(x, dtype=float)
    x[(-1,) * x.ndim] = np.inf
    return x


class _LU:
    def __init__(self, lu, sf):
        self.__dict__["_lu"] = lu
        self.__dict__["_sf"] = sf

    def solve(self, rhs, *a, **kw):
        act = self._sf.enter("lusolve")
        r = self._lu.solve(rhs, *a, **kw)
        if act in ("nan", "breakdown", "singular"):
            self._sf._note("nan", "lusolve")
            r = r * float("nan")
        if act == "nan1":
            self._sf._note(act, "lusolve")
            r = _spoil(r)
        return r

    def __getattr__(self, n):
        return getattr(self._lu, n)


def _make_solver_wrappers(sf):
    import numpy as np
    import scipy.sparse.linalg as spl
    import pyamg

    rcg, rsp, rlu = spl.cg, spl.spsolve, spl.splu
    ramg = pyamg.smoothed_aggregation_solver

    def cg(A, b, *a, **kw):
        act = sf.enter("cg")
        if act in ("noconv", "breakdown", "nan", "nan1", "singular"):
            sf._note(act, "cg")
            kw2 = dict(kw)
            if act == "noconv":
                # a real early stop: three iterations of the real method
                kw2["maxiter"] = 3
                kw2["rtol"] = 1e-30
                kw2["atol"] = 0.0
                x, _ = rcg(A, b, *a, **kw2)
                return x, kw.get("maxiter") or 10 * len(np.ravel(b))
            if act == "breakdown":
                x = np.zeros_like(np.asarray(b, dtype=float))
                return x, -1
            x, _ = rcg(A, b, *a, **kw)
            if act == "nan1":
                return _spoil(x), 0
            return x * float("nan"), 1
        return rcg(A, b, *a, **kw)

    def spsolve(A, b, *a, **kw):
        act = sf.enter("spsolve")
        if act == "nan1":
            sf._note(act, "spsolve")
            return _spoil(rsp(A, b, *a, **kw))
        if act in ("nan", "singular", "breakdown", "noconv"):
            sf._note("singular", "spsolve")
            warnings.warn("Matrix is exactly singular",
                          spl.MatrixRankWarning, stacklevel=2)
            return np.full(np.shape(b), np.nan)
        return rsp(A, b, *a, **kw)

    def splu(A, *a, **kw):
        act = sf.enter("splu")
        if act in ("singular", "nan", "nan1", "breakdown", "noconv"):
            sf._note("singular", "splu")
            raise RuntimeError("Factor is exactly singular")
        return _LU(rlu(A, *a, **kw), sf)

    def sas(A, *a, **kw):
        act = sf.enter("amg")
        if act is not None:
            sf._note("raise", "amg")
            raise ValueError("simulated multigrid set-up failure")
        st = np.random.get_state()
        np.random.seed(12345)
        try:
            return ramg(A, *a, **kw)
        finally:
            np.random.set_state(st)

    return [(spl, "cg", rcg, cg), (spl, "spsolve", rsp, spsolve),
            (spl, "splu", rlu, splu),
            (pyamg, "smoothed_aggregation_solver", ramg, sas)]


def _filter_wrappers(ff):
    """The density filters' two operations, as a place where calls fail."""
    m = sys.modules.get("sktopt.filters")
    out = []
    for cls in vars(m).values() if m else ():
        if not isinstance(cls, type):
            continue
        for name in ("forward", "gradient"):
            f = getattr(cls, name, None)
            if f is None or not callable(f):
                continue

            def wrap(self, *a, _f=f, _n=name, **kw):
                ff.enter(_n)
                return _f(self, *a, **kw)
            out.append((cls, name, f, wrap))
    return out


def make_petsc_stub(sf, real_solve):
    """A petsc4py stand-in with the calls the code makes. Its solve is a direct
    solve; its converged reason follows the plan."""
    import numpy as np
    import scipy.sparse as sp

    class Mat:
        def createAIJ(self, size=None, csr=None, comm=None):
            ip, ix, dt = csr
            self.A = sp.csr_matrix((dt, ix, ip), shape=size)
            return self

        def assemblyBegin(self):
            pass

        def assemblyEnd(self):
            pass

        def assemble(self):
            pass

        def destroy(self):
            pass

        setUp = assemble

        def setOption(self, *a):
            pass

    class Vec:
        def createWithArray(self, a, comm=None):
            self.a = a
            return self

        def createSeq(self, n, comm=None):
            self.a = np.zeros(n)
            return self

        def getArray(self):
            return self.a

        def destroy(self):
            pass

        @property
        def array(self):
            return self.a

    class PC:
        def setType(self, t):
            pass

        def setFactorSolverType(self, t):
            pass

    class KSP:
        def create(self, comm=None):
            self.reason = 0
            return self

        def setOperators(self, A, P=None):
            self.A = A.A

        def setOptionsPrefix(self, p):
            pass

        def setType(self, t):
            self.t = t

        def getPC(self):
            return PC()

        def setTolerances(self, **kw):
            pass

        def setFromOptions(self):
            pass

        def setUp(self):
            pass

        def solve(self, b, x):
            act = sf.enter("ksp")
            if act == "nan1":
                sf._note(act, "ksp")
                x.a[:] = _spoil(real_solve(self.A.tocsc(), b.a))
                self.reason = 4 if getattr(self, "t", "") == "preonly" else 2
                return
            if act in ("noconv", "breakdown", "nan", "singular"):
                sf._note(act, "ksp")
                self.reason = {"noconv": -3, "breakdown": -5,
                               "nan": -9, "singular": -11}[act]
                if act == "noconv":
                    x.a[:] = 0.5 * real_solve(self.A.tocsc(), b.a)
                elif act == "nan":
                    x.a[:] = np.nan
                else:
                    x.a[:] = 0.0
                return
            x.a[:] = real_solve(self.A.tocsc(), b.a)
            self.reason = 4 if getattr(self, "t", "") == "preonly" else 2

        def getConvergedReason(self):
            return self.reason

        def getIterationNumber(self):
            return 3

        def getResidualNorm(self):
            return 0.0

        def destroy(self):
            pass

        @property
        def converged(self):
            return self.reason > 0

        is_converged = converged

    P = types.ModuleType("petsc4py.PETSc")
    P.Mat, P.Vec, P.KSP, P.PC = Mat, Vec, KSP, PC
    P.COMM_SELF = object()

    class Error(RuntimeError):
        pass

    P.Error = Error
    pkg = types.ModuleType("petsc4py")
    pkg.PETSc = P
    return pkg, P


# ------------------------------------------------------------------ plotting
class _Null:
    """Stands for any matplotlib object."""

    def __init__(self, name=""):
        object.__setattr__(self, "_n", name)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Null(n)

    def __setattr__(self, n, v):
        pass

    def __call__(self, *a, **kw):
        return _Null()

    def __iter__(self):
        return iter(())

    def __getitem__(self, k):
        return _Null()


class _Ax(_Null):
    def pie(self, x, *a, **kw):
        import numpy as np
        x = np.asarray(x, dtype=float)
        if np.any(x < 0):
            raise ValueError(
                "Wedge sizes 'x' must be non negative values")
        if kw.get("autopct") is not None and np.sum(x) > 0:
            f = kw["autopct"]
            for v in x / np.sum(x):
                if callable(f):
                    f(100.0 * v)
        return _Null(), _Null(), _Null()

    def get_legend_handles_labels(self):
        return [], []

    def barh(self, names, data, *a, **kw):
        return _Null()


class _Fig(_Null):
    plots = 0

    def __init__(self, *a, **kw):
        pass

    def savefig(self, path, *a, **kw):
        _Fig.plots += 1
        if isinstance(path, (str, os.PathLike)):
            with open(path, "wb") as f:
                f.write(b"simulated figure\n")
        elif hasattr(path, "write"):
            path.write(b"simulated figure\n")

    def add_subplot(self, *a, **kw):
        return _Ax()

    def subplots(self, r=1, c=1, **kw):
        return _axes(r, c)


class _Uninitialised:
    """np.empty whose memory holds what the plan says."""

    def __init__(self, real, what):
        self.real, self.what = real, what
        self.__doc__ = real.__doc__
        self.__name__ = real.__name__

    def __call__(self, *a, **kw):
        import numpy as np
        x = self.real(*a, **kw)
        if self.what == "same":         # only: one seed, one execution
            if x.dtype.kind in "fciub":
                x.fill(0.7310585786300049 if x.dtype.kind in "fc" else 1)
            return x
        if x.size and x.dtype.kind in "fc":
            x[...] = {"nan": np.nan, "huge": 1e300, "neg": -7.25,
                      "tiny": 1e-310}.get(self.what, 0.5)
            if self.what == "ramp":
                x[...] = np.linspace(-2.0, 3.0, x.size).reshape(x.shape)
        elif x.size and x.dtype.kind in "iu":
            x[...] = {"nan": -1 if x.dtype.kind == "i" else 255,
                      "huge": np.iinfo(x.dtype).max}.get(self.what, 3)
        elif x.size and x.dtype.kind == "b":
            x[...] = self.what in ("nan", "ramp")
        return x

    def __getattr__(self, n):
        return getattr(self.__dict__["real"], n)


def _heap_wrappers(what):
    import numpy as np
    out = [(np, n, getattr(np, n), _Uninitialised(getattr(np, n), what))
           for n in ("empty", "empty_like")]
    try:
        from numba.core.dispatcher import _DispatcherBase as B
        real = B._compile_for_args
    except (ImportError, AttributeError):
        return out

    def compile_for_args(self, *a, **kw):
        # the compiler knows the functions by identity
        for o, n, old, _ in out[:2]:
            setattr(o, n, old)
        try:
            return real(self, *a, **kw)
        finally:
            for o, n, _, new in out[:2]:
                setattr(o, n, new)
    return out + [(B, "_compile_for_args", real, compile_for_args)]


def _axes(r, c, squeeze=True):
    import numpy as np
    a = np.empty((r, c), dtype=object)
    for i in range(r):
        for j in range(c):
            a[i, j] = _Ax()
    if squeeze:
        if r == c == 1:
            return a[0, 0]
        if r == 1 or c == 1:
            return a.ravel()
    return a


def _plot_wrappers():
    import matplotlib.pyplot as plt
    import matplotlib.figure as mf

    def subplots(nrows=1, ncols=1, *, squeeze=True, **kw):
        return _Fig(), _axes(nrows, ncols, squeeze)

    def figure(*a, **kw):
        return _Fig()

    def nothing(*a, **kw):
        return _Null()

    def savefig(path, *a, **kw):
        return _Fig().savefig(path)

    def fignums(*a, **kw):
        return []

    special = {"subplots": subplots, "figure": figure, "savefig": savefig,
               "get_fignums": fignums, "get_figlabels": fignums,
               "axes": lambda *a, **kw: _Ax(),
               "subplot": lambda *a, **kw: _Ax(),
               "gca": lambda *a, **kw: _Ax(),
               "gcf": figure}
    out = [(mf, "Figure", mf.Figure, _Fig)]
    # whatever pyplot does to the current figure, but not its settings
    for n, f in sorted(vars(plt).items()):
        if n.startswith("_") or not isinstance(f, types.FunctionType) or \
                f.__module__ != plt.__name__ or n in KEEP:
            continue
        out.append((plt, n, f, special.get(n, nothing)))
    return out


KEEP = {"rc", "rc_context", "rcdefaults", "get_cmap", "get_backend",
        "switch_backend", "ion", "ioff", "isinteractive", "interactive",
        "set_cmap", "get_plot_commands", "set_loglevel", "findobj", "getp",
        "setp", "get", "xkcd", "install_repl_displayhook",
        "uninstall_repl_displayhook", "new_figure_manager"}


# ----------------------------------------------------------------- addresses
ID = id


class Addresses:
    """The allocator as the code sees it through ``id``: an address stays with
    its object and may be given to a new one once that object is gone."""

    def __init__(self, choices):
        self.choices = choices
        self.k = 0
        self.next = 0x7F0000000000
        self.of = {}           # real id -> (weakref, address)
        self.free = []
        self.reused = 0
        self.asked = 0

    def __call__(self, obj):
        real = ID(obj)
        self.asked += 1
        e = self.of.get(real)
        if e is not None and e[0]() is obj:
            return e[1]
        try:
            r = weakref.ref(obj, lambda _r, real=real: self._gone(real, _r))
        except TypeError:
            return real
        if e is not None:
            self.free.append(e[1])
        c = self.choices[self.k % len(self.choices)]
        self.k += 1
        if c is not None and self.free:
            a = self.free.pop(c % len(self.free))
            self.reused += 1
        else:
            a = self.next
            self.next += 64
        self.of[real] = (r, a)
        return a

    def _gone(self, real, r):
        e = self.of.get(real)
        if e is not None and e[0] is r:
            del self.of[real]
            self.free.append(e[1])


# ------------------------------------------------------------------- the sim
class Sim:
    """All seams, installed around one run."""

    def __init__(self, clock=None, plots="stub", petsc=False, calls=False,
                 heap="same", random_state=20240229, addresses=(0,)):
        self.base = tempfile.mkdtemp(prefix="sktsim-", dir=scratch_base())
        self.root = os.path.join(self.base, "d")
        os.mkdir(self.root)
        self.home = os.path.join(self.base, "home")     # working directory
        self.disk = Disk(self.root)
        self.clock = clock or Clock()
        self.solver = SolverFaults()
        self.filter = SolverFaults()
        self.calls = CallFaults(sys.modules["sktopt"]) if calls else None
        self.plots = plots
        self.petsc = petsc
        self.heap = heap
        self.addresses = Addresses(list(addresses))
        self.random_state = random_state
        self.rendered = 0
        self.saved = []

    def path(self, *a):
        return os.path.join(self.root, *a)

    def _patch(self, obj, name, old, new):
        self.saved.append((obj, name, old))
        setattr(obj, name, new)

    def __enter__(self):
        import numpy as np
        import scipy.sparse.linalg as spl
        self._env = dict(os.environ)
        self._cwd = os.getcwd()
        os.mkdir(self.home)
        os.chdir(self.home)
        self._np_state = np.random.get_state()
        np.random.seed(self.random_state)
        swaps = []
        if self.heap:
            swaps += _heap_wrappers(self.heap)
        swaps += _make_solver_wrappers(self.solver)
        c = self.clock
        swaps += [(time, "perf_counter", time.perf_counter, c.perf_counter),
                  (time, "perf_counter_ns", time.perf_counter_ns,
                   c.perf_counter_ns),
                  (time, "monotonic", time.monotonic, c.perf_counter),
                  (time, "time", time.time, c.wall)]
        if self.plots == "stub":
            swaps += _plot_wrappers()
        swaps += _filter_wrappers(self.filter)
        real_sp = spl.spsolve
        before = {}
        for o, n, old, new in swaps:
            self._patch(o, n, old, new)
            before[id(old)] = (old, new)
        pre = {k: getattr(os, k) for k in (
            "replace", "rename", "remove", "unlink", "mkdir", "rmdir",
            "fsync", "listdir", "scandir", "open", "write", "close",
            "truncate", "fdatasync")}
        self.disk.install()
        for k, old in pre.items():
            before[id(old)] = (old, getattr(os, k))
        # names bound at import time inside the package
        for mn, m in list(sys.modules.items()):
            if m is None or not (mn == "sktopt" or mn.startswith("sktopt.")):
                continue
            for k, v in list(vars(m).items()):
                hit = before.get(id(v))
                if hit is not None and hit[0] is v:
                    self._patch(m, k, v, hit[1])
        if self.petsc:
            pkg, P = make_petsc_stub(self.solver, real_sp)
            self._pm = {k: sys.modules.get(k)
                        for k in ("petsc4py", "petsc4py.PETSc")}
            sys.modules["petsc4py"] = pkg
            sys.modules["petsc4py.PETSc"] = P
        self._hook = sys.unraisablehook
        sys.unraisablehook = lambda *a: None
        self._id_mods = [
            m for n, m in sys.modules.items() if m is not None and (
                n == "sktopt" or n.startswith("sktopt."))
            and "id" not in vars(m)]
        for m in self._id_mods:
            m.id = self.addresses
        self.memory = Memory("sktopt")
        if self.calls:
            self.calls.__enter__()
        return self

    def __exit__(self, *exc):
        import numpy as np
        if self.calls:
            self.calls.__exit__()
        sys.unraisablehook = self._hook
        for m in self._id_mods:
            vars(m).pop("id", None)
        self.disk.epoch += 1       # anything still open is dead
        self.disk.frozen = False
        self.disk.uninstall()
        for o, n, old in reversed(self.saved):
            setattr(o, n, old)
        self.saved = []
        if self.petsc:
            for k, v in self._pm.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v
        np.random.set_state(self._np_state)
        for k in list(os.environ):
            if k not in self._env:
                del os.environ[k]
        for k, v in self._env.items():
            if os.environ.get(k) != v:
                os.environ[k] = v
        os.chdir(self._cwd)
        shutil.rmtree(self.base, ignore_errors=True)
        if not exc[0] and self.disk.seen_by_observer:
            raise self.disk.seen_by_observer
        return False

    def reboot(self):
        """Crash recovery: volatile state of the dead process is gone."""
        self.disk.reboot()
        self.memory.restore()
        os.chdir(self.home)
        self.solver.disarm()
        self.filter.disarm()
        if self.calls:
            self.calls.disarm()
        for k in list(os.environ):
            if k not in self._env:
                del os.environ[k]
        for k, v in self._env.items():
            if os.environ.get(k) != v:
                os.environ[k] = v

    def fired(self):
        out = {f"disk:{k}": v for k, v in self.disk.fired.items()}
        out.update({f"solver:{k}": v for k, v in self.solver.fired.items()})
        out.update({f"filter:{k}": v for k, v in self.filter.fired.items()})
        if self.calls:
            out.update({f"calls:{k}": v
                        for k, v in self.calls.fired.items()})
        return out
