"""Process lives: start an optimizer in a directory, make calls, and let the
plan's faults hit it. Shared by the properties about runs."""
import hashlib
import os

import numpy as np

from . import world as W
from .core import Violation
from .vfs import SimCrash, SimInterrupt

CRASHES = ("crash", "crash_torn", "crash_after")
SUBS = ("rho.npz", "histories", "mesh_rho/info", "cfg.json", "data",
        "timing", "progress", "condition", ".tmp")


def gen_calls(rng, iters, n_max=4):
    out = []
    for _ in range(rng.randint(1, n_max)):
        r = rng.random()
        if r < 0.25:
            out.append(["run"])
        else:
            out.append(["steps", rng.randint(1, max(3, iters // 2))])
    return out


def gen_disk_fault(rng, acts=CRASHES, sub_p=0.5):
    f = {"act": rng.choice(acts)}
    if f["act"] in ("crash_torn", "short", "enospc"):
        f["frac"] = rng.choice((0.0, 0.1, 0.5, 0.9, 0.999))
    if f["act"] == "enospc":
        f["for"] = rng.choice((0, 0, 1, 5, 40))
    if rng.random() < sub_p:
        f["sub"] = rng.choice(SUBS)
        f["nth"] = int(rng.random() ** 2 * 14)
    else:
        f["pos"] = round(rng.random(), 4)
    return f


def resolve(faults, nops):
    out = []
    for f in faults or ():
        g = dict(f)
        if "pos" in g:
            g["at"] = int(g.pop("pos") * nops)
        out.append(g)
    return out


def make_call(o, call):
    if call[0] == "run":
        o.optimize()
    else:
        o.optimize_steps(call[1])


def quiet_call(o, call):
    W.must(f"call {call}", make_call, o, call)


def start_over(spec, start, dst):
    """Configuration overrides for a way of starting."""
    if start == "fresh":
        return {}
    if start == "restart":
        return {"restart": True}
    return {"restart": True, "restart_from": int(start)}


class Outcome:
    def __init__(self):
        self.how = "ok"          # ok | crash | error | interrupt
        self.error = None
        self.opt = None
        self.calls_done = 0
        self.ready = False       # set-up returned


def live(sim, spec, dst, start, calls, faults=(), power=None, solver=(),
         nops=100, nsolves=20, must=False, before_call=None, after_call=None,
         task=None, **over):
    """One life of the process. Faults end it, or make it fail; without a
    fired fault nothing may go wrong."""
    out = Outcome()
    sim.disk.arm(resolve(faults, nops), power)
    sim.solver.arm(resolve(solver, nsolves))
    before = _fired(sim)
    kw = dict(start_over(spec, start, dst), **over)
    try:
        o = W.make_opt(spec, dst, task=task, **kw)
        out.opt = o
        out.ready = True
        for c in calls:
            if before_call:
                before_call(o, c)
            with _silence():
                make_call(o, c)
            out.calls_done += 1
            if after_call:
                after_call(o, c)
    except Violation:
        raise
    except SimCrash:
        out.how = "crash"
        sim.reboot()
    except SimInterrupt as e:
        out.how, out.error = "interrupt", e
    except Exception as e:
        out.how, out.error = "error", e
        if _fired(sim) == before:
            raise Violation(
                "unexpected-error",
                f"start={start} calls={calls[:out.calls_done + 1]}: "
                f"{type(e).__name__}: {e}") from e
    finally:
        sim.disk.disarm()
        sim.solver.disarm()
    return out


def _silence():
    import contextlib
    import io
    return contextlib.redirect_stdout(io.StringIO())


def _fired(sim):
    return {k: v for k, v in sim.fired().items()
            if not k.endswith("fsync_seen")}


def fired_any(sim):
    return bool(_fired(sim))


# ------------------------------------------------------------------- checks
def check_rho(got, ref, what):
    """Snapshots hold the reference trajectory's densities."""
    for i, r in sorted(got.items()):
        if i not in ref.rho:
            raise Violation("extra-iteration",
                            f"{what}: snapshot of iteration {i}, the "
                            f"undisturbed run has {sorted(ref.rho)}")
        if not W.same(r, ref.rho[i]):
            raise Violation("densities-differ",
                            f"{what}: iteration {i}: "
                            f"{W.diff(r, ref.rho[i])}")


def check_hist(rec, ref, upto, what):
    """In-memory histories hold the reference entries 1..upto."""
    got = W.hist_arrays(rec)
    check_hist_arrays(got, ref, upto, what)


def check_hist_arrays(got, ref, upto, what):
    if set(got) != set(ref.hist):
        raise Violation("history-names",
                        f"{what}: {sorted(set(got) ^ set(ref.hist))}")
    for k in sorted(got):
        a, b = got[k], ref.hist[k]
        if len(a) != upto:
            raise Violation("history-length",
                            f"{what}: {k} has {len(a)} entries after "
                            f"{upto} iterations")
        if upto and not W.same(a, b[:upto]):
            raise Violation("history-values",
                            f"{what}: {k}: {W.diff(a, b[:upto])}")


def hist_file(dst):
    """Histories as a reader of histories.npz sees them, None if absent."""
    if not os.path.exists(os.path.join(dst, "histories.npz")):
        return None
    h = W.S.tools.HistoryCollection(dst)
    try:
        h.import_histories("histories.npz")
        return W.hist_arrays(h)
    except Exception as e:
        raise Violation("unreadable-histories",
                        f"{type(e).__name__}: {e}")


def check_final(dst, o, ref, what):
    ck = W.checkpoints(dst)
    check_rho(ck, ref, what)
    if ref.last not in ck:
        raise Violation("iterations-missing",
                        f"{what}: no snapshot of iteration {ref.last}, only "
                        f"{sorted(ck)}")
    check_hist(o.recorder, ref, ref.last, what)
    h = hist_file(dst)
    if h is None:
        raise Violation("histories-missing", what)
    check_hist_arrays(h, ref, ref.last, what + " (histories.npz)")


def check_fields(dst, ref, what, only=None):
    """Field files hold the physical densities and energies of their
    iteration."""
    got = W.fields(dst)
    for i, f in sorted(got.items()):
        if only is not None and i not in only:
            continue
        if i not in ref.fields:
            raise Violation("extra-iteration", f"{what}: field file {i}")
        for k, v in sorted(ref.fields[i].items()):
            if k not in f:
                raise Violation("field-missing", f"{what}: {i}: {k}")
            if not W.same(f[k], v):
                raise Violation("fields-differ", f"{what}: iteration {i}: "
                                f"{k}: {W.diff(f[k], v)}")
    return got


def nontrivial(ref):
    x = ref.rho[ref.last]
    return bool(np.std(x) > 1e-3)


def sig(*parts):
    return hashlib.sha256(repr(parts).encode()).hexdigest()[:12]


def tree(dst, names=None):
    """relative path -> digest of every file below dst."""
    out = {}
    for d, _, fs in os.walk(dst):
        for f in fs:
            p = os.path.join(d, f)
            r = os.path.relpath(p, dst)
            if names is not None and not names(r):
                continue
            with open(p, "rb") as fh:
                out[r] = hashlib.sha256(fh.read()).hexdigest()
    return out


def between(rng, xs):
    """A value well between two of xs."""
    v = sorted(xs)
    i = rng.randrange(len(v))
    lo, hi = v[i], v[i + 1] if i + 1 < len(v) else 2 * v[-1] + 1e-6
    return 0.5 * (lo + hi)


def gen_conv(rng, spec):
    """Switch early convergence on so that it stops the run midway, if the
    undisturbed run allows it."""
    base = {k: v for k, v in spec.items() if k != "conv"}
    r = W.ref(base)
    ch = list(r.hist["rho_change_max"])
    kk = [abs(x) for x in r.hist["kkt_residual"]]
    if rng.random() < 0.4:
        # both criteria bind: each holds alone in some iteration
        for _ in range(20):
            a, b = between(rng, ch), between(rng, kk)
            ok = [(x < a, y < b) for x, y in zip(ch, kk)]
            end = ok.index((True, True)) if (True, True) in ok else len(ok)
            if {(True, False), (False, True)} <= set(ok[:end]) or (
                    0 < end < len(ok) and len(set(ok[:end])) > 1):
                return dict(base, conv=1, tol_rho=a, tol_kkt=b)
    cand = []
    for key, seq, other in (("tol_rho", ch, "tol_kkt"),
                            ("tol_kkt", kk, "tol_rho")):
        for k in range(0, len(seq)):
            m = min(seq[:k]) if k else seq[0] * 2 + 1e-6
            if seq[k] < m * 0.999 and seq[k] > 0:
                cand.append((k, key, 0.5 * (seq[k] + m), other))
    mid = [c for c in cand if 0 < c[0] < len(ch) - 1]
    c = rng.choice(mid) if mid and rng.random() < 0.85 else (
        rng.choice(cand) if cand else None)
    if c is None:
        return base
    _, key, tol, other = c
    return dict(base, conv=1, **{key: tol, other: 1e12})


def shrink_list(xs, key, plan):
    for i in range(len(xs)):
        yield dict(plan, **{key: xs[:i] + xs[i + 1:]})


def shrink_calls(calls):
    for i in range(len(calls)):
        yield calls[:i] + calls[i + 1:]
    for i, c in enumerate(calls):
        if c[0] == "steps" and c[1] > 1:
            yield calls[:i] + [["steps", c[1] - 1]] + calls[i + 1:]


RUN_REAL = ["sktopt optimizers OC and LogMOC, filters, FEM solvers, "
            "histories, schedulers, timer (all of sktopt below the seams)",
            "scikit-fem assembly", "SciPy/pyamg numerics", "meshio VTU writer",
            "files in a scratch directory below the simulated disk"]
RUN_STUB = ["matplotlib figures (a recording stub that writes a small file "
            "through the same disk)", "clock"]
