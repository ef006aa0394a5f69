"""C06: a failure inside a run call surfaces, and the same optimizer goes on."""
import gc
import locale
import logging
import os
import signal
import sys
import time

import numpy as np

from .. import drive as D
from .. import world as W
from ..core import Prop, Violation
from ..seams import Clock, Sim
from ..vfs import SimInterrupt

LOUD = ("eio", "enospc", "interrupt")


def settings():
    return (dict(os.environ), os.getcwd(), dict(np.geterr()),
            repr(np.get_printoptions()), repr(np.geterrcall()),
            sys.getrecursionlimit(), gc.isenabled(), gc.get_threshold(),
            logging.root.level, logging.root.manager.disable,
            logging.getLogger("sktopt").level, locale.setlocale(
                locale.LC_ALL), time.tzname,
            [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM,
                                           signal.SIGALRM)],
            sys.excepthook, sys.path[:])


class PROP(Prop):
    ID = "C06"
    RUNS = {"quick": 240, "thorough": 8000}
    BUDGET = {"quick": 240, "thorough": 820}
    RULE = ("one evaluation = one optimizer object kept through a drawn "
            "sequence of run calls, most of them hit by an I/O error, a full "
            "disk, a short write, a failing solver or filter call, a failed "
            "allocation or an interrupt at a drawn point, then run to the "
            "end and compared with the failure-free run; after every failing "
            "call the error, the process settings, the histories and the "
            "snapshots are checked; non-trivial and distinct = distinct "
            "(physics, optimizer, kinds of failures, iterations completed at "
            "each failure)")
    REAL, STUB = D.RUN_REAL, D.RUN_STUB
    ASSUME = ["failures are injected where a run meets them: file "
              "operations, linear solver calls, filter operations and any "
              "call into NumPy, SciPy, scikit-fem, pyamg or meshio",
              "solver failures here are loud (exceptions); silent ones are "
              "C07"]
    PROBES = ["failed_calls", "repeated_failures", "in_first_iteration",
              "filter_failures", "solver_failures", "disk_failures",
              "calls_failures"]

    def gen(self, rng, i):
        spec = W.gen_spec(rng)
        if rng.random() < 0.15:
            spec = D.gen_conv(rng, spec)
        calls = []
        for n in range(rng.choice((1, 2, 2, 3, 5))):
            c = {"call": ["run"] if rng.random() < 0.5
                 else ["steps", rng.randint(1, max(4, spec["iters"] // 2))]}
            r = rng.random()
            if r < 0.40:
                f = D.gen_disk_fault(rng, ("eio", "enospc", "interrupt",
                                           "short"), 0.55)
                c["disk"] = [f]
            elif r < 0.65:
                c["solver"] = [{"pos": round(rng.random() ** 1.5, 3),
                                "act": rng.choice(("raise", "memory",
                                                   "interrupt"))}]
            elif r < 0.80:
                c["calls"] = [{"pos": round(rng.random(), 4),
                               "act": rng.choice(("memory", "interrupt"))}]
            elif r < 0.94:
                c["filter"] = [{"pos": round(rng.random() ** 1.5, 4),
                                "act": rng.choice(("raise", "memory",
                                                   "interrupt"))}]
            calls.append(c)
        return {"spec": spec, "calls": calls,
                "env": rng.choice((None, None, "scaled", "physical"))}

    def run(self, plan, stats):
        spec, ref = plan["spec"], W.ref(plan["spec"])
        story = []
        with Sim(clock=Clock((1e-3,)), calls=any(
                c.get("calls") for c in plan["calls"])) as sim:
            if plan["env"]:
                os.environ["SCITOPT_SENSITIVITY_MODE"] = plan["env"]
            dst = sim.path("r")
            o = W.must("set-up", W.make_opt, spec, dst)
            done, failed_before = 0, False
            recorded = {}
            for n, c in enumerate(plan["calls"]):
                call = c["call"]
                what = f"call {n} {call} from iteration {done}"
                left = max(1, ref.last - done) / ref.last
                was, env = fired(sim), settings()
                sim.disk.arm(D.resolve(c.get("disk"), 6 + ref.ops * left))
                sim.solver.arm(D.resolve(c.get("solver"), ref.solves * left))
                sim.filter.arm(D.resolve(c.get("filter"),
                                         ref.filters * left))
                if sim.calls:
                    sim.calls.arm(D.resolve(c.get("calls"), 700))
                err = None
                try:
                    with D._silence():
                        D.make_call(o, call)
                except SimInterrupt as e:
                    err = e
                except W.HARNESS:
                    raise
                except Exception as e:
                    err = e
                finally:
                    sim.disk.disarm()
                    sim.solver.disarm()
                    sim.filter.disarm()
                    if sim.calls:
                        sim.calls.disarm()
                hit = [k for k, v in fired(sim).items() if v != was.get(k)]
                if err is not None and not hit:
                    raise Violation("unexpected-error",
                                    f"{what}: {type(err).__name__}: {err}")
                loud = [k for k in hit if k != "disk:short"]
                if err is None and loud:
                    raise Violation("error-swallowed",
                                    f"{what}: {loud} did not reach the caller")
                if settings() != env:
                    raise Violation(
                        "settings-changed",
                        f"{what}: {diff_settings(env, settings())}")
                hist = W.hist_arrays(o.recorder)
                lens = {len(v) for v in hist.values()}
                if len(lens) != 1:
                    raise Violation(
                        "history-length", f"{what}: entries per quantity "
                        f"{ {k: len(v) for k, v in hist.items()} }")
                L = lens.pop()
                top = ref.last if call[0] == "run" else min(
                    ref.last, done + call[1])
                if L < done or L > top or (err is None and L != top):
                    raise Violation(
                        "iteration-count",
                        f"{what} ({type(err).__name__}): {L} iterations "
                        f"recorded, call may reach {top}")
                D.check_hist(o.recorder, ref, L, what)
                ck = W.checkpoints(dst)
                D.check_rho(ck, ref, what)
                if max(ck, default=0) > min(L + 1, top):
                    raise Violation(
                        "went-on-after-failure",
                        f"{what}: {L} iterations recorded, snapshots "
                        f"{sorted(ck)}")
                if L > done and err is None and L not in ck:
                    raise Violation("snapshot-missing", f"{what}: {L}")
                lost = set(recorded) - set(ck)
                if lost:
                    raise Violation("snapshot-lost", f"{what}: {lost}")
                recorded = ck
                if err is not None:
                    stats.add("failed_calls")
                    if failed_before:
                        stats.add("repeated_failures")
                    if L == 0:
                        stats.add("in_first_iteration")
                    for k in hit:
                        stats.add(k.split(":")[0] + "_failures")
                    story.append((L, tuple(sorted(hit))))
                failed_before = err is not None
                done = L
            env = settings()
            D.quiet_call(o, ["run"])
            D.check_final(dst, o, ref, "continued after the failures")
            if settings() != env:
                raise Violation("settings-changed",
                                diff_settings(env, settings()))
            D.quiet_call(o, ["run"])
            D.check_final(dst, o, ref, "called again at the end")
            every = max(1, spec["iters"] // spec["record"])
            miss = [i for i in range(1, ref.last + 1)
                    if (i % every == 0 or i in (1, ref.last))
                    and i not in W.checkpoints(dst)]
            if miss:
                raise Violation("snapshot-missing", f"iterations {miss}")
            W.count_fired(sim, stats)
        if story and D.nontrivial(ref):
            stats.seen("nontrivial", D.sig(
                spec["task"]["kind"], spec["opt"], story))

    def shrink(self, plan):
        cs = plan["calls"]
        yield from D.shrink_list(cs, "calls", plan)
        for i, c in enumerate(cs):
            for k in ("disk", "solver", "filter", "calls"):
                if c.get(k):
                    yield dict(plan, calls=cs[:i] + [
                        {a: b for a, b in c.items() if a != k}] + cs[i + 1:])
            if c["call"][0] == "steps" and c["call"][1] > 1:
                yield dict(plan, calls=cs[:i] + [dict(
                    c, call=["steps", c["call"][1] - 1])] + cs[i + 1:])
        if plan["env"]:
            yield dict(plan, env=None)
        for s in W.shrink_spec(plan["spec"]):
            yield dict(plan, spec=s)


def fired(sim):
    return {k: v for k, v in sim.fired().items()
            if not k.endswith(("fsync_seen", "disk_full"))}


def diff_settings(a, b):
    out = []
    for k in sorted(set(a[0]) | set(b[0])):
        if a[0].get(k) != b[0].get(k):
            out.append(f"environment {k}: {a[0].get(k)!r} -> {b[0].get(k)!r}")
    for x, y in zip(a[1:], b[1:]):
        if x != y:
            out.append(f"{x} -> {y}")
    return "; ".join(out)
