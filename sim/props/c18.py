"""C18: every iteration runs under the continuation values its schedules
prescribe for it."""
import os
import shutil

import numpy as np

from .. import drive as D
from .. import session
from .. import world as W
from ..core import Prop, Violation
from ..model import Model
from ..seams import Clock, Sim

MORE = {"eta": (0.2, 0.8), "percentile": (60.0, 100.0)}
SPAN = {"p": (1.0, 4.0), "beta": (0.5, 6.0), "vol_frac": (0.3, 0.9),
        "move_limit": (0.01, 0.3), "filter_radius": (0.8, 2.0)}
PLAIN = ("constant", "step", "step_accelerating", "step_decelerating")


def gen_schedule(rng, name, iters, span, more=()):
    kind = rng.choice(PLAIN + PLAIN[1:] + tuple(more))
    a, b = (round(rng.uniform(*span), 2) for _ in "ab")
    if kind == "constant":
        return [kind, {"name": name, "target_value": b}]
    args = {"name": name, "init_value": a, "target_value": b,
            "num_steps": rng.choice((1, 2, 3, 3, 4, 5, iters, iters + 2))}
    if kind == "sawtooth_decay":
        args["iters_max"] = iters
        args["num_steps"] = rng.randint(1, 3)
    elif kind != "step":
        args["curvature"] = rng.choice((1.0, 2.0, 3.0, 0.5))
        if rng.random() < 0.3:
            args["iters_max"] = rng.choice((iters, 100))
    return [kind, args]


class PROP(Prop):
    ID = "C18"
    RUNS = {"quick": 240, "thorough": 8000}
    BUDGET = {"quick": 240, "thorough": 820}
    RULE = ("one evaluation = a drawn set of continuation schedules "
            "(constant, step, accelerating, decelerating, sawtooth, scaled "
            "loads; also more steps than iterations) on a drawn problem, "
            "lived through as a session of calls with failures, kills and "
            "restarts, some of which extend or reduce the iteration budget; "
            "for every iteration the physical densities, objective, load "
            "factor, volume target and move limit in force are derived from "
            "its files and compared with the documented formulas, and two "
            "iterations are carried out again by optimizers configured with "
            "the constants the formulas give (also step exponent and "
            "percentile); "
            "non-trivial and distinct = distinct (schedules, problem, "
            "session outcome) of runs whose densities vary")
    REAL, STUB = D.RUN_REAL, D.RUN_STUB
    ASSUME = ["where rounding decides in which of two steps an iteration "
              "lies, either is accepted",
              "restarts continue the latest checkpoint here"]
    PROBES = ["iterations", "budget_changed", "restarts", "kills",
              "failures", "load_steps", "sawtooth",
              "twins"]

    def gen(self, rng, i):
        n = W.gen_iters(rng, 3, 10)
        spec = W.gen_spec(rng, iters=n, record=10 ** 6)
        for k in ("rsteps", "move_steps", "psteps", "nscale", "move", "vf",
                  "solver", "sched"):
            spec.pop(k, None)
        span = dict(SPAN)
        if spec["filter"] == "helmholtz":
            span["filter_radius"] = (0.2, 0.5)
        if spec["opt"] == "logmoc":
            span["move_limit"] = (0.01, 0.08)
        sched = {}
        for name in sorted(span):
            if rng.random() < 0.7:
                sched[name] = gen_schedule(
                    rng, name, n, span[name],
                    ("sawtooth_decay",) if name == "move_limit" else ())
        for name in sorted(MORE):
            if rng.random() < 0.45:
                sched[name] = gen_schedule(rng, name, n, MORE[name])
        if "move_limit" not in sched and spec["opt"] == "logmoc":
            spec["move"] = 0.05
        if not spec["task"]["kind"].startswith("heat") and \
                rng.random() < 0.6:
            f = rng.choice(("step_to_one", "step_accelerating_to_one",
                            "step_decelerating_to_one", "constant_one"))
            a = {"name": "neumann_scale"}
            if f != "constant_one":
                a["num_steps"] = rng.randint(2, 4)
            if "ing" in f:
                a["curvature"] = rng.choice((1.0, 2.0))
            sched["neumann_scale"] = [f, a]
        spec["sched"] = sched
        if rng.random() < 0.25:
            spec["longhand"] = 1
        lives = session.gen_session(rng, n, crash=0.4, fail=0.3)
        for li in lives:
            li["start"] = "restart"
            if rng.random() < 0.3:
                li["over"] = {"max_iters": rng.randint(2, n + 3)}
        return {"spec": spec, "lives": lives,
                "twins": [rng.randrange(1000) / 1000 for _ in "ab"]}

    def run(self, plan, stats):
        spec = plan["spec"]
        with Sim(clock=Clock((1e-3,))) as sim:
            dst = sim.path("r")
            m = Model(spec, sim.path("m"))
            st = {"snap": {}, "fields": {}, "budget": {}, "seen": set()}

            def start(o, n, how, base):
                if how != "fresh":
                    stats.add("restarts")
                m.domain(o.tsk.design_elements)
                st["now"] = int(o.cfg.max_iters)
                if n < len(plan["lives"]):
                    over = plan["lives"][n].get("over")
                    if over:
                        stats.add("budget_changed")

            def look(upto, what, hist=None):
                """Judge the iterations whose files are new or changed."""
                ck = W.checkpoints(dst)
                fs = W.fields(dst, strict=False)
                for k in sorted(ck):
                    if k not in fs:
                        raise Violation("field-file-missing",
                                        f"{what}: iteration {k}")
                    prev = ck.get(k - 1) if k > 1 else m.start()
                    if prev is None:
                        raise Violation("snapshot-missing",
                                        f"{what}: iteration {k - 1}")
                    if k not in st["budget"]:
                        st["budget"][k] = st["now"]
                    elif not np.array_equal(st["snap"][k], ck[k]):
                        st["budget"][k] = st["now"]
                        st["seen"].discard(k)
                    st["snap"][k] = ck[k]
                    h = None
                    if hist is not None and k <= upto and len(
                            hist["vol_error"]) >= k:
                        h = {q: v[k - 1] for q, v in hist.items()}
                    if h is None and k in st["seen"]:
                        continue
                    self.judge(m, k, st["budget"][k], prev, ck[k], fs[k], h,
                               what, stats, (k, "h") in st["seen"])
                    st["seen"].add(k)
                    if h is not None:
                        st["seen"].add((k, "h"))

            def call(o, before, c, err, done, what):
                if err is not None:
                    stats.add("failures")
                if done > 0:
                    look(done, what, W.hist_arrays(o.recorder))

            def death(n, what):
                stats.add("kills")
                look(0, what)

            s = session.Session(sim, spec, dst, plan["lives"], call, start,
                                death)
            s.go()
            last = max(st["snap"], default=0)
            if last < spec["iters"]:
                raise Violation("iterations-missing", f"ended at {last}")
            for k in sorted({min(2 + int(t * (last - 1)), last)
                             for t in plan.get("twins", ()) if last > 1}):
                self.twin(sim, m, spec, dst, k, st["budget"][k],
                          st["snap"][k], stats)
            W.count_fired(sim, stats)
        x = st["snap"][last]
        for name, (f, _) in spec["sched"].items():
            if f == "sawtooth_decay":
                stats.add("sawtooth")
            if f.endswith("_to_one"):
                stats.add("load_steps")
        if np.std(x) > 1e-3:
            stats.seen("nontrivial", D.sig(
                sorted((k, v) for k, v in spec["sched"].items()),
                spec["task"]["kind"], spec["opt"], s.story))

    def twin(self, sim, m, spec, dst, k, total, x, stats):
        """The iteration once more, from the checkpoint before it, by an
        optimizer configured with the constants the schedules give for it."""
        worst = None
        for exact in (False, True):
            v = m.values(k, total, exact)
            if exact and v == m.values(k, total):
                break
            to = sim.path(f"t{k}{exact:d}")
            os.makedirs(f"{to}/data")
            os.makedirs(f"{to}/mesh_rho")
            for q in range(1, k):
                name = f"data/{q:06d}-rho.npz"
                if os.path.exists(f"{dst}/{name}"):
                    shutil.copyfile(f"{dst}/{name}", f"{to}/{name}")
            sched = {a: ["constant", {"name": a, "target_value": v[a]}]
                     for a in spec["sched"] if a != "neumann_scale"}
            if "neumann_scale" in spec["sched"]:
                sched["neumann_scale"] = spec["sched"]["neumann_scale"]
            o = W.must("twin", W.make_opt,
                       dict(spec, sched=sched, conv=False), to,
                       restart=True, restart_from=k - 1, max_iters=total)
            D.quiet_call(o, ["steps", 1])
            got = W.checkpoints(to).get(k, ())
            if W.same(got, x, rtol=1e-7, atol=1e-9):
                stats.add("twins")
                return
            worst = worst or W.diff(got, x)
        raise Violation(
            "update-value", f"iteration {k} of {total} did not come out as "
            f"with the constants its schedules give for it ("
            + ", ".join(f"{a} {v[a]}" for a in sorted(spec["sched"]))
            + f"): {worst}")

    def judge(self, m, k, total, *a):
        try:
            self.judge_as(m, k, total, m.values(k, total), *a)
        except Violation:
            if not m.on_edge(k, total):
                raise
            self.judge_as(m, k, total, m.values(k, total, True), *a)

    def judge_as(self, m, k, total, v, prev, x, f, h, what, stats, again):
        spec = m.spec
        at = f"{what}: iteration {k} of {total}"
        phys = m.physical(prev, v["filter_radius"], v["beta"])
        got = f.get("rho_projected", ())
        if not W.same(got, phys, rtol=1e-6, atol=1e-8):
            raise Violation(
                "filter-or-projection-value", f"{at}: physical densities "
                f"are not those of filter radius {v['filter_radius']:.6g} "
                f"and beta {v['beta']:.6g}: {W.diff(got, phys)}")
        step = float(np.max(np.abs(x - prev)))
        if not step <= v["move_limit"] + 1e-9:
            raise Violation("move-limit-value",
                            f"{at}: moved by {step:.6g}, the schedule gives "
                            f"{v['move_limit']:.6g}")
        if again:
            return
        stats.add("iterations")
        J, e = m.response(phys, v["p"], v["neumann_scale"])
        top = float(np.max(np.abs(e)))
        sound = spec["task"]["kind"] != "heat_x" or np.ptp(phys) > 1e-3
        if sound and not W.same(f.get("energy", ()), e, rtol=0,
                                atol=1e-5 * top):
            raise Violation(
                "penalization-or-load-value", f"{at}: energies are not "
                f"those of p {v['p']:.6g} and load factor "
                f"{v['neumann_scale']}: {W.diff(f.get('energy', ()), e)} of "
                f"{top:.3e}")
        if h is None:
            return
        if "neumann_scale" in h and not np.allclose(
                h["neumann_scale"], v["neumann_scale"], rtol=1e-9):
            raise Violation("load-factor-recorded",
                            f"{at}: {h['neumann_scale']}, the schedule gives "
                            f"{v['neumann_scale']}")
        if "vol_error" in h:
            now = x if spec["opt"] == "oc" else prev
            vol = m.volume(m.physical(now, v["filter_radius"], v["beta"]))
            want = vol - float(np.ravel(h["vol_error"])[0])
            if abs(want - v["vol_frac"]) > 1e-6:
                raise Violation("volume-target-value",
                                f"{at}: the target used is {want:.6g}, the "
                                f"schedule gives {v['vol_frac']:.6g}")

    def shrink(self, plan):
        yield from session.shrink(plan)
        sp = plan["spec"]
        for k in sp.get("sched", {}):
            yield dict(plan, spec=dict(sp, sched={
                a: b for a, b in sp["sched"].items() if a != k}))
        for s in W.shrink_spec(sp):
            if "sched" in s:
                yield dict(plan, spec=s)
