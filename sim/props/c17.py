"""C17: the volume of every iteration is accounted for and driven to its
target."""
import numpy as np

from .. import drive as D
from .. import session
from .. import world as W
from ..core import Prop, Violation
from ..model import Model
from ..seams import Clock, Sim


class PROP(Prop):
    ID = "C17"
    RUNS = {"quick": 260, "thorough": 9000}
    BUDGET = {"quick": 240, "thorough": 820}
    RULE = ("one evaluation = a drawn problem and configuration lived through "
            "as a drawn session of calls with failures, retries, kills and "
            "restarts, every iteration recorded; for each iteration the "
            "volume is recomputed from the snapshots with an own projection, "
            "own element volumes and own schedule formulas, and compared "
            "with the recorded volume error; for optimality criteria the "
            "volume is on target or the densities are at the limits of the "
            "iteration; non-trivial and distinct = distinct (problem, "
            "optimizer, filter, target, session outcome) of runs whose "
            "densities vary")
    REAL, STUB = D.RUN_REAL, D.RUN_STUB
    ASSUME = ["the bisection stops at the first multiplier that meets the "
              "target within 1e-4, or when its bracket is 1e-5 wide"]
    PROBES = ["on_target", "at_lower_limits", "bracket_end", "restarts",
              "failures", "kills", "logmoc_iterations", "moving_target"]

    def gen(self, rng, i):
        spec = W.gen_spec(rng, iters=W.gen_iters(rng, 2, 8), opts=(
            "oc", "oc", "oc", "logmoc"))
        spec["record"] = 50
        r = rng.random()
        a, b = round(rng.uniform(0.2, 0.95), 2), round(rng.uniform(
            0.2, 0.95), 2)
        if r < 0.4:
            spec["vf"] = a
        elif r < 0.9:
            kind = rng.choice(("step", "step_accelerating",
                               "step_decelerating"))
            args = dict(name="vol_frac", init_value=a, target_value=b,
                        num_steps=rng.randint(2, 5))
            if kind != "step":
                args["curvature"] = rng.choice((1.5, 3.0))
            spec["sched"] = {"vol_frac": [kind, args]}
        x = dict(spec.get("extra", {}))
        if spec["opt"] == "oc" and rng.random() < 0.4:
            x["scaling_rate_min"] = rng.choice((0.1, 0.5, 0.9))
            x["scaling_rate_max"] = rng.choice((1.1, 1.8, 5.0))
        if rng.random() < 0.3:
            spec["task"]["load"] = 10.0 ** rng.randint(-3, 3)
        if x:
            spec["extra"] = x
        if rng.random() < 0.15:
            spec["vf"] = 0.6
            spec.pop("sched", None)
            spec = D.gen_conv(rng, spec)
            spec["record"] = 50
        return {"spec": spec, "lives": session.gen_session(
            rng, spec["iters"], crash=0.35, fail=0.35, lib=0.1)}

    def run(self, plan, stats):
        spec = plan["spec"]
        lib = any(c.get("calls") for li in plan["lives"]
                  for c in li["calls"])
        with Sim(clock=Clock((1e-3,)), calls=lib) as sim:
            dst = sim.path("r")

            def start(o, n, how, base):
                if how != "fresh":
                    stats.add("restarts")

            def call(o, before, c, err, done, what):
                if err is not None:
                    stats.add("failures")

            s = session.Session(sim, spec, dst, plan["lives"], call, start,
                                lambda n, what: stats.add("kills"))
            o = s.go()
            ck = W.checkpoints(dst)
            m = Model(spec, sim.path("m")).domain(o.tsk.design_elements)
            hist = W.hist_arrays(o.recorder)
            last = max(ck)
            if "vol_error" not in hist or len(hist["vol_error"]) != last:
                raise Violation("volume-not-recorded",
                                f"{len(hist.get('vol_error', ()))} entries "
                                f"after {last} iterations")
            prev = m.start()
            for k in range(1, last + 1):
                if k not in ck:
                    raise Violation("snapshot-missing", f"iteration {k}")
                self.step(m, k, prev, ck[k], hist, stats)
                prev = ck[k]
            W.count_fired(sim, stats)
        if "vol_frac" in spec.get("sched", {}):
            stats.add("moving_target")
        if np.std(prev) > 1e-3:
            stats.seen("nontrivial", D.sig(
                spec["task"]["kind"], spec["opt"], spec["filter"],
                spec.get("vf"), spec.get("sched"), s.story))

    def step(self, m, k, prev, x, hist, stats):
        spec, cfg = m.spec, m.cfg
        total = spec["iters"]
        if m.on_edge(k, total):
            return
        v = m.values(k, total)
        oc = spec["opt"] == "oc"
        phys = m.physical(x if oc else prev, v["filter_radius"], v["beta"])
        vol = m.volume(phys)
        err = float(np.ravel(hist["vol_error"][k - 1])[0])
        true = vol - v["vol_frac"]
        if not abs(err - true) <= 1e-6 + 1e-5 * abs(true):
            raise Violation(
                "volume-error-recorded", f"iteration {k}: recorded "
                f"{err:.6g}; the volume is {vol:.6g}, the target "
                f"{v['vol_frac']:.6g}")
        if not oc:
            stats.add("logmoc_iterations")
            return
        lam = float(np.ravel(hist["lmid"][k - 1])[0]) if "lmid" in hist \
            else None
        lo, hi = m.lo, m.hi
        clip_lo = np.maximum(prev - v["move_limit"], lo)
        clip_hi = np.minimum(prev + v["move_limit"], hi)
        low = np.clip(prev * cfg.scaling_rate_min, clip_lo, clip_hi)
        top = np.clip(prev * cfg.scaling_rate_max, clip_lo, clip_hi)
        if lam is None:
            tol = 2e-2
        else:                   # the multiplier is known to 1e-5 only
            tol = 2e-4 + 2e-5 * max(1.0, v["beta"]) * min(
                1.0, v["eta"] or 1.0) / max(lam, 1e-9)
            if true < 0 and lam < cfg.lambda_lower + 1e-4:
                stats.add("bracket_end")
                return
        if abs(true) <= tol:
            stats.add("on_target")
            return
        stats.add("at_lower_limits" if true > 0 else "at_upper_limits")
        out = x - low if true > 0 else top - x
        if np.max(out) > 1e-6:
            raise Violation(
                "off-target", f"iteration {k}: volume {vol:.6g}, target "
                f"{v['vol_frac']:.6g}, but {int(np.sum(out > 1e-6))} "
                "densities could still be "
                f"{'lowered' if true > 0 else 'raised'}")

    def shrink(self, plan):
        yield from session.shrink(plan)
        for s in W.shrink_spec(plan["spec"]):
            yield dict(plan, spec=s)
