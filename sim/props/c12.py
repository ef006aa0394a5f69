"""C12: densities respect bounds, move limit and fixed regions in every
recorded state."""
import os

import numpy as np

from .. import drive as D
from .. import session
from .. import world as W
from ..core import Prop, Violation
from ..seams import Clock, Sim


class PROP(Prop):
    ID = "C12"
    RUNS = {"quick": 260, "thorough": 9000}
    BUDGET = {"quick": 240, "thorough": 820}
    RULE = ("one evaluation = a drawn problem and configuration, often an "
            "extreme one (loads over six decades, tight and wide bounds, "
            "small and large move limits, sharp projection, strong volume "
            "multipliers), run through a drawn sequence of calls with "
            "failures, retries, kills and restarts, every iteration "
            "recorded; every snapshot, every field file and the densities "
            "after every call are checked against the bounds, the previous "
            "iteration and the design domain, which is derived from the "
            "geometry alone; non-trivial and distinct = distinct (physics, "
            "optimizer, filter, what happened), densities not uniform")
    REAL, STUB = D.RUN_REAL, D.RUN_STUB
    ASSUME = ["loaded elements = elements owning a loaded facet; supported "
              "elements = elements owning a supported facet",
              "the move limit of an iteration is read from a separate "
              "scheduler built from the same configuration"]
    PROBES = ["restarts", "failures", "kills", "move_limit_reached",
              "min_reached", "max_reached", "extreme"]

    def gen(self, rng, i):
        spec = W.gen_spec(rng, iters=W.gen_iters(rng, 2, 8))
        spec["record"] = rng.choice((50, 50, spec["iters"]))
        if rng.random() < 0.65:
            x = {}
            spec["extra"] = x
            if rng.random() < 0.6:
                spec["task"]["load"] = 10.0 ** round(rng.uniform(-3, 3), 1)
            if rng.random() < 0.5:
                spec["vf"] = round(rng.uniform(0.08, 0.95), 2)
            if rng.random() < 0.5:
                spec["move"] = rng.choice((0.004, 0.02, 0.3, 0.6))
            elif rng.random() < 0.4:
                spec["move_steps"] = [rng.choice((0.4, 0.2)),
                                      rng.choice((0.1, 0.03)), 3]
            if rng.random() < 0.4:
                spec["rho_min"] = rng.choice((1e-3, 0.05, 0.3))
            if rng.random() < 0.4:
                x["rho_max"] = rng.choice((0.95, 0.8, 0.6))
            if rng.random() < 0.3:
                x["interpolation"] = "RAMP"
            if rng.random() < 0.3:
                x["beta_eta"] = rng.choice((0.3, 0.7))
            if rng.random() < 0.3:
                spec["beta_to"] = rng.choice((8.0, 32.0))
            if spec["opt"] == "oc":
                if rng.random() < 0.4:
                    x["scaling_rate_min"] = rng.choice((0.1, 0.5))
                    x["scaling_rate_max"] = rng.choice((1.8, 5.0))
            elif rng.random() < 0.6:
                spec["mu_p"] = rng.choice((0.1, 40.0, 500.0))
                x["lagrangian_clip"] = rng.choice((1.0, 0.3, 5.0))
        return {"spec": spec, "lives": session.gen_session(
            rng, spec["iters"], crash=0.5, fail=0.4)}

    def run(self, plan, stats):
        spec = plan["spec"]
        with Sim(clock=Clock((1e-3,))) as sim:
            dst = sim.path("r")
            dom = Domain(spec)
            limit = move_limits(W.make_cfg(spec, dst), spec)
            lo, hi = spec.get("rho_min", 1e-2), spec.get(
                "extra", {}).get("rho_max", 1.0)
            vf = spec.get("vf", 0.6)
            if "vol_frac" in spec.get("sched", {}):
                vf = spec["sched"]["vol_frac"][1]["init_value"]
            dom.check(spec, stats)
            seen = {}

            def start(o, n, how, base):
                if how != "fresh":
                    stats.add("restarts")
                got = np.asarray(o.tsk.design_elements)
                if not np.array_equal(np.sort(got), dom.design):
                    raise Violation(
                        "design-set", f"life {n}: designable elements "
                        f"{short(got)}, expected {short(dom.design)}")

            def look(what):
                ck = W.checkpoints(dst, strict=False)
                for k in sorted(ck):
                    x = ck[k]
                    if k in seen and np.array_equal(seen[k], x):
                        continue
                    seen[k] = x
                    self.state(k, x, lo, hi, f"{what}: iteration {k}",
                               dom, stats)
                    if k == 1:
                        prev = np.full(x.size, np.clip(vf, lo, hi))
                    elif k - 1 in ck:
                        prev = ck[k - 1]
                    else:
                        raise Violation("snapshot-missing",
                                        f"{what}: iteration {k - 1}")
                    step = np.max(np.abs(x - prev))
                    if not step <= limit[k] + 1e-9:
                        raise Violation(
                            "move-limit", f"{what}: iteration {k} moved by "
                            f"{step:.6g}, the limit is {limit[k]:.6g}")
                    if step > limit[k] - 1e-9:
                        stats.add("move_limit_reached")
                fs = W.fields(dst, strict=False)
                for k in sorted(fs):
                    r = fs[k]["rho_projected"]
                    if not np.all(np.isfinite(r)):
                        raise Violation("non-finite-density",
                                        f"{what}: field file {k}")
                    off = r[dom.rest]
                    if off.size and np.max(np.abs(off - 1.0)) > 1e-6:
                        raise Violation(
                            "fixed-region", f"{what}: field file {k}: an "
                            f"element outside the design domain has density "
                            f"{off[np.argmax(np.abs(off - 1.0))]:.6g}")
                    if spec["filter"] == "spacial" and (
                            r.min() < -1e-9 or r.max() > 1 + 1e-9):
                        raise Violation(
                            "physical-range", f"{what}: field file {k}: "
                            f"{r.min()} to {r.max()}")

            def call(o, before, c, err, done, what):
                if err is not None:
                    stats.add("failures")
                look(what)

            def death(n, what):
                stats.add("kills")
                look(what)

            s = session.Session(sim, spec, dst, plan["lives"], call, start,
                                death)
            s.go()
            ck = W.checkpoints(dst)
            last = max(ck)
            if last != spec["iters"] and not spec.get("conv"):
                raise Violation("iterations-missing", f"ended at {last}")
            kept = submesh_size(dst)
            want = dom.n - int(np.sum(ck[last] <= 0.5))
            if kept is not None and kept != want:
                raise Violation(
                    "fixed-region", f"cubic_top.vtu has {kept} elements, "
                    f"{want} have density above one half or are outside "
                    "the design domain")
            W.count_fired(sim, stats)
            if np.std(ck[last]) > 1e-3:
                if spec.get("extra"):
                    stats.add("extreme")
                stats.seen("nontrivial", D.sig(
                    spec["task"]["kind"], spec["opt"], spec["filter"],
                    bool(spec.get("dd")), s.story))

    def state(self, k, x, lo, hi, what, dom, stats):
        if not np.all(np.isfinite(x)):
            raise Violation("non-finite-density", what)
        if x.size != dom.design.size:
            raise Violation("design-set", f"{what}: {x.size} densities for "
                            f"{dom.design.size} elements")
        if x.min() < lo - 1e-9 or x.max() > hi + 1e-9:
            raise Violation(
                "density-bounds", f"{what}: {x.min():.6g} to {x.max():.6g}, "
                f"bounds {lo} and {hi}")
        if x.min() <= lo + 1e-9:
            stats.add("min_reached")
        if x.max() >= hi - 1e-9:
            stats.add("max_reached")

    def shrink(self, plan):
        yield from session.shrink(plan)
        sp = plan["spec"]
        for k in sp.get("extra", {}):
            yield dict(plan, spec=dict(sp, extra={
                a: b for a, b in sp["extra"].items() if a != k}))
        for s in W.shrink_spec(sp):
            yield dict(plan, spec=s)


class Domain:
    """The sets of elements, from the geometry alone."""

    def __init__(self, spec):
        t = W.must("problem", W.make_task, spec["task"])
        m = t.basis.mesh
        sp = spec["task"]
        self.n = m.nelements
        X, Y = m.p[0].max(), m.p[1].max()
        kind = sp["kind"]
        heat = kind.startswith("heat")
        owns = {}
        for name, x, ya, yb in (("left", 0.0, 0.0, Y), ("low", X, 0.0, 1.0),
                                ("high", X, Y - 1.0, Y)):
            owns[name] = owners(m, x, ya, yb)
        touch = {k: touching(m, v[1]) for k, v in owns.items()}
        loaded = [] if heat else ["low"] + (["high"] if kind == "el2"
                                            else [])
        support = (["low"] + (["high"] if kind == "heat2" else [])) \
            if heat else ["left"]
        out, soft = set(), set()
        for k in loaded:
            out |= set(owns[k][0])
            soft |= set(touch[k])
        if not spec.get("dd"):
            for k in support:
                out |= set(owns[k][0])
                soft |= set(touch[k])
        if heat and not sp.get("design_robin", True):
            out |= set(owns["left"][0])
            soft |= set(touch["left"])
        c = m.p[:, m.t].mean(axis=1)
        design = np.ones(self.n, bool)
        if sp.get("keep"):
            design &= ~((np.abs(c[0] - X / 2) < 0.6) & (c[1] > Y - 1.01))
        self.must_out = out
        self.may_out = soft | out
        self.asked = set(np.flatnonzero(design))
        if not spec.get("dd"):
            t.exlude_dirichlet_from_design()
        self.design = np.sort(np.asarray(t.design_elements))
        self.rest = np.setdiff1d(np.arange(self.n), self.design)

    def check(self, spec, stats):
        d = set(self.design.tolist())
        if d & self.must_out:
            raise Violation(
                "design-set", "loaded or supported elements are designable: "
                f"{short(sorted(d & self.must_out))}")
        if d - self.asked:
            raise Violation("design-set", "elements outside the requested "
                            f"domain: {short(sorted(d - self.asked))}")
        lost = self.asked - self.may_out - d
        if lost:
            raise Violation(
                "design-set", "designable elements that touch no load or "
                f"support are missing: {short(sorted(lost))}")


def owners(m, x, ya, yb):
    """Elements owning a boundary facet in the plane x between ya and yb."""
    f = m.p[:, m.facets]
    on = np.all(np.abs(f[0] - x) < 1e-9, axis=0) \
        & np.all(f[1] > ya - 1e-9, axis=0) \
        & np.all(f[1] < yb + 1e-9, axis=0)
    el = m.f2t[:, on]
    nodes = np.unique(m.facets[:, on])
    return np.unique(el[el >= 0]), nodes


def touching(m, nodes):
    return np.flatnonzero(np.any(np.isin(m.t, nodes), axis=0))


def move_limits(cfg, spec):
    from sktopt.tools import Schedulers
    s = Schedulers(cfg.dst_path)
    s.add_object_from_config(cfg.move_limit, "move_limit")
    s.set_iters_max(cfg.max_iters)
    out = {}
    for k in range(1, cfg.max_iters + 1):
        out[k] = float(s.values_as_list(k, ["move_limit"])[0])
        if spec.get("move_steps"):
            a, b, _ = spec["move_steps"]
            ok = min(a, b) - 1e-12 <= out[k] <= max(a, b) + 1e-12
        elif spec.get("move"):
            ok = abs(out[k] - spec["move"]) < 1e-12
        else:
            ok = 0 < out[k] <= 0.3 + 1e-12
        if not ok:
            raise Violation("move-limit",
                            f"schedule gives {out[k]} at iteration {k}")
    return out


def submesh_size(dst):
    import meshio
    p = os.path.join(dst, "cubic_top.vtu")
    if not os.path.exists(p):
        return None
    with D._silence():
        z = meshio.read(p)
    return sum(len(b.data) for b in z.cells)


def short(xs):
    xs = [int(x) for x in xs]
    return str(xs if len(xs) < 12 else xs[:12] + ["..."])
