"""C13: a run can be reconstructed from the configuration in its directory."""
import copy
import dataclasses
import os

from .. import drive as D
from .. import session
from .. import world as W
from ..core import Prop, Violation
from ..seams import Clock, Sim
from ..vfs import SimCrash, SimInterrupt

# values at the edge of what an option takes, most of them not the default
EDGE = {
    "beta_eta": (0.0, 1.0, 1), "rho_min": (0.0, 1e-9), "rho_max": (0.5, 1),
    "E_min_coeff": (0.0, 1.0), "record_times": (1, 10 ** 6),
    "max_iters": (1, 10 ** 9), "export_img": (True,),
    "export_img_opaque": (True,), "tol_rho_change": (0.0, -1.0),
    "tol_kkt_residual": (0.0, 0), "check_convergence": (True,),
    "design_dirichlet": (True,), "sensitivity_filter": (True,),
}
EDGE_OC = {
    "lambda_lower": (0.0, -1.0), "lambda_upper": (1e300, 1),
    "scaling_rate_min": (0.0, 0), "scaling_rate_max": (0.0, 1e9),
    "sensitivity_scale_floor": (0.0,), "interpolation": ("RAMP",),
}
EDGE_LOG = {
    "mu_p": (0.0, 0), "augmented_lagrangian_mu": (0.0, -2.0),
    "lambda_v": (0.0, 0), "lambda_decay": (0.0, 1.0), "lambda_lower": (0.0,),
    "lambda_upper": (0.0,), "lagrangian_clip": (0.0,),
    "lagrangian_percentile": (0.0, 100), "lagrangian_scale_floor": (0.0,),
    "normalize_volume_chain": (True,), "volume_chain_percentile": (0.0,),
    "volume_chain_scale_floor": (0.0,), "volume_chain_gain": (0.0,),
    "volume_chain_gain_under": (0.0, 0), "dual_update": ("augmented",),
    "filter_lagrangian": (True,), "center_lagrangian": (True,),
    "center_objective": (True,),
}

FAULTS = D.CRASHES + ("eio", "enospc", "short", "interrupt")
RESTART = ("restart", "restart_from")


def gen_sched(rng, name, lo, hi, iters):
    """A schedule from lo to hi, in any of the kinds on offer."""
    kind = rng.choice(("constant", "step", "step_accelerating",
                       "step_decelerating", "sawtooth_decay"))
    a, b = round(rng.uniform(lo, hi), 3), round(rng.uniform(lo, hi), 3)
    args = {}
    r = rng.random()
    if r < 0.4:
        args["name"] = name
    elif r < 0.6:
        args["name"] = rng.choice(("mine", "p", "λ"))
    if kind == "constant":
        args["target_value"] = b
        return [kind, args]
    args.update(init_value=a, target_value=b,
                num_steps=rng.randint(1, 5))
    if rng.random() < 0.5 or kind == "sawtooth_decay":
        args["iters_max"] = rng.choice((iters, 4, 100))
    if kind in ("step_accelerating", "step_decelerating"):
        args["curvature"] = rng.choice((1.0, 2.0, 3.5))
    return [kind, args]


def gen_to_one(rng, iters):
    kind = rng.choice(("constant_one", "step_to_one",
                       "step_accelerating_to_one",
                       "step_decelerating_to_one"))
    args = {"name": rng.choice(("neumann_scale", None))}
    if kind != "constant_one":
        args["num_steps"] = rng.randint(1, 4)
    if "ing" in kind:
        args["curvature"] = rng.choice((1.0, 2.0, 3.0))
    return [kind, args]


class PROP(Prop):
    ID = "C13"
    RUNS = {"quick": 320, "thorough": 11000}
    BUDGET = {"quick": 240, "thorough": 820}
    RULE = ("one evaluation = a drawn configuration (every kind of schedule "
            "for every scheduled parameter, solver and PETSc options, "
            "optimizer options) and a drawn sequence of process lives on one "
            "directory, with kills, power losses, failed and short writes in "
            "set-up and in calls; after every set-up, call and kill the "
            "stored configuration is loaded and compared with the one the "
            "run was started with; most lives restart from the loaded "
            "configuration and the last one finishes and is compared with "
            "the undisturbed run of the original configuration; non-trivial "
            "and distinct = distinct (optimizer, kinds of schedules, what "
            "happened)")
    REAL = D.RUN_REAL
    STUB = D.RUN_STUB + ["petsc4py (not installed here): a stand-in"]
    ASSUME = ["crash model as in C03",
              "configurations are built through the constructor; the "
              "attributes are not reassigned before set-up"]
    PROBES = ["loaded_restarts", "changed_restarts", "kills_in_setup", "failed_setup",
              "kills", "failures", "finished"]

    def gen(self, rng, i):
        run = rng.random() < 0.45
        kinds = None if run else ("el1", "heat2")
        spec = W.gen_spec(rng, kinds=kinds)
        if not run:
            spec["task"]["n"] = [4, 3, 1]
            spec["task"]["kind"] = spec["task"]["kind"].replace("tet", "el1")
        it = spec["iters"]
        r = spec["radius"]
        pool = {"p": (1.0, 4.0), "beta": (1.0, 6.0),
                "vol_frac": (0.45, 0.9), "move_limit": (0.02, 0.3),
                "percentile": (50.0, 100.0),
                "filter_radius": (r, 1.5 * r), "eta": (0.2, 0.8)}
        sched = {}
        for name in sorted(pool):
            if rng.random() < 0.5:
                sched[name] = gen_sched(rng, name, *pool[name], it)
        if spec["task"]["kind"].startswith(("el", "tet")) and \
                rng.random() < 0.5:
            sched["neumann_scale"] = gen_to_one(rng, it)
        if spec["opt"] == "logmoc" and "eta" in sched and \
                rng.random() < 0.5:
            del sched["eta"]
        spec["sched"] = sched
        if rng.random() < 0.25:
            spec["longhand"] = 1
        ex = {}
        if rng.random() < 0.5:
            ex["beta_eta"] = rng.choice((0.35, 0.5, 1 / 3))
        if rng.random() < 0.3:
            ex["E_min_coeff"] = rng.choice((1e-2, 1e-4))
        if spec["opt"] == "oc":
            if rng.random() < 0.4:
                ex["scaling_rate_min"] = 0.55
            if rng.random() < 0.3:
                ex["lambda_upper"] = 1e5
        else:
            if rng.random() < 0.5:
                ex["volume_chain_gain_under"] = rng.choice((None, 0.5, 0.0))
            if rng.random() < 0.5:
                ex["lambda_decay"] = rng.choice((0.7, 0.0))
            if rng.random() < 0.4:
                ex["augmented_lagrangian_mu"] = 1.5
            if rng.random() < 0.4:
                ex["lambda_v"] = rng.choice((-0.25, 0.0))
        if rng.random() < 0.2:
            ex["tol_rho_change"] = rng.choice((float("inf"), 1e-300))
        if not run:
            edge = dict(EDGE, **(EDGE_OC if spec["opt"] == "oc"
                                 else EDGE_LOG))
            for k in rng.sample(sorted(edge), rng.choice((0, 2, 5))):
                ex[k] = rng.choice(edge[k])
        spec["extra"] = ex
        if not run:
            s = rng.choice(("spsolve", "petsc", "petsc_spdirect",
                            "petsc_spdirect", "cg_pyamg"))
            if s == "cg_pyamg" and spec["task"]["kind"] == "heat2":
                s = "spsolve"
            spec["solver"] = s
            if rng.random() < 0.7:
                spec["petsc"] = {}
                for k, vs in (("ksp_type", ("cg", "gmres", "preonly")),
                              ("pc_type", ("gamg", "ilu", "lu")),
                              ("pc_factor_mat_solver_type",
                               (None, "mumps")),
                              ("options_prefix", (None, "my_")),
                              ("use_set_from_options", (True, False))):
                    if rng.random() < 0.5:
                        spec["petsc"][k] = rng.choice(vs)
                if s == "petsc_spdirect":
                    for k, v in (("ksp_type", "preonly"), ("pc_type", "lu")):
                        if k in spec["petsc"]:
                            spec["petsc"][k] = v
                spec["petsc_as"] = rng.choice(("dict", "object"))
        lives = session.gen_session(rng, it, crash=0.7, fail=0.3)
        if rng.random() < 0.4:
            lives.append({"calls": [], "start": "restart"})
        for n, li in enumerate(lives):
            if not run:
                li["calls"] = []
            li["cfg"] = rng.choice(("loaded", "loaded", "same"))
            if not run and rng.random() < 0.35:
                # the user goes on with another configuration
                li["cfg"] = "same"
                edge = {k: v for k, v in EDGE.items()
                        if k not in ("design_dirichlet",)}
                li["change"] = {k: rng.choice(edge[k]) for k in
                                rng.sample(sorted(edge), rng.choice((1, 2)))}
            if rng.random() < 0.4 or not run:
                f = D.gen_disk_fault(rng, FAULTS, 0.0)
                if rng.random() < 0.8:
                    f.pop("pos", None)
                    f["sub"] = rng.choice(("cfg.json", "cfg.json", "data",
                                           "mesh_rho", ".tmp"))
                    f["nth"] = rng.randint(0, 4)
                li["setup"] = [f]
                if rng.random() < 0.35:
                    li["power"] = [rng.choice((0.0, 0.0, 0.3, 0.9, 1.0))
                                   for _ in range(3)]
        return {"spec": spec, "run": run, "lives": lives,
                "final_cfg": rng.choice(("loaded", "loaded", "same"))}

    def make(self, spec, dst, **over):
        kw = dict(over)
        if spec.get("petsc") is not None:
            from sktopt.fea.solver_petsc import PETScOptions
            kw["petsc_options"] = dict(spec["petsc"]) \
                if spec["petsc_as"] == "dict" else PETScOptions(
                    **spec["petsc"])
        return W.make_cfg(spec, dst, **kw)

    def run(self, plan, stats):
        spec = plan["spec"]
        ref = W.ref(spec) if plan["run"] else None
        story = []
        with Sim(clock=Clock((1e-3,)), petsc=True) as sim:
            dst = sim.path("r")
            # what the stored configuration may be: the one of the last
            # set-up that returned, or of one that failed or died since
            asked = [plain(self.make(spec, dst))]
            cls = type(self.make(spec, dst))
            ready = False       # some set-up returned
            b = session.budget(spec)
            target = os.path.join(dst, "cfg.json")

            def watch(kind, rel):
                # a kill right here would leave what the disk holds now
                if ready and not os.path.exists(target):
                    raise Violation(
                        "config-lost", "the directory of a run has no "
                        f"cfg.json right after {kind} {rel}")

            sim.disk.observers.append(watch)

            def stored(what):
                if not ready:
                    return None
                try:
                    with D._silence():
                        c = cls.import_from(dst)
                except Exception as e:
                    raise Violation("config-unloadable",
                                    f"{what}: {type(e).__name__}: {e}")
                if type(c) is not cls:
                    raise Violation("config-differs", f"{what}: loaded a "
                                    f"{type(c).__name__}")
                got = plain(c)
                bads = [[(k, a.get(k)) for k in sorted(set(a) | set(got))
                         if k not in RESTART and not eq(
                             a.get(k, "absent"), got.get(k, "absent"))]
                        for a in asked]
                if all(bads):
                    raise Violation(
                        "config-differs", f"{what}: " + "; ".join(
                            f"{k}: started with {v!r}, loaded "
                            f"{got.get(k)!r}" for k, v in bads[-1]))
                return c

            todo = [dict(li) for li in plan["lives"]]
            last = {"calls": [{"call": ["run"]}] if plan["run"] else [],
                    "start": "restart", "cfg": plan["final_cfg"]}
            for n, li in enumerate(todo + [last]):
                what = f"life {n}"
                have = sorted(W.checkpoints(dst, strict=False))
                over = {}
                if ready and (have or not plan["run"]):
                    over["restart"] = True
                    if have and li["start"] != "restart":
                        over["restart_from"] = have[min(int(
                            li["start"] * len(have)), len(have) - 1)]
                if ready and li["cfg"] == "loaded":
                    cfg = stored(what)
                    cfg.restart = bool(over.get("restart", False))
                    cfg.restart_from = over.get("restart_from", -1)
                    if over:
                        stats.add("loaded_restarts")
                        story.append("loaded")
                else:
                    cfg = self.make(dict(spec, extra=dict(
                        spec["extra"], **li.get("change", {}))), dst, **over)
                    if li.get("change"):
                        stats.add("changed_restarts")
                        story.append("changed")
                mine = plain(cfg)
                o, how = self.attempt(
                    sim, li.get("setup"), li.get("power"), b["disk"] / 4,
                    lambda: W.make_opt(spec, dst, cfg=cfg), stats,
                    what + " set-up", {})
                if how != "ok":
                    story.append("setup " + how)
                    stats.add("kills_in_setup" if how == "kill"
                              else "failed_setup")
                    asked.append(mine)
                    stored(what + f", after a {how} in set-up")
                    continue
                asked = [mine]
                ready = True
                stored(what + " after set-up")
                for c in li["calls"]:
                    w = f"{what} {c['call']}"
                    faults = {k: D.resolve(c.get(k), b[k])
                              for k in ("solver", "filter")}
                    _, how = self.attempt(
                        sim, c.get("disk"), li.get("power"), b["disk"],
                        lambda: D.make_call(o, c["call"]), stats, w, faults)
                    stored(f"{w} ({how})")
                    story.append(how)
                    if how != "ok":
                        stats.add("kills" if how == "kill" else "failures")
                    if how == "kill":
                        break
                if how != "kill":
                    sim.reboot()
            if plan["run"]:
                D.check_rho(W.checkpoints(dst), ref, "finished")
                if ref.last not in W.checkpoints(dst):
                    raise Violation("iterations-missing", "finished")
                stats.add("finished")
            stored("at the end")
            W.count_fired(sim, stats)
        stats.seen("nontrivial", D.sig(
            spec["opt"], sorted((k, v[0]) for k, v in
                                spec["sched"].items()), story))

    def attempt(self, sim, faults, power, nops, fn, stats, what, others):
        was = session.fired(sim)
        sim.disk.arm(D.resolve(faults, nops), power)
        sim.solver.arm(others.get("solver", ()))
        sim.filter.arm(others.get("filter", ()))
        try:
            with D._silence():
                return fn(), "ok"
        except Violation:
            raise
        except SimCrash:
            sim.reboot()
            return None, "kill"
        except SimInterrupt:
            return None, "failure"
        except Exception as e:
            if session.fired(sim) == was:
                raise Violation("unexpected-error",
                                f"{what}: {type(e).__name__}: {e}") from e
            return None, "failure"
        finally:
            sim.disk.disarm()
            sim.solver.disarm()
            sim.filter.disarm()

    def shrink(self, plan):
        yield from session.shrink(plan)
        ls = plan["lives"]
        for i, li in enumerate(ls):
            for k in ("setup", "power", "change"):
                if k in li:
                    yield dict(plan, lives=ls[:i] + [{
                        a: b for a, b in li.items() if a != k}]
                        + ls[i + 1:])
        sp = plan["spec"]
        for key in ("sched", "extra", "petsc"):
            for k in sp.get(key) or {}:
                yield dict(plan, spec=dict(sp, **{key: {
                    a: b for a, b in sp[key].items() if a != k}}))
        for s in W.shrink_spec({k: v for k, v in sp.items()
                                if k != "sched"}):
            yield dict(plan, spec=dict(s, sched=sp["sched"]))


def plain(cfg):
    """A configuration as plain data: every attribute, not only the declared
    ones, so that what is derived from them counts as well."""
    def conv(x):
        if dataclasses.is_dataclass(x) and not isinstance(x, type):
            return {"type": type(x).__name__,
                    **{k: conv(v) for k, v in sorted(vars(x).items())}}
        if isinstance(x, dict):
            return {k: conv(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [conv(v) for v in x]
        return copy.copy(x)
    return {k: conv(v) for k, v in vars(cfg).items()
            if not k.startswith("_")}


def eq(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    return type(a) is type(b) and a == b
