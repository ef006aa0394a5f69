"""What every iteration of an undisturbed run amounts to, recomputed from the
snapshot before it by a new filter, an own projection formula and a new
evaluator on a new problem."""
from types import SimpleNamespace

import numpy as np

from . import world as W
from .seams import Clock, Sim

NAMES = ("p", "beta", "filter_radius", "neumann_scale")


def steps(spec, ref):
    from sktopt.fea import composer
    with Sim(clock=Clock((1e-3,))) as sim:
        o = W.must("set-up", W.make_opt, spec, sim.path("t"))
        design = np.array(o.tsk.design_elements)
        task = W.must("problem", W.make_task, spec["task"])
        mesh, n_el = task.basis.mesh, task.all_elements.shape[0]
        x = spec.get("extra", {})
        cfg = W.make_cfg(spec, sim.path("c"))
        sched = W.S.tools.Schedulers(cfg.dst_path)
        for name in NAMES:
            sched.add_object_from_config(getattr(cfg, name), name)
        sched.set_iters_max(cfg.max_iters)
        cfg = W.make_cfg(spec, sim.path("c"))
        emin = x.get("E_min_coeff", cfg.E_min_coeff)
        kw = {"solver_option": "spsolve"}
        if x.get("interpolation") == "RAMP":
            kw["density_interpolation"] = composer.ramp_interpolation
        heat = spec["task"]["kind"].startswith("heat")
        fem = (W.S.fea.FEM_SimpLinearHeatConduction if heat
               else W.S.fea.FEM_SimpLinearElasticity)(task, emin, **kw)
        mask = np.isin(np.arange(n_el), design)
        lo, hi = cfg.rho_min, cfg.rho_max
        v = cfg.vol_frac
        prev = np.full(design.size, np.clip(
            v.target_value if v.init_value is None else v.init_value,
            lo, hi))
        F = W.S.filters.SpacialFilter if spec["filter"] == "spacial" \
            else W.S.filters.HelmholtzFilterNodal
        eta = x.get("beta_eta", cfg.beta_eta)
        n, flt, r_old = ref.last, None, None
        look = set(range(1, n + 1)) if n < 10 else \
            {1, 2, 3, n // 2, n // 2 + 1, n - n // 4, n - 1, n}
        for k in range(1, n + 1):
            if k not in look:
                prev = ref.rho[k]
                continue
            t = SimpleNamespace(k=k, lo=lo, hi=hi)
            p, beta, r, scale = [
                float(sched.value_on_a_scheduler(n, k)) for n in NAMES]
            t.scale = scale
            full = np.ones(n_el)
            full[design] = prev
            if r != r_old:
                flt, r_old = F.from_defaults(
                    mesh, task.elements_volume, r, design_mask=mask), r
            f = flt.forward(full)
            t.phys = (np.tanh(beta * eta) + np.tanh(beta * (f - eta))) / (
                np.tanh(beta * eta) + np.tanh(beta * (1 - eta)))
            t.u = np.zeros((task.basis.N, task.n_tasks))
            t.objective = np.mean(fem.objectives_multi_load(
                t.phys, p, t.u, force_scale=scale))
            t.energy = fem.energy_multi_load(t.phys, p, t.u).mean(axis=1)
            t.top = np.max(np.abs(t.energy))
            # a uniform density has no interface to exchange heat over
            t.sound = spec["task"]["kind"] != "heat_x" \
                or np.ptp(t.phys) > 1e-3
            t.loose = (1e-4 if spec.get("solver", "").startswith("cg")
                       else 1e-6)
            t.name = str(getattr(task, "objective", "compliance"))
            t.prev, t.change = prev, np.max(np.abs(ref.rho[k] - prev))
            yield t
            prev = ref.rho[k]
