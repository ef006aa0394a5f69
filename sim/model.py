"""An executable model of what one iteration is made of: the continuation
values from the documented formulas, the filtered and projected densities and
their volume. It shares with the code under test only the filter operator,
created anew for every radius."""
import numpy as np

from . import world as W

NAMES = ("p", "beta", "filter_radius", "neumann_scale", "vol_frac",
         "move_limit", "percentile", "eta")


def describe(cfg):
    """A schedule configuration as plain numbers."""
    if not hasattr(cfg, "scheduler_type"):
        return {"type": "Constant", "target": cfg}
    d = {"type": cfg.scheduler_type, "init": cfg.init_value,
         "target": cfg.target_value, "steps": cfg.num_steps,
         "curv": cfg.curvature}
    if d["type"].endswith("ToOne"):
        d["target"] = 1.0
        if d["steps"]:
            d["init"] = 1.0 / d["steps"]
        d["type"] = d["type"][:-5]
    if d["type"] == "ConstantOne":
        d.update(type="Constant", target=1.0)
    return d


def value(d, k, total, exact=False):
    """The value of a schedule in iteration k of total. Steps are (nearly)
    equally many iterations each; the target is reached with the last one.
    Where a step starts exactly at an iteration, rounding decides which side
    it is on: ``exact`` divides integers."""
    kind, b = d["type"], d["target"]
    if kind in ("Constant", "None") or b is None:
        return b
    a, n = d["init"], d["steps"]
    if n is None or n < 0 or k >= total:
        return b
    if kind == "SawtoothDecay":
        size = total / n
        x = ((k - 1) * n % total) / total if exact else min(
            (k - 1 - int((k - 1) // size) * size) / size, 1.0)
        return a + (b - a) * x
    if n <= 1:
        return b
    i = min(k * n // total if exact else int(k // (total / n)), n - 1)
    t = i / (n - 1)
    if kind == "StepAccelerating":
        t = t ** d["curv"]
    elif kind == "StepDecelerating":
        t = 1.0 - (1.0 - t) ** d["curv"]
    elif kind != "Step":
        raise RuntimeError(f"schedule {kind}")
    return (1.0 - t) * a + t * b


class Model:
    def __init__(self, spec, dst):
        self.spec = spec
        self.task = W.must("problem", W.make_task, spec["task"])
        cfg = W.make_cfg(spec, dst)
        self.cfg = cfg
        self.sched = {n: describe(getattr(cfg, n)) for n in NAMES}
        self.n_el = self.task.basis.mesh.nelements
        self.volumes = np.array(self.task.basis.dx).sum(axis=1)
        self.filters = {}
        x = spec.get("extra", {})
        self.eta = x.get("beta_eta", cfg.beta_eta)
        self.lo, self.hi = cfg.rho_min, cfg.rho_max
        self.fem = None

    def domain(self, design):
        self.design = np.array(design)
        self.mask = np.isin(np.arange(self.n_el), self.design)
        self.v = self.volumes[self.design]
        return self

    def start(self):
        d = self.sched["vol_frac"]
        v = d["target"] if d.get("init") is None or d["type"] == "Constant" \
            else d["init"]
        return np.full(self.design.size, np.clip(v, self.lo, self.hi))

    def values(self, k, total, exact=False):
        return {n: value(d, k, total, exact) for n, d in self.sched.items()}

    def on_edge(self, k, total):
        return self.values(k, total) != self.values(k, total, True)

    def filtered(self, x, r):
        f = self.filters.get(r)
        if f is None:
            F = W.S.filters.SpacialFilter \
                if self.spec["filter"] == "spacial" \
                else W.S.filters.HelmholtzFilterNodal
            f = self.filters[r] = F.from_defaults(
                self.task.basis.mesh, self.task.elements_volume, r,
                design_mask=self.mask)
        full = np.ones(self.n_el)
        full[self.design] = x
        return f.forward(full)

    def physical(self, x, r, beta):
        f, e = self.filtered(x, r), self.eta
        return (np.tanh(beta * e) + np.tanh(beta * (f - e))) / (
            np.tanh(beta * e) + np.tanh(beta * (1 - e)))

    def volume(self, phys):
        return float(np.sum(phys[self.design] * self.v) / np.sum(self.v))

    def response(self, phys, p, scale):
        """Objective and energies of physical densities."""
        from sktopt.fea import composer
        if self.fem is None:
            x = self.spec.get("extra", {})
            kw = {"solver_option": "spsolve"}
            if x.get("interpolation") == "RAMP":
                kw["density_interpolation"] = composer.ramp_interpolation
            heat = self.spec["task"]["kind"].startswith("heat")
            self.fem = (W.S.fea.FEM_SimpLinearHeatConduction if heat
                        else W.S.fea.FEM_SimpLinearElasticity)(
                self.task, x.get("E_min_coeff", self.cfg.E_min_coeff), **kw)
        u = np.zeros((self.task.basis.N, self.task.n_tasks))
        J = float(np.mean(self.fem.objectives_multi_load(
            phys, p, u, force_scale=scale)))
        return J, self.fem.energy_multi_load(phys, p, u).mean(axis=1)
