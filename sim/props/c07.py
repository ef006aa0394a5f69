"""C07: a state solve returns an equilibrium field or reports failure."""
import numpy as np

from .. import drive as D
from .. import world as W
from ..core import Prop, Violation
from ..seams import Clock, Sim
from ..vfs import SimInterrupt

ACTS = ("raise", "memory", "noconv", "breakdown", "nan", "nan1", "singular",
        "interrupt")
P_VALUES = (1.0, 1.5, 3.0)


class Oracle:
    """Equilibrium assembled here, with scikit-fem forms and no sktopt code
    below the problem description."""

    def __init__(self, task, heat, emin, ramp):
        import skfem
        self.t, self.heat, self.emin = task, heat, emin
        self.ramp = ramp
        self.b = task.basis
        m = self.b.mesh
        e0 = skfem.ElementTetP0() if m.t.shape[0] == 4 \
            else skfem.ElementHex0()
        self.b0 = self.b.with_element(e0)

    def coef(self, rho, p, hi):
        lo = hi * self.emin
        if self.ramp:
            return lo + (hi - lo) * rho / (1.0 + p * (1.0 - rho))
        return lo + (hi - lo) * rho ** p

    def matrix(self, rho, p):
        import skfem
        from skfem.helpers import ddot, dot, eye, grad, sym_grad, trace
        if not self.heat:
            nu = self.t.nu
            E = self.b0.interpolate(self.coef(rho, p, self.t.E))

            @skfem.BilinearForm
            def form(u, v, w):
                la = w["E"] * nu / ((1 + nu) * (1 - 2 * nu))
                mu = w["E"] / (2 * (1 + nu))
                s = 2.0 * mu * sym_grad(u) + eye(la * trace(sym_grad(u)), 3)
                return ddot(s, sym_grad(v))
            return form.assemble(self.b, E=E).tocsr(), None
        k = self.b0.interpolate(self.coef(rho, p, self.t.k))

        @skfem.BilinearForm
        def cond(u, v, w):
            return w["k"] * dot(grad(u), grad(v))
        K = cond.assemble(self.b, k=k).tocsr()
        f = np.zeros(K.shape[0])
        for x in self.t.robin_bilinear or []:
            K = K + x
        for x in self.t.robin_linear or []:
            f = f + x
        if self.t.robin_coefficient is not None:
            m = self.b.mesh
            s, c = np.zeros(m.nvertices), np.zeros(m.nvertices)
            for loc in m.t:
                np.add.at(s, loc, rho)
                np.add.at(c, loc, 1.0)
            r = self.b.interpolate(s / np.maximum(c, 1.0))
            h, te = self.t.robin_coefficient, self.t.robin_bc_value

            @skfem.BilinearForm
            def vb(u, v, w):
                g = w["r"].grad
                a = w["r"] ** p * (1 - w["r"]) ** 4
                return h * a * np.sqrt(np.sum(g ** 2, axis=0)) * u * v

            @skfem.LinearForm
            def vl(v, w):
                g = w["r"].grad
                a = w["r"] ** p * (1 - w["r"]) ** 4
                return h * te * a * np.sqrt(np.sum(g ** 2, axis=0)) * v
            K = K + vb.assemble(self.b, r=r)
            f = f + vl.assemble(self.b, r=r)
        return K.tocsr(), f

    def check(self, u, rho, p, scale, rtol, what):
        K, f = self.matrix(rho, p)
        n = K.shape[0]
        if not np.all(np.isfinite(u)):
            raise Violation("non-finite-field", what)
        if self.heat:
            nodes = aslist(self.t.dirichlet_nodes)
            vals = aslist(self.t.dirichlet_values)
            loads = [(nd, v, f) for nd, v in zip(nodes, vals)]
        else:
            ls = self.t.neumann_linear
            loads = [(None, 0.0, g * scale) for g in aslist(ls)]
        for i, (nd, v, g) in enumerate(loads):
            if nd is None:
                dd = np.unique(np.asarray(self.t.dirichlet_dofs))
            else:
                dd = np.unique(np.asarray(nd))
            x = u[:, i]
            top = max(1e-300, np.max(np.abs(x)))
            if np.max(np.abs(x[dd] - v)) > 1e-7 * max(1.0, abs(v)) + \
                    10 * rtol * top:
                raise Violation(
                    "support-violated", f"{what}: load case {i}: "
                    f"{np.max(np.abs(x[dd] - v)):.3e}")
            free = np.setdiff1d(np.arange(n), dd)
            r = (K @ x - g)[free]
            x0 = np.zeros(n)
            x0[dd] = v
            rhs = (g - K @ x0)[free]
            lim = 20 * max(rtol, 1e-9) * max(np.linalg.norm(rhs), 1e-30)
            if np.linalg.norm(r) > lim:
                raise Violation(
                    "not-in-equilibrium",
                    f"{what}: load case {i}: residual "
                    f"{np.linalg.norm(r):.3e}, allowed {lim:.3e}")


def aslist(x):
    return list(x) if isinstance(x, (list, tuple)) else [x]


def make_fem(task, spec):
    fea = W.S.fea
    from sktopt.fea import composer
    kw = {}
    if spec.get("ramp"):
        kw["density_interpolation"] = composer.ramp_interpolation
    heat = spec["task"]["kind"].startswith("heat")
    if "cfg" in spec:
        from sktopt.fea.solver_elastic import LinearSolverConfig
        kw["solver_config"] = LinearSolverConfig(
            solver=spec["solver"], **spec["cfg"])
    else:
        kw["solver_option"] = spec["solver"]
    cls = fea.FEM_SimpLinearHeatConduction if heat \
        else fea.FEM_SimpLinearElasticity
    return cls(task, spec.get("emin", 1e-3), **kw)


def densities(seed, n, kind="rand"):
    rs = np.random.RandomState(seed)
    r = rs.uniform(0.01, 1.0, n)
    if kind == "layers":
        r = np.where(rs.uniform(size=n) < 0.5, 0.01, 1.0)
    if kind == "solid":
        r = np.ones(n)
    if kind == "void":
        r = np.where(rs.uniform(size=n) < 0.3, rs.choice((0.0, 1e-4)), r)
    if kind == "bits":          # the same numbers in another order
        r = rs.permutation(1.0 - np.arange(n) % 48 / 64.0)
    return r


class PROP(Prop):
    ID = "C07"
    RUNS = {"quick": 520, "thorough": 18000}
    BUDGET = {"quick": 240, "thorough": 820}
    RULE = ("one evaluation = a drawn sequence of state evaluations on one "
            "evaluator (physics, load cases, linear solver, interpolation), "
            "with linear solver calls that raise, run out of memory, stop "
            "early, break down, return non-finite numbers or report a "
            "singular matrix; every returned field is tested against an "
            "equilibrium residual assembled independently, and every "
            "fault-free evaluation after a failed one against a newly built "
            "evaluator; non-trivial and distinct = distinct (physics, "
            "solver, fault kinds, how each evaluation ended)")
    REAL = ["sktopt FEM evaluators, solver selection, fallback and "
            "convergence handling", "SciPy direct and CG solvers, pyamg",
            "scikit-fem assembly"]
    STUB = ["petsc4py (not installed here): a stand-in whose solve is direct "
            "and whose converged reason follows the plan"]
    ASSUME = ["densities between 0 and 1"]
    PROBES = ["failed", "recovered", "silent_faults", "petsc", "real_noconv",
              "after_failure"]

    def gen(self, rng, i):
        kind = rng.choice(("el1", "el1", "el1", "el2", "el2", "el2", "tet",
                           "big", "big",
                           "heat_c", "heat_a", "heat_x", "heat2", "heat2"))
        task = {"kind": "el1" if kind == "big" else kind}
        if kind == "big":
            task["n"] = [11, 8, 3]
        elif kind != "tet":
            task["n"] = rng.choice(([4, 3, 2], [5, 3, 1]))
        if kind in ("el2", "heat2") and rng.random() < 0.3:
            task["cases"] = 3
        if kind.startswith("heat"):
            task["design_robin"] = rng.random() < 0.5
            if kind == "heat_x" and rng.random() < 0.4:
                task["avg_w"] = 0.1
        W.gen_ways(rng, task)
        single = kind in ("el1", "big", "tet")
        solver = rng.choice(
            ("auto", "auto", "spsolve", "cg_jacobi", "cg_pyamg", "petsc",
             "petsc_spdirect") if single
            else ("auto", "spsolve", "petsc", "petsc", "petsc_spdirect"))
        if kind == "big":
            solver = rng.choice(("auto", "auto", "cg_pyamg", "cg_jacobi"))
        spec = {"task": task, "solver": solver}
        if rng.random() < 0.25:
            spec["ramp"] = 1
        if rng.random() < 0.3:
            spec["emin"] = 1e-2
        if rng.random() < 0.45:
            spec["cfg"] = {"rtol": rng.choice((1e-8, 1e-10, 1e-5))}
            if rng.random() < 0.4:
                spec["cfg"]["maxiter"] = rng.choice((1, 3, 4000))
        evals = []
        for _ in range(rng.randint(1, 4)):
            e = {"rho": rng.randint(0, 10 ** 6),
                 "like": rng.choice(("rand", "rand", "layers", "solid",
                                     "void", "bits", "bits")),
                 "p": rng.choice(P_VALUES),
                 "scale": rng.choice((1.0, 1.0, 0.5)),
                 "buf": rng.choice(("zero", "nan", "keep"))}
            if rng.random() < 0.65:
                e["faults"] = []
                if rng.random() < 0.35:
                    e["faults"].append({
                        "at": "all", "act": rng.choice(ACTS[:-1]),
                        "kind": rng.choice(("cg", "amg", "ksp", "spsolve",
                                            "splu", "lusolve"))})
                else:
                    e["faults"].append({"at": rng.randint(0, 4),
                                        "act": rng.choice(ACTS)})
                    if rng.random() < 0.3:
                        e["faults"].append({"at": rng.randint(1, 4),
                                            "act": rng.choice(ACTS)})
            evals.append(e)
        return {"spec": spec, "evals": evals}

    def run(self, plan, stats):
        spec = plan["spec"]
        heat = spec["task"]["kind"].startswith("heat")
        ends = []
        with Sim(clock=Clock((1e-3,)), petsc=True) as sim:
            task = W.must("problem", W.make_task, spec["task"])
            fem = W.must("evaluator", make_fem, task, spec)
            orc = Oracle(task, heat, spec.get("emin", 1e-3),
                         spec.get("ramp"))
            n_el = task.all_elements.shape[0]
            buf = None
            after_failure = False
            auto = spec["solver"] == "auto"
            rtol = spec.get("cfg", {}).get("rtol", 1e-8)
            few = spec.get("cfg", {}).get("maxiter") in (1, 3)
            for n, e in enumerate(plan["evals"]):
                rho = densities(e["rho"], n_el, e["like"])
                keep = rho.copy()
                if buf is None or e["buf"] == "zero":
                    buf = np.zeros((task.basis.N, task.n_tasks))
                elif e["buf"] == "nan":
                    buf = np.full((task.basis.N, task.n_tasks), np.nan)
                what = f"evaluation {n} ({spec['solver']})"
                was = dict(sim.solver.fired)
                sim.solver.arm(e.get("faults", ()))
                err = val = None
                try:
                    with D._silence():
                        val = fem.objectives_multi_load(
                            rho, e["p"], buf, force_scale=e["scale"])
                except SimInterrupt as x:
                    err = x
                except W.HARNESS:
                    raise
                except Exception as x:
                    err = x
                finally:
                    sim.solver.disarm()
                hit = sorted(k for k, v in sim.solver.fired.items()
                             if v != was.get(k))
                iterative = spec["solver"].startswith(("cg", "auto"))
                if err is not None:
                    if not hit and not (few and iterative and not auto):
                        if spec["solver"].startswith("cg") and \
                                real_cg_failure(err):
                            stats.add("real_noconv")
                            ends.append("noconv")
                            continue
                        raise Violation(
                            "unexpected-error",
                            f"{what}: {type(err).__name__}: {err}")
                    if auto and hit and not heat and all(
                            k.split("@")[1] in ("cg", "amg") and
                            not k.startswith("interrupt") for k in hit):
                        raise Violation(
                            "not-recovered",
                            f"{what}: {hit}: {type(err).__name__}: {err}")
                    if few and not hit:
                        stats.add("real_noconv")
                    stats.add("failed")
                    after_failure = True
                    ends.append(("error", tuple(hit)))
                    buf = None if e["buf"] != "keep" else buf
                    continue
                if not np.array_equal(rho, keep):
                    raise Violation("density-modified", what)
                orc.check(buf, rho, e["p"], e["scale"],
                          rtol if iterative else 1e-9, f"{what} {hit}")
                if hit:
                    stats.add("silent_faults")
                    if auto:
                        stats.add("recovered")
                if not np.all(np.isfinite(np.asarray(val, dtype=float))):
                    raise Violation("non-finite-objective", what)
                self.compare(spec, e, rho, task, fem, buf, val, what, hit,
                             rtol, iterative)
                if after_failure:
                    stats.add("after_failure")
                after_failure = False
                ends.append(("ok", tuple(hit)))
                if spec["solver"].startswith("petsc"):
                    stats.add("petsc")
            W.count_fired(sim, stats)
        if any(e.get("faults") for e in plan["evals"]):
            stats.seen("nontrivial", D.sig(spec["task"]["kind"],
                                           spec["solver"], ends))

    def compare(self, spec, e, rho, task, fem, buf, val, what, hit, rtol,
                iterative):
        """The same evaluation on a new evaluator with the direct solver."""
        ref = W.must("new evaluator", make_fem, task, {
            k: v for k, v in dict(spec, solver="spsolve").items()
            if k != "cfg"})
        u = np.zeros_like(buf)
        w = W.must("new evaluation", ref.objectives_multi_load, rho, e["p"],
                   u, force_scale=e["scale"])
        tol = 1e-6 if not iterative else max(1e-5, rtol * 3e4)
        su = max(1e-300, np.max(np.abs(u)))
        if not np.allclose(buf, u, rtol=0, atol=tol * su):
            raise Violation(
                "differs-from-direct", f"{what} {hit}: field differs by "
                f"{np.max(np.abs(buf - u)):.3e} of {su:.3e}")
        if not np.allclose(val, w, rtol=10 * tol, atol=1e-12):
            raise Violation("differs-from-direct",
                            f"{what} {hit}: objective {val} and {w}")
        a = W.must("energy", fem.energy_multi_load, rho, e["p"], buf)
        b = W.must("energy", ref.energy_multi_load, rho, e["p"], u)
        if not np.allclose(a, b, rtol=0, atol=20 * tol * max(
                1e-300, np.max(np.abs(b)))):
            raise Violation("differs-from-direct", f"{what} {hit}: energy")

    def shrink(self, plan):
        ev = plan["evals"]
        yield from D.shrink_list(ev, "evals", plan)
        for i, e in enumerate(ev):
            if e.get("faults"):
                fs = e["faults"]
                for j in range(len(fs)):
                    yield dict(plan, evals=ev[:i] + [dict(
                        e, faults=fs[:j] + fs[j + 1:])] + ev[i + 1:])
        s = plan["spec"]
        for k in ("ramp", "emin", "cfg"):
            if k in s:
                yield dict(plan, spec={a: b for a, b in s.items() if a != k})


def real_cg_failure(err):
    return isinstance(err, RuntimeError)
