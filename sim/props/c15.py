"""C15: evaluations do not depend on what was evaluated before."""
import copy

import numpy as np

from .. import drive as D
from .. import world as W
from ..core import Prop, Violation, in_child
from ..seams import Clock, Sim
from ..session import fired
from ..vfs import SimInterrupt
from .c07 import densities, make_fem

LOUD = ("raise", "memory", "interrupt")
# what makes up a problem, as its documentation lists it
PARTS = ("dirichlet_nodes", "dirichlet_dofs", "dirichlet_elements",
         "dirichlet_values", "neumann_nodes", "neumann_elements",
         "neumann_dir_type", "neumann_values", "neumann_linear",
         "robin_facets_ids", "robin_nodes", "robin_elements",
         "robin_coefficient", "robin_bc_value", "robin_bilinear",
         "robin_linear", "design_robin_boundary", "design_elements",
         "free_dofs", "free_elements", "all_elements", "fixed_elements",
         "dirichlet_neumann_elements", "elements_volume", "E", "nu", "k",
         "objective", "avg_temp_weight", "n_tasks", "material_coef",
         "design_mask")


def plain(x):
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if hasattr(x, "tocsr"):
        m = x.tocsr().copy()
        m.sum_duplicates()
        return [m.shape, m.toarray()]
    if isinstance(x, np.ndarray):
        return np.array(x)
    return copy.copy(x)


def problem(task):
    out = {k: plain(getattr(task, k)) for k in PARTS if hasattr(task, k)}
    m = task.basis.mesh
    out.update({"mesh.p": np.array(m.p), "mesh.t": np.array(m.t),
                "basis.N": task.basis.N,
                "basis.element_dofs": np.array(task.basis.element_dofs)})
    return out


def equal(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(
            equal(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and \
            np.allclose(a, b, rtol=1e-12, atol=0, equal_nan=True)
    return a == b


class PROP(Prop):
    ID = "C15"
    RUNS = {"quick": 400, "thorough": 14000}
    BUDGET = {"quick": 260, "thorough": 830}
    RULE = ("one evaluation = one problem, one to three evaluators of "
            "different solvers and interpolations on it, and a drawn "
            "sequence of state and objective evaluations, energies and "
            "sensitivities at drawn densities, penalties, load scales and "
            "dirty result buffers, optimizer runs on the same problem in "
            "between, some of them failing in a linear solve or in any "
            "library call; every result is compared with that of a new "
            "problem and a new evaluator in a process of its own, the "
            "problem, the densities and all earlier results are compared "
            "with copies; non-trivial and distinct = distinct (physics, "
            "evaluators, operations and how each ended), at least two "
            "compared results")
    REAL = ["sktopt problems, FEM evaluators and optimizers",
            "SciPy direct and CG solvers, pyamg", "scikit-fem assembly"]
    STUB = ["matplotlib figures of the optimizer runs", "clock"]
    ASSUME = ["energies and sensitivities of a heat problem are asked for "
              "the last density its evaluator solved, as the optimizers do",
              "an optimizer built with design_dirichlet=False takes the "
              "supported elements out of the problem's design elements"]
    PROBES = ["compared", "failed_calls", "after_failure", "runs",
              "interleaved", "dirty_buffer", "results_kept"]

    def gen(self, rng, i):
        kind = rng.choice(("el1", "el1", "el2", "tet", "heat_c", "heat_a",
                           "heat_x", "heat_x", "heat2", "heat2"))
        heat = kind.startswith("heat")
        task = {"kind": kind}
        if kind != "tet":
            task["n"] = rng.choice(([4, 3, 1], [3, 3, 2]))
            if rng.random() < 0.3:
                task["keep"] = 1
        if kind in ("el2", "heat2") and rng.random() < 0.3:
            task["cases"] = 3
        if heat:
            task["design_robin"] = rng.random() < 0.6
            if kind == "heat_x" and rng.random() < 0.5:
                task["avg_w"] = 0.1
        W.gen_ways(rng, task)
        fems = []
        for _ in range(rng.choice((1, 2, 2, 3))):
            f = {"solver": rng.choice(
                ("spsolve", "spsolve", "auto", "cg_pyamg", "cg_jacobi")
                if kind in ("el1", "tet") else ("spsolve", "auto"))}
            if rng.random() < 0.3:
                f["ramp"] = 1
            if rng.random() < 0.3:
                f["emin"] = 1e-2
            fems.append(f)
        ops = []
        for _ in range(rng.randint(2, 9)):
            fl = {}
            r = rng.random()
            if r < 0.14:
                fl = {"solver": [{"at": rng.randint(0, 4),
                                  "act": rng.choice(LOUD)}]}
            elif r < 0.36:
                fl = {"calls": [{"at": int(rng.random() * 90),
                                 "act": rng.choice(LOUD)}]}
            r = rng.random()
            f = rng.randrange(len(fems))
            if r < 0.55:
                ops.append(["solve", f, {
                    "rho": rng.randint(0, 4),
                    "like": rng.choice(("rand", "rand", "layers", "solid",
                                        "void", "bits", "bits")),
                    "p": rng.choice((1.0, 1.5, 3.0)),
                    "scale": rng.choice((1.0, 1.0, 0.25)),
                    "buf": rng.choice(("zero", "nan", "keep", "big",
                                       "fortran", "inplace", "inplace",
                                       "inplace"))}, fl])
                if rng.random() < 0.7:
                    ops.append(["energy", f, 0, {}])
            elif r < 0.72:
                ops.append(["energy", f, rng.randint(0, 2), fl])
            elif r < 0.87:
                ops.append(["sens", f, rng.randint(0, 2), fl])
            else:
                if "calls" in fl:
                    fl = {"calls": [dict(fl["calls"][0], at=int(
                        rng.random() * 400))]}
                ops.append(["run", 0, {
                    "opt": rng.choice(("oc", "logmoc")),
                    "iters": rng.randint(1, 2), "dd": rng.randint(0, 1),
                    "ramp": rng.randint(0, 1),
                    "nscale": 0 if heat else rng.randint(0, 1)}, fl])
        return {"task": task, "fems": fems, "ops": ops}

    def run_spec(self, plan, a):
        s = {"task": plan["task"], "opt": a["opt"], "iters": a["iters"],
             "record": 1, "filter": "spacial", "radius": 1.3, "move": 0.1,
             "vf": 0.7}
        if a["dd"]:
            s["dd"] = 1
        if a["nscale"]:
            s["nscale"] = 1
        if a["ramp"]:
            s["extra"] = {"interpolation": "RAMP"}
        return s

    def fem(self, plan, i, task):
        return make_fem(task, dict(plan["fems"][i], task=plan["task"]))

    def run(self, plan, stats):
        fresh = in_child(lambda: self.references(plan))
        heat = plan["task"]["kind"].startswith("heat")
        story = []
        with Sim(clock=Clock((1e-3,)), calls=True) as sim:
            task = W.must("problem", W.make_task, plan["task"])
            n_el = task.all_elements.shape[0]
            fems = [W.must("evaluator", self.fem, plan, i, task)
                    for i in range(len(plan["fems"]))]
            parts = problem(task)
            bufs = {}
            R = np.zeros(n_el)            # reused by the caller, like the
            U = np.zeros((task.basis.N, task.n_tasks))   # optimizers do
            solved = [[] for _ in fems]   # per evaluator: (args, rho, u)
            kept, n_runs, n_ok, failed, last = [], 0, 0, False, None
            for n, (op, i, a, fl) in enumerate(plan["ops"]):
                what = f"step {n}: {op} {a} on evaluator {i}"
                out = err = given = None
                call = None
                if op == "solve":
                    rho = densities(a["rho"], n_el, a["like"])
                    u = bufs.get(i)
                    shape = (task.basis.N, task.n_tasks)
                    if u is None or a["buf"] != "keep":
                        u = {"nan": lambda: np.full(shape, np.nan),
                             "big": lambda: np.full(shape, 1e30),
                             "fortran": lambda: np.asfortranarray(
                                 np.ones(shape))}.get(
                            a["buf"], lambda: np.zeros(shape))()
                    elif u is not None:
                        u = np.array(u)
                    if a["buf"] == "inplace":
                        R[:] = rho
                        rho, u = R, U
                    if a["buf"] != "zero":
                        stats.add("dirty_buffer")
                    given = (rho, rho.copy())

                    def call():
                        return fems[i].objectives_multi_load(
                            rho, a["p"], u, force_scale=a["scale"])
                elif op in ("energy", "sens"):
                    if not solved[i]:
                        continue
                    k = 0 if heat else min(a, len(solved[i]) - 1)
                    s, rho, u = solved[i][-1 - k]
                    if s["buf"] == "inplace" and np.array_equal(R, rho) \
                            and np.array_equal(U, u):
                        rho, u = R, U
                    name = "energy_multi_load" if op == "energy" \
                        else "compliance_sensitivity_multi_load"
                    if not hasattr(fems[i], name):
                        continue
                    given = (rho, rho.copy())
                    u0 = u.copy()
                    if last != i:
                        stats.add("interleaved")

                    def call():
                        return getattr(fems[i], name)(rho, s["p"], u)
                else:
                    n_runs += 1
                    spec = self.run_spec(plan, a)

                    def call():
                        W.make_opt(spec, sim.path(f"run{n}"),
                                   task=task).optimize()
                was = fired(sim)
                sim.solver.arm(fl.get("solver", ()))
                sim.calls.arm(fl.get("calls", ()))
                try:
                    with D._silence():
                        out = call()
                except SimInterrupt as e:
                    err = e
                except W.HARNESS:
                    raise
                except Exception as e:
                    err = e
                finally:
                    sim.solver.disarm()
                    sim.calls.disarm()
                if err is not None and fired(sim) == was:
                    if op == "solve" and plan["fems"][i]["solver"] \
                            .startswith("cg"):
                        story.append("noconv")
                        solved[i] = solved[i] if not heat else []
                        continue
                    raise Violation("unexpected-error",
                                    f"{what}: {type(err).__name__}: {err}")
                story.append((op, i, type(err).__name__))
                if given is not None and not np.array_equal(*given):
                    raise Violation("densities-modified", what)
                if op in ("energy", "sens") and not np.array_equal(u, u0):
                    raise Violation("state-modified", what)
                now = problem(task)
                if op == "run" and not a["dd"]:
                    # the documented effect of the option
                    de = parts["design_elements"]
                    rest = de[~np.isin(de, parts["dirichlet_elements"])]
                    for x in (rest, de):
                        if equal(now["design_elements"], x):
                            for k in ("design_elements", "design_mask"):
                                parts[k] = now[k]
                for k in parts:
                    if k not in now or not equal(parts[k], now[k]):
                        raise Violation("problem-modified", f"{what}: {k}")
                for x, y, w in kept:
                    if not np.array_equal(x, y, equal_nan=True):
                        raise Violation("earlier-result-modified",
                                        f"{what} changed the result of {w}")
                if op == "run":
                    stats.add("runs")
                last = i
                if err is not None:
                    stats.add("failed_calls")
                    failed = True
                    if op == "solve" and heat:
                        solved[i] = []     # the last solve did not succeed
                    continue
                if op == "run":
                    continue
                if op == "solve":
                    bufs[i] = u
                    self.compare(plan, i, fresh[self.key(i, a), "J"], out,
                                 f"{what}: objective")
                    self.compare(plan, i, fresh[self.key(i, a), "u"], u,
                                 f"{what}: state field")
                    solved[i].append((a, rho.copy(), u.copy()))
                    if u is not U:
                        kept.append((u.copy(), u, what + ": state field"))
                else:
                    self.compare(plan, i, fresh[self.key(i, s), op], out,
                                 f"{what}: {op} of {s}")
                if isinstance(out, np.ndarray):
                    kept.append((out.copy(), out, what))
                    stats.add("results_kept")
                n_ok += 1
                stats.add("compared")
                if failed:
                    stats.add("after_failure")
            W.count_fired(sim, stats)
        if n_ok > 1:
            stats.seen("nontrivial", D.sig(
                plan["task"], plan["fems"], story))

    def compare(self, plan, i, want, got, what):
        got, want = np.asarray(got, float), np.asarray(want, float)
        tol = 1e-9 if plan["fems"][i]["solver"] in ("spsolve", "auto") \
            else 1e-4
        top = max(1e-300, np.max(np.abs(want)) if want.size else 0)
        if got.shape != want.shape or not np.all(
                np.abs(got - want) <= tol * top):
            raise Violation("depends-on-history",
                            f"{what}: {W.diff(got, want)} of {top:.3e}")

    @staticmethod
    def key(i, a):
        return (i, a["rho"], a["like"], a["p"], a["scale"])

    def references(self, plan):
        out = {}
        with Sim(clock=Clock((1e-3,))):
            for op, i, a, _ in plan["ops"]:
                if op != "solve" or (self.key(i, a), "J") in out:
                    continue
                k = self.key(i, a)
                task = W.make_task(plan["task"])
                fem = self.fem(plan, i, task)
                rho = densities(a["rho"], task.all_elements.shape[0],
                                a["like"])
                u = np.zeros((task.basis.N, task.n_tasks))
                try:
                    with D._silence():
                        J = fem.objectives_multi_load(
                            rho, a["p"], u, force_scale=a["scale"])
                except Exception as e:
                    if plan["fems"][i]["solver"].startswith("cg"):
                        out[k, "J"] = out[k, "u"] = np.nan
                        continue
                    raise Violation("unexpected-error",
                                    f"new evaluator: {type(e).__name__}: "
                                    f"{e}")
                out[k, "J"], out[k, "u"] = np.array(J), u.copy()
                out[k, "energy"] = np.array(W.must(
                    "new evaluator: energy", fem.energy_multi_load, rho,
                    a["p"], u))
                if hasattr(fem, "compliance_sensitivity_multi_load"):
                    out[k, "sens"] = np.array(W.must(
                        "new evaluator: sensitivity",
                        fem.compliance_sensitivity_multi_load, rho, a["p"],
                        u))
        return out

    def shrink(self, plan):
        ops = plan["ops"]
        yield from D.shrink_list(ops, "ops", plan)
        for i, o in enumerate(ops):
            if o[3]:
                yield dict(plan, ops=ops[:i] + [o[:3] + [{}]] + ops[i + 1:])
        for i in range(len(plan["fems"])):
            if len(plan["fems"]) > 1 and all(o[1] != i for o in ops):
                yield dict(plan, fems=plan["fems"][:i]
                           + plan["fems"][i + 1:],
                           ops=[[o[0], o[1] - (o[1] > i)] + o[2:]
                                for o in ops])
        for i, f in enumerate(plan["fems"]):
            if f != {"solver": "spsolve"}:
                yield dict(plan, fems=plan["fems"][:i] + [
                    {"solver": "spsolve"}] + plan["fems"][i + 1:])
        t = plan["task"]
        for k in ("keep", "avg_w", "design_robin", "cases", "via", "robin"):
            if t.get(k):
                yield dict(plan, task={x: y for x, y in t.items() if x != k})
