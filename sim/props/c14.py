"""C14: filter results depend only on the current radius."""
import numpy as np

from .. import drive as D
from .. import world as W
from ..core import Prop, Violation, in_child
from ..seams import Clock, Sim
from ..session import fired
from ..vfs import SimInterrupt

KINDS = ("spacial", "spacial", "helmholtz", "helmholtz", "element_lu",
         "element_amg", "element_jacobi")
OPTION = {"element_lu": "spsolve", "element_amg": "cg_pyamg",
          "element_jacobi": "cg_jacobi"}
ACTS = ("raise", "memory", "interrupt")


class PROP(Prop):
    ID = "C14"
    RUNS = {"quick": 420, "thorough": 16000}
    BUDGET = {"quick": 240, "thorough": 820}
    RULE = ("one evaluation = one to three filters (some sharing a mesh and "
            "a mask), and a drawn sequence of radius changes, forward and "
            "adjoint applications on drawn fields, some of them failing in a "
            "linear solve, a factorization or any library call, or "
            "interrupted; every result is compared with that of a newly "
            "created filter of the current radius in a process of its own, "
            "and the inputs, the earlier results, the mesh, volumes and mask "
            "are compared with copies; non-trivial and distinct = distinct "
            "(filter kind, mesh, mask, operation kinds), at least one radius "
            "change and one compared result")
    REAL = ["SpacialFilter, HelmholtzFilterNodal, HelmholtzFilterElement",
            "SciPy k-d tree, sparse LU; pyamg; scikit-fem assembly"]
    STUB = []
    ASSUME = ["after a failed radius change the current radius is the one "
              "the filter gives as its own"]
    PROBES = ["compared", "failed_calls", "after_failure", "radius_changes",
              "shared", "results_kept"]

    def gen(self, rng, i):
        tet = rng.random() < 0.25
        n = rng.choice(([4, 3, 2], [5, 4, 1], [6, 3, 2]))
        mask = rng.choice((None, "block", "random", "random"))
        filters = []
        for _ in range(rng.choice((1, 1, 2, 3))):
            k = rng.choice(KINDS)
            filters.append({"kind": k, "r": self.radius(rng, k)})
        ops = []
        last = [f["r"] for f in filters]
        for _ in range(rng.randint(3, 14)):
            f = rng.randrange(len(filters))
            r = rng.random()
            if r < 0.3:
                last[f] = self.radius(rng, filters[f]["kind"], last[f])
                op = ["radius", f, last[f]]
            elif r < 0.65:
                op = ["forward", f, rng.randint(0, 5)]
            else:
                op = ["gradient", f, rng.randint(0, 5)]
            fl = {}
            r = rng.random()
            if r < 0.12:
                fl = {"solver": [{"at": rng.randint(0, 2),
                                  "act": rng.choice(ACTS)}]}
            elif r < 0.35:
                fl = {"calls": [{"at": int(rng.random() ** 2 * 120),
                                 "act": rng.choice(ACTS)}]}
            if op[0] != "radius" and rng.random() < 0.4:
                fl["same"] = 1        # the caller's array, filled anew
            ops.append(op + [fl])
            if op[0] == "radius" and rng.random() < 0.5:
                ops.append([rng.choice(("forward", "gradient")), f,
                            rng.randint(0, 5), {}])
        return {"tet": tet, "n": n, "mask": mask,
                "mseed": rng.randint(0, 99), "filters": filters, "ops": ops}

    def radius(self, rng, kind, near=None):
        if near is not None and rng.random() < 0.3:
            return near
        if near is not None and rng.random() < 0.35:
            # a small step, as at the end of a continuation
            return round(near * rng.choice((
                1.04, 0.97, 1.015, 0.992, 1.000004, 0.99999)), 9)
        if kind == "spacial":
            return rng.choice((0.7, 1.2, 1.7, 2.5))
        if kind == "helmholtz":
            return rng.choice((0.1, 0.3, 0.6, 1.0))
        return rng.choice((0.5, 0.8, 1.3))

    def world(self, plan):
        spec = {"kind": "tet" if plan["tet"] else "el1", "n": plan["n"]}
        mesh, (X, Y, _) = W._box(spec)
        from sktopt.fea import composer
        vol = composer.get_elements_volume(mesh)
        rs = np.random.RandomState(plan["mseed"])
        mask = None
        if plan["mask"] == "block":
            c = mesh.p[:, mesh.t].mean(axis=1)
            mask = ~((np.abs(c[0] - X / 2) < 0.6) & (c[1] > Y - 1.01))
        elif plan["mask"] == "random":
            mask = rs.uniform(size=mesh.nelements) < 0.8
            mask[0] = True
        return mesh, vol, mask

    def make(self, kind, r, mesh, vol, mask):
        if kind.startswith("element"):
            from sktopt.filters.helmholtz_filter_element import \
                HelmholtzFilterElement as H
            return H.from_defaults(
                mesh, vol, r, design_mask=mask,
                solver_option=OPTION[kind])
        cls = W.S.filters.SpacialFilter if kind == "spacial" \
            else W.S.filters.HelmholtzFilterNodal
        return cls.from_defaults(mesh, vol, r, design_mask=mask)

    def field(self, n, k, op):
        rs = np.random.RandomState(1000 + k)
        v = rs.uniform(0.01, 1.0, n)
        if k == 4:
            v = np.where(v < 0.5, 0.01, 1.0)
        if k == 5:
            v = np.zeros(n)
            v[n // 2] = 1.0
        # sensitivities are negative, sometimes mixed
        if op == "gradient":
            v = -v if k != 3 else v - 0.5
        return v

    def run(self, plan, stats):
        fresh = in_child(lambda: self.references(plan))
        story = []
        with Sim(clock=Clock((1e-3,)), calls=True) as sim:
            mesh, vol, mask = W.must("mesh", self.world, plan)
            with D._silence():
                fs = [self.make(f["kind"], f["r"], mesh, vol, mask)
                      for f in plan["filters"]]
            cur = [{f["r"]} for f in plan["filters"]]
            given = [(np.array(x), x) for x in
                     (mesh.p, mesh.t, vol) + (() if mask is None
                                              else (mask,))]
            kept = []
            V = np.zeros(mesh.nelements)
            failed = False
            changed = compared = 0
            for n, (op, i, arg, fl) in enumerate(plan["ops"]):
                kind = plan["filters"][i]["kind"]
                what = f"step {n}: {op} {arg} on filter {i} ({kind})"
                was = fired(sim)
                sim.solver.arm(fl.get("solver", ()))
                sim.calls.arm(fl.get("calls", ()))
                err = out = None
                v = self.field(mesh.nelements, arg, op) \
                    if op != "radius" else None
                if fl.get("same") and v is not None:
                    V[:] = v
                    v = V
                v0 = None if v is None else v.copy()
                try:
                    with D._silence():
                        if op == "radius":
                            fs[i].update_radius(arg)
                        else:
                            out = getattr(fs[i], op)(v)
                except SimInterrupt as e:
                    err = e
                except W.HARNESS:
                    raise
                except Exception as e:
                    err = e
                finally:
                    sim.solver.disarm()
                    sim.calls.disarm()
                if err is not None and fired(sim) == was and not (
                        # a new filter does not converge either
                        op != "radius" and any(fresh[kind, r, op, arg] is None
                                               for r in cur[i])):
                    raise Violation("unexpected-error",
                                    f"{what}: {type(err).__name__}: {err}")
                story.append((op, type(err).__name__))
                if op == "radius":
                    cur[i] = {arg} if err is None else cur[i] | {arg}
                    if err is not None and getattr(fs[i], "radius", None) in cur[i]:
                        cur[i] = {fs[i].radius}     # what it says
                    changed += 1
                    stats.add("radius_changes")
                if v0 is not None and not np.array_equal(v, v0):
                    raise Violation("input-modified", what)
                for a, b in given:
                    if not np.array_equal(a, b):
                        raise Violation("shared-data-modified", what)
                for a, b, w in kept:
                    if not np.array_equal(a, b, equal_nan=True):
                        raise Violation("earlier-result-modified",
                                        f"{what} changed the result of {w}")
                if err is not None:
                    stats.add("failed_calls")
                    failed = True
                    continue
                if op == "radius":
                    continue
                if fired(sim) != was:
                    # the failure was absorbed: the answer has to be right
                    stats.add("absorbed")
                out = np.asarray(out)
                if np.shares_memory(out, v):
                    raise Violation("input-modified",
                                    f"{what}: the result is the input")
                ok = set()
                for r in sorted(cur[i]):
                    w = fresh[kind, r, op, arg]
                    tol = 1e-9 if OPTION.get(kind, "spsolve") == "spsolve" \
                        else 1e-4
                    if w is not None and out.shape == w.shape and np.allclose(
                            out, w, rtol=tol, atol=tol):
                        ok.add(r)
                if not ok:
                    r = max(cur[i])
                    raise Violation(
                        "depends-on-history",
                        f"{what}: differs from a new filter of radius "
                        f"{sorted(cur[i])}: "
                        + (W.diff(out, fresh[kind, r, op, arg])
                           if fresh[kind, r, op, arg] is not None
                           else "which does not converge"))
                cur[i] = ok
                compared += 1
                stats.add("compared")
                if failed:
                    stats.add("after_failure")
                if len(fs) > 1:
                    stats.add("shared")
                kept.append((np.array(out), out, what))
                stats.add("results_kept")
            W.count_fired(sim, stats)
        if changed and compared:
            stats.seen("nontrivial", D.sig(
                [f["kind"] for f in plan["filters"]], plan["tet"],
                plan["mask"], story))

    def references(self, plan):
        out = {}
        radii = [{f["r"]} for f in plan["filters"]]
        for op, i, arg, _ in plan["ops"]:
            if op == "radius":
                radii[i].add(arg)
        with Sim(clock=Clock((1e-3,))):
            for op, i, arg, _ in plan["ops"]:
                kind = plan["filters"][i]["kind"]
                if op == "radius":
                    continue
                for r in sorted(radii[i]):
                    key = (kind, r, op, arg)
                    if key in out:
                        continue
                    mesh, vol, mask = self.world(plan)
                    f = W.must("new filter", self.make, kind, r, mesh, vol,
                               mask)
                    v = self.field(mesh.nelements, arg, op)
                    if kind == "element_jacobi":
                        try:            # few iterations: may not converge
                            with D._silence():
                                out[key] = np.array(getattr(f, op)(v))
                        except RuntimeError:
                            out[key] = None
                        continue
                    out[key] = np.array(W.must(
                        f"new filter: {op}", getattr(f, op), v))
        return out

    def shrink(self, plan):
        ops = plan["ops"]
        yield from D.shrink_list(ops, "ops", plan)
        for i, o in enumerate(ops):
            if o[3]:
                yield dict(plan, ops=ops[:i] + [o[:3] + [{}]] + ops[i + 1:])
        for i in range(len(plan["filters"])):
            if len(plan["filters"]) > 1 and all(o[1] != i for o in ops):
                yield dict(plan, filters=plan["filters"][:i]
                           + plan["filters"][i + 1:],
                           ops=[[o[0], o[1] - (o[1] > i)] + o[2:]
                                for o in ops])
        if plan["mask"]:
            yield dict(plan, mask=None)
        if plan["tet"]:
            yield dict(plan, tet=False)
