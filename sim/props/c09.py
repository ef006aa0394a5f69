"""C09: node-to-element lookup over any history of meshes."""
import gc

import numpy as np

from .. import drive as D
from .. import world as W
from ..core import Prop, Violation, in_child
from ..sched import Lines, Threads
from ..seams import Clock, Sim
from ..vfs import SimInterrupt


def make_mesh(m):
    """A mesh of a drawn shape whose numbering is shuffled by a seed, so that
    equal sizes do not mean equal topologies."""
    import skfem
    nx, ny, nz = m["n"]
    mesh = skfem.MeshHex.init_tensor(*[np.linspace(0.0, k, k + 1)
                                       for k in (nx, ny, nz)])
    if m["kind"] == "tet":
        mesh = mesh.to_meshtet()
    p, t = mesh.p, mesh.t
    if m.get("seed"):
        r = np.random.RandomState(m["seed"])
        q = r.permutation(p.shape[1])
        inv = np.empty_like(q)
        inv[q] = np.arange(q.size)
        p, t = p[:, q], inv[t]
        t = t[:, r.permutation(t.shape[1])]
    p = np.ascontiguousarray(p)
    t = np.ascontiguousarray(t)
    if m["kind"] == "tet":
        return skfem.MeshTet(p, t)
    return skfem.MeshHex(p, t)


def brute(mesh, nodes):
    xs = [np.ravel(nodes)] if isinstance(nodes, np.ndarray) else \
        [np.ravel(x) for x in nodes]
    want = np.concatenate([np.asarray(x, dtype=np.int64) for x in xs])
    return np.nonzero(np.isin(mesh.t, want).any(axis=0))[0]


def gen_mesh(rng):
    m = {"kind": rng.choice(("hex", "hex", "tet")),
         "n": rng.choice(([2, 1, 1], [1, 2, 1], [2, 2, 1], [1, 1, 2],
                          [3, 2, 1], [2, 3, 1]))}
    if rng.random() < 0.7:
        m["seed"] = rng.randint(1, 10 ** 6)
    return m


def gen_nodes(rng):
    form = rng.choice(("array", "array", "list", "list2", "list_empty",
                       "empty", "int32", "matrix"))
    return {"form": form, "seed": rng.randint(0, 10 ** 6),
            "k": rng.choice((1, 1, 2, 3, 6)), "out": rng.random() < 0.1}


def make_nodes(spec, mesh):
    r = np.random.RandomState(spec["seed"])
    n = mesh.p.shape[1] + (3 if spec["out"] else 0)
    a = r.randint(0, n, size=spec["k"])
    f = spec["form"]
    if f == "array":
        return a
    if f == "int32":
        return a.astype(np.int32)
    if f == "matrix":
        return np.stack([a, a])
    if f == "list":
        return [a]
    if f == "list2":
        return [a, r.randint(0, n, size=2), a]
    if f == "list_empty":
        return [a, np.array([], dtype=int)]
    return np.array([], dtype=int)


class Cut:
    """An interrupt at the k-th source line."""

    def __init__(self, k):
        self.k = k

    def hook(self, kind, what):
        self.k -= 1
        if self.k == 0:
            raise SimInterrupt("simulated interrupt")


class PROP(Prop):
    ID = "C09"
    RUNS = {"quick": 700, "thorough": 30000}
    BUDGET = {"quick": 200, "thorough": 820}
    RULE = ("one evaluation = one history of mesh creation, lookup, release "
            "and rebuilding in which the simulated allocator decides the "
            "addresses new meshes get (in some, two threads switched at "
            "source lines of sktopt, also on the same meshes, and in some, "
            "lookups are interrupted at a source line), each lookup compared with a direct "
            "search of the mesh; or a history of such lookups and problem "
            "set-ups followed by setting up a problem, compared with the "
            "same set-up in a fresh process; non-trivial and distinct = "
            "distinct (operations, addresses reused) with at least one "
            "lookup after a release")
    REAL = ["sktopt.mesh.utils, sktopt.mesh tasks", "scikit-fem meshes",
            "real allocator underneath"]
    STUB = ["id() as seen by sktopt.mesh"]
    ASSUME = ["an address is reused only after the object at it is gone",
              "mesh objects are not modified in place"]
    PROBES = ["lookups", "released", "setups", "thread_switches",
              "interrupted"]

    def gen(self, rng, i):
        kind = rng.choice(("look", "look", "look", "task", "threads"))
        plan = {"mode": kind,
                "addr": [rng.choice((None, 0, 0, 0, 1, 2))
                         for _ in range(rng.randint(1, 6))]}
        if kind == "threads":
            plan["jobs"] = [self.gen_ops(rng, rng.randint(2, 8))
                            for _ in range(rng.choice((2, 3)))]
            # meshes that every thread looks at
            plan["shared"] = [gen_mesh(rng)
                              for _ in range(rng.choice((0, 1, 1, 2)))]
            for j in plan["jobs"]:
                for k in range(len(j) + 1):
                    if plan["shared"] and rng.random() < 0.5:
                        j.insert(rng.randint(0, len(j)), [
                            "look", 10 + rng.randrange(len(plan["shared"])),
                            gen_nodes(rng)])
            plan["lines"] = sorted(
                [int(rng.random() ** 2 * 1500), rng.randrange(3)]
                for _ in range(int(2 ** (rng.random() * 7))))
        else:
            plan["ops"] = self.gen_ops(rng, rng.randint(3, 30))
            if rng.random() < 0.5:
                # lookups cut short by an interrupt at a source line
                for o in plan["ops"]:
                    if o[0] == "look" and rng.random() < 0.5:
                        o.append(int(2 ** (rng.random() * 8)))
        if kind == "task":
            specs = [W.gen_spec(rng, iters=2)["task"] for _ in range(2)]
            plan["before"] = [specs[rng.randrange(2)]
                              for _ in range(rng.randint(0, 3))]
            plan["keep"] = [rng.random() < 0.3 for _ in plan["before"]]
            plan["task"] = rng.choice(specs)
        return plan

    def gen_ops(self, rng, n):
        ops = []
        known = {}
        for _ in range(n):
            r = rng.random()
            s = rng.randrange(3)
            if r < 0.35 or not known:
                m = gen_mesh(rng)
                if known and rng.random() < 0.6:
                    # the same shape again, numbered differently
                    m = dict(rng.choice(sorted(
                        known.values(), key=repr)),
                        seed=rng.randint(1, 10 ** 6))
                ops.append(["mesh", s, m])
                known[s] = m
            elif r < 0.45:
                ops.append(["free", s])
                known.pop(s, None)
            elif r < 0.5:
                ops.append(["gc"])
            elif r < 0.56:
                ops.append(["copy", s, rng.choice(sorted(known)),
                            rng.choice(("same", "copy", "translated",
                                        "renumbered", "half"))])
            else:
                ops.append(["look", s, gen_nodes(rng)])
        return ops

    def run(self, plan, stats):
        want = None
        if plan["mode"] == "task":
            want = in_child(lambda: sets(W.make_task(plan["task"])))
        with Sim(clock=Clock((1e-3,)), addresses=plan["addr"]) as sim:
            addr = sim.addresses
            if plan["mode"] == "threads":
                self.threads(plan, stats)
            else:
                self.history(plan["ops"], stats, "")
            if plan["mode"] == "task":
                kept = []
                for t, k in zip(plan["before"], plan["keep"]):
                    x = W.must("earlier set-up", W.make_task, t)
                    if k:
                        kept.append(x)
                    del x
                    stats.add("setups")
                got = sets(W.must("set-up", W.make_task, plan["task"]))
                for k in want:
                    if not np.array_equal(want[k], got[k]):
                        raise Violation(
                            "setup-differs",
                            f"{k}: {got[k].tolist()[:20]} instead of "
                            f"{want[k].tolist()[:20]}")
        stats.add("addresses_reused", addr.reused)
        ops = plan.get("ops") or sum(plan["jobs"], [])
        if plan["mode"] == "task" or self.after_release:
            stats.seen("nontrivial", D.sig(
                [(o[0],) + tuple(o[1:2]) for o in ops], addr.reused,
                plan.get("task")))

    def threads(self, plan, stats):
        shared = {10 + i: make_mesh(m)
                  for i, m in enumerate(plan.get("shared", ()))}
        jobs = [lambda j=j, i=i: self.history(j, stats, f"thread {i} ",
                                              dict(shared))
                for i, j in enumerate(plan["jobs"])]
        sched = Threads(jobs, plan["lines"])
        with Lines(sched.hook, W.S):
            sched.run()
        stats.add("thread_switches", sched.taken)
        for i, e in sorted(sched.errors.items()):
            raise e

    after_release = False

    def history(self, ops, stats, who, slots=None):
        look = W.S.mesh.utils.get_elements_by_nodes
        slots, given, released = slots or {}, [], False
        for n, op in enumerate(ops):
            if op[0] == "mesh":
                if op[1] in slots:
                    released = True
                    stats.add("released")
                slots[op[1]] = make_mesh(op[2])
            elif op[0] == "free":
                if slots.pop(op[1], None) is not None:
                    released = True
                    stats.add("released")
            elif op[0] == "gc":
                gc.collect()
            elif op[0] == "copy":
                src = slots.get(op[2])
                if src is not None:
                    slots[op[1]] = derive(src, op[3])
                    del src
            else:
                mesh = slots.get(op[1])
                if mesh is None:
                    continue
                nodes = make_nodes(op[2], mesh)
                keep = [np.copy(x) for x in (
                    nodes if isinstance(nodes, list) else [nodes])]
                try:
                    if len(op) > 3:
                        with Lines(Cut(op[3]).hook, W.S):
                            got = look(mesh, nodes)
                    else:
                        got = look(mesh, nodes)
                except SimInterrupt:
                    stats.add("interrupted")
                    self.after_release = True
                    del mesh
                    continue
                except Exception as e:
                    raise Violation("unexpected-error",
                                    f"{who}op {n} {op}: "
                                    f"{type(e).__name__}: {e}") from e
                stats.add("lookups")
                exp = brute(mesh, nodes)
                g = np.asarray(got)
                if g.ndim != 1 or not np.array_equal(g, exp):
                    raise Violation(
                        "wrong-elements",
                        f"{who}op {n} {op}: {g.tolist()} instead of "
                        f"{exp.tolist()}")
                for a, b in zip(keep, nodes if isinstance(nodes, list)
                                else [nodes]):
                    if not np.array_equal(a, b):
                        raise Violation("input-changed", f"{who}op {n} {op}")
                for old, cp in given:
                    if not np.array_equal(old, cp):
                        raise Violation("earlier-result-changed",
                                        f"{who}op {n} {op}")
                given.append((got, np.copy(got)))
                if released:
                    self.after_release = True
                if op[2]["seed"] % 5 == 0 and g.size and g.flags.writeable:
                    got[0] = -1         # the caller may do what it likes
                    given.pop()
                del mesh

    def shrink(self, plan):
        if plan["mode"] == "threads":
            for i, j in enumerate(plan["jobs"]):
                if len(plan["jobs"]) > 1:
                    yield dict(plan, jobs=plan["jobs"][:i]
                               + plan["jobs"][i + 1:])
                for k in range(len(j)):
                    yield dict(plan, jobs=plan["jobs"][:i] + [
                        j[:k] + j[k + 1:]] + plan["jobs"][i + 1:])
            sw = plan["lines"]
            for m in (len(sw) // 2, len(sw) // 4, 1):
                for a in range(0, len(sw), max(1, m)):
                    yield dict(plan, lines=sw[:a] + sw[a + m:])
            return
        ops = plan["ops"]
        for m in (len(ops) // 2, len(ops) // 4):
            if m > 1:
                for a in range(0, len(ops), m):
                    yield dict(plan, ops=ops[:a] + ops[a + m:])
        yield from D.shrink_list(ops, "ops", plan)
        if plan["mode"] == "task":
            for i in range(len(plan["before"])):
                yield dict(plan, before=plan["before"][:i]
                           + plan["before"][i + 1:],
                           keep=plan["keep"][:i] + plan["keep"][i + 1:])
        if len(plan["addr"]) > 1:
            yield dict(plan, addr=[0])


def derive(src, how):
    import dataclasses
    if how == "same":
        return src
    if how == "copy":
        return dataclasses.replace(src)
    if how == "translated":
        return src.translated((1.0, 0.0, 0.0))
    if how == "half":
        # fewer elements over the same nodes
        return type(src)(src.p, np.ascontiguousarray(
            src.t[:, :max(1, src.t.shape[1] // 2)]))
    return type(src)(src.p, np.ascontiguousarray(src.t[:, ::-1]))


def sets(t):
    out = {}
    for k in ("design_elements", "dirichlet_elements", "neumann_elements",
              "robin_elements", "fixed_elements",
              "dirichlet_neumann_elements"):
        v = getattr(t, k, None)
        out[k] = np.array([] if v is None else v, dtype=int)
    return out
