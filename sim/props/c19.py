"""C19: the final outputs describe the final state of the run."""
import os

import numpy as np

from .. import drive as D
from .. import session
from .. import world as W
from ..core import Prop, Violation
from ..seams import Clock, Sim

OUT = "cubic_top.vtu"
EDGE = 1e-9             # densities this close to one half may go either way


class PROP(Prop):
    ID = "C19"
    RUNS = {"quick": 240, "thorough": 8000}
    BUDGET = {"quick": 240, "thorough": 820}
    RULE = ("one evaluation = one directory used for several runs after "
            "another (the same problem or another one; started over, or "
            "extended by further iterations under another volume target), "
            "each lived through as a session of calls with failures, kills "
            "and restarts; whenever a run has ended, the exported final "
            "geometry is compared element by element with the final "
            "densities, the histories with the iterations done, and further "
            "calls must leave both as they are; non-trivial and distinct = "
            "distinct (problem, optimizer, runs, what happened) where part "
            "of the design domain was removed")
    REAL, STUB = D.RUN_REAL, D.RUN_STUB
    ASSUME = ["densities within 1e-9 of one half may be kept or removed"]
    PROBES = ["ends", "ends_by_convergence", "removed_elements",
              "nothing_kept", "everything_kept", "second_runs",
              "extended_runs", "calls_after_end", "kills", "failures",
              "failed_ends"]

    def gen(self, rng, i):
        runs = []
        for n in range(rng.choice((1, 2, 2, 3))):
            prev = runs[-1]["spec"] if runs else None
            how = rng.choice(("extend", "anew", "other")) if runs else "anew"
            if how == "extend":
                sp = dict(prev, iters=prev["iters"] + rng.randint(1, 3))
                sp.pop("conv", None)
                sp["vf"] = rng.choice((0.3, 0.45, 0.6, 0.9))
                if rng.random() < 0.5:
                    sp["move"] = rng.choice((0.05, 0.3, 0.6)) \
                        if sp["opt"] == "oc" else 0.08
            else:
                sp = self.spec(rng)
                if prev and how == "anew":
                    sp["task"] = prev["task"]
                    if sp["task"]["kind"] == "tet" or \
                            sp["filter"] == "helmholtz":
                        sp.update(filter="spacial", radius=1.3)
                    if sp["task"]["kind"] != "el1":
                        sp.pop("solver", None)
                        if sp["task"]["kind"].startswith("heat"):
                            sp.pop("nscale", None)
                if rng.random() < 0.25 and not sp.get("sched"):
                    sp = D.gen_conv(rng, sp)
            lives = session.gen_session(rng, sp["iters"], crash=0.3,
                                        fail=0.4)
            last = {"after": D.gen_calls(rng, 2, 2) if rng.random() < 0.6
                    else []}
            if rng.random() < 0.4:
                last["end"] = D.gen_disk_fault(
                    rng, ("eio", "enospc", "interrupt", "crash",
                          "crash_torn"), 0.0)
                last["end"].pop("pos", None)
                last["end"].update(
                    sub=rng.choice(("cubic_top", "cubic_top", "last",
                                    "histories")), nth=rng.randint(0, 5))
                last["again"] = rng.choice((["run"], ["steps", 1]))
            runs.append({"spec": sp, "how": how, "lives": lives, **last})
        return {"runs": runs}

    def spec(self, rng):
        if rng.random() < 0.3:
            sp = W.gen_spec(rng, kinds=("heat_c", "heat_a", "heat2"))
            sp["task"]["design_robin"] = True
            sp["task"].pop("keep", None)
            sp["dd"] = 1
            sp["vf"] = rng.choice((0.3, 0.45))
        else:
            sp = W.gen_spec(rng)
            if rng.random() < 0.6:
                sp["vf"] = rng.choice((0.3, 0.45, 0.5, 0.6))
        if rng.random() < 0.3 and sp["opt"] == "oc":
            sp["move"] = rng.choice((0.3, 0.6))
        return sp

    def run(self, plan, stats):
        story, removed = [], 0
        with Sim(clock=Clock((1e-3,))) as sim:
            dst = sim.path("r")
            for n, r in enumerate(plan["runs"]):
                how = r["how"]
                if how == "extend" and not W.checkpoints(dst):
                    how = "anew"
                if n:
                    stats.add("extended_runs" if how == "extend"
                              else "second_runs")
                what = f"run {n} ({how})"
                lives = [dict(li) for li in r["lives"]]
                if r.get("end"):
                    # whatever is left is hit while it ends
                    lives.append({"start": "restart", "calls": [
                        {"call": ["run"], "disk": [r["end"]]},
                        {"call": r.get("again", ["run"])}]})
                    stats.add("failed_ends")

                def on_call(o, before, c, err, done, w):
                    if err is not None:
                        stats.add("failures")
                    elif c[0] == "run" or done < before + c[1] or \
                            done >= r["spec"]["iters"]:
                        # this call brought the run to its end
                        self.ended(sim, o, r, dst, f"{what}, {w}", stats,
                                   done)

                ses = session.Session(
                    sim, r["spec"], dst, lives,
                    on_call=on_call,
                    on_death=lambda *a: stats.add("kills"),
                    anew=how != "extend" and n > 0)
                o = ses.go()
                story.append((how, ses.story))
                removed += self.ended(sim, o, r, dst, what, stats)
                was = D.tree(dst, lasting)
                for c in r["after"]:
                    D.quiet_call(o, c)
                    stats.add("calls_after_end")
                    now = D.tree(dst, lasting)
                    if now != was:
                        self.ended(sim, o, r, dst,
                                   f"{what}, after {c}", stats)
                        bad = sorted(k for k in set(was) | set(now)
                                     if was.get(k) != now.get(k)
                                     and not k.endswith(OUT))
                        if bad:
                            raise Violation(
                                "changed-after-end", f"{what}: a further "
                                f"{c} changed {bad}")
            W.count_fired(sim, stats)
        if removed:
            sp = plan["runs"][0]["spec"]
            stats.seen("nontrivial", D.sig(
                sp["task"]["kind"], sp["opt"], story))

    def ended(self, sim, o, r, dst, what, stats, last=None):
        ck = W.checkpoints(dst)
        last = max(ck) if last is None else last
        if last not in ck:
            raise Violation("snapshot-missing",
                            f"{what}: ended at {last}, have {sorted(ck)}")
        iters = r["spec"]["iters"]
        if last < iters and not r["spec"].get("conv"):
            raise Violation("iterations-missing", f"{what}: ended at {last}")
        if last < iters:
            stats.add("ends_by_convergence")
        stats.add("ends")
        h = D.hist_file(dst)
        if h is None:
            raise Violation("histories-missing", what)
        n = {k: len(v) for k, v in h.items() if len(v) != last}
        if n:
            raise Violation("histories-incomplete", f"{what}: {last} "
                            f"iterations, entries: {n}")
        x = ck[last]
        mesh = o.tsk.mesh
        design = np.asarray(o.tsk.design_elements)
        if x.size != design.size:
            raise Violation("design-set", f"{what}: {x.size} densities for "
                            f"{design.size} elements")
        keep = np.ones(mesh.nelements, bool)
        keep[design] = x > 0.5 + EDGE
        may = keep.copy()
        may[design] = x > 0.5 - EDGE
        p = os.path.join(dst, OUT)
        if not os.path.exists(p):
            if keep.any():
                raise Violation(
                    "geometry-missing", f"{what}: no {OUT}, "
                    f"{int(keep.sum())} elements are to be kept")
            stats.add("nothing_kept")
            return int((~keep).sum())
        if not may.any():
            raise Violation("stale-geometry", f"{what}: nothing is to be "
                            f"kept, {OUT} is there")
        got = cells(p, what)
        ref = {c: i for i, c in enumerate(all_cells(sim, mesh))}
        ids = [ref.get(c, -1) for c in got]
        if -1 in ids:
            raise Violation("not-an-element", f"{what}: {ids.count(-1)} of "
                            f"{len(ids)} cells are no elements of the mesh")
        if len(set(ids)) != len(ids):
            raise Violation("element-twice", what)
        have = np.zeros(mesh.nelements, bool)
        have[ids] = True
        for name, bad in (("wrongly kept", have & ~may),
                          ("missing", keep & ~have)):
            if bad.any():
                e = np.flatnonzero(bad)
                raise Violation(
                    "wrong-geometry", f"{what}: elements {e[:5].tolist()} "
                    f"of {e.size} are {name}; final densities there: "
                    f"{[dens(x, design, k) for k in e[:5]]}")
        stats.add("removed_elements", int((~have).sum()))
        if have.all():
            stats.add("everything_kept")
        return int((~have).sum())

    def shrink(self, plan):
        rs = plan["runs"]
        for i in range(len(rs)):
            if len(rs) > 1:
                yield dict(plan, runs=rs[:i] + rs[i + 1:])
        for i, r in enumerate(rs):
            def put(x):
                return dict(plan, runs=rs[:i] + [x] + rs[i + 1:])
            if r.get("end"):
                yield put({k: v for k, v in r.items() if k != "end"})
            if r["after"]:
                yield put(dict(r, after=r["after"][1:]))
            for q in session.shrink(r):
                yield put(q)
            for s in W.shrink_spec(r["spec"]):
                if r["how"] != "extend" and (
                        i + 1 == len(rs) or rs[i + 1]["how"] != "extend"):
                    yield put(dict(r, spec=s))


def lasting(rel):
    return rel == OUT or rel == "histories.npz" or rel.endswith("-rho.npz")


def dens(x, design, e):
    i = np.flatnonzero(design == e)
    return round(float(x[i[0]]), 4) if i.size else "not designable"


def cells(path, what):
    import meshio
    try:
        with D._silence():
            m = meshio.read(path)
    except Exception as e:
        raise Violation("unreadable-geometry",
                        f"{what}: {type(e).__name__}: {e}")
    out = []
    for b in m.cells:
        for c in b.data:
            out.append(key(m.points[c]))
    return out


def all_cells(sim, mesh):
    """Every element of the mesh as it looks in a file."""
    p = sim.path("whole.vtu")
    with D._silence():
        mesh.save(p)
    return cells(p, "the mesh itself")


def key(pts):
    return tuple(np.round(np.asarray(pts, float), 7).ravel() + 0.0)
