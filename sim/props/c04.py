"""C04: a run without the restart option behaves as in an empty directory."""
import os
import shutil

from .. import drive as D
from .. import world as W
from ..core import Prop, Violation
from ..seams import Clock, Sim
from .c02 import order
from .c03 import ACTS

FOREIGN = ("notes.txt", "data/notes.txt", "mesh.msh", "data/my-rho.npz",
           "data/x000050-rho.npz", "data/input/000004-rho.npz",
           "results/histories.npz", "data/000007-temperature.npz",
           "paper/figure.png", "histories.csv", "data/000099-rho.npz.bak",
           "old/cfg.json", "data/12-rho.npz", "mesh_rho-2/notes.txt",
           "mesh_rho.old/info_mesh-00000001.vtu", "data.bak/000004-rho.npz",
           "histories.npz.bak", "data/histories.npz")
# outputs of an earlier run that could render images (this sandbox cannot)
STALE = ("mesh_rho/info_rho_projected-00000001.jpg",
         "mesh_rho/info_rho_projected-00000012.jpg",
         "mesh_rho/info_energy-00000003.jpg", "mesh_rho/last.jpg",
         "mesh_rho/info_mesh-00000040.vtu")
OUT = ("data/", "mesh_rho/", "histories.npz")


class PROP(Prop):
    ID = "C04"
    RUNS = {"quick": 150, "thorough": 6000}
    BUDGET = {"quick": 240, "thorough": 820}
    RULE = ("one evaluation = a directory with the leftovers of one to three "
            "earlier runs (other problems, optimizers and lengths; complete, "
            "killed, failed) and drawn foreign files, then a run without the "
            "restart option, possibly killed and restarted, compared file by "
            "file with the same run in an empty directory; non-trivial and "
            "distinct = distinct (how the earlier runs ended, physics and "
            "optimizer pairs, where the new run was killed) with at least "
            "one leftover checkpoint or history file")
    REAL, STUB = D.RUN_REAL, D.RUN_STUB
    ASSUME = ["the directory mesh_rho/ belongs to the run (its files are "
              "outputs)",
              "the claim starts once a run's set-up has returned"]
    PROBES = ["leftover_checkpoints", "leftover_histories", "restarts",
              "foreign", "stale_images",
              "ghost_restart", "setup_crashed", "long_runs"]

    def gen(self, rng, i):
        spec = W.gen_spec(rng)
        prev = []
        for n in range(rng.choice((1, 1, 2, 3))):
            r = rng.random()
            ps = spec if r < 0.35 else W.gen_spec(rng, iters=W.gen_iters(rng, 2, 9))
            if r < 0.2:
                ps = dict(ps, iters=spec["iters"] + rng.randint(1, 4))
            if r > 0.35 and rng.random() < 0.6:
                # same problem, other optimizer: stale data would fit
                ps = {k: v for k, v in dict(ps, task=spec["task"]).items()
                      if k not in ("solver", "nscale")}
                if spec["task"]["kind"] == "tet":
                    ps["filter"], ps["radius"] = "spacial", 1.3
            e = {"spec": ps, "calls": D.gen_calls(rng, ps["iters"], 2),
                 "faults": []}
            if rng.random() < 0.5:
                e["faults"] = [D.gen_disk_fault(rng, ACTS)]
            prev.append(e)
        plan = {"spec": spec, "prev": prev,
                "foreign": sorted(rng.sample(FOREIGN, rng.choice((0, 2, 6)))),
                "stale": sorted(rng.sample(STALE, rng.choice((0, 0, 1, 3)))),
                "calls": D.gen_calls(rng, spec["iters"]),
                "setup_faults": [], "faults": [],
                "ghost": rng.random() < 0.35,
                "order": rng.choice(("asc", "desc", "shuffle"))}
        if rng.random() < 0.3:
            plan["long"] = rng.choice((999999, 1000000, 12345678))
        if rng.random() < 0.3:
            plan["unused"] = rng.choice((1, 2, spec["iters"]))
        r = rng.random()
        if r < 0.2:
            plan["setup_faults"] = [{"at": rng.randint(0, 14),
                                     "act": rng.choice(D.CRASHES + (
                                         "eio",))}]
        if r > 0.5:
            plan["faults"] = [D.gen_disk_fault(rng)]
        return plan

    def run(self, plan, stats):
        spec, ref = plan["spec"], W.ref(plan["spec"])
        # the same run in an empty directory
        with Sim(clock=Clock((1e-3,))) as sim:
            clean = sim.path("c")
            o = W.must("clean set-up", W.make_opt, spec, clean)
            for c in plan["calls"]:
                D.quiet_call(o, c)
            D.quiet_call(o, ["run"])
            want = set(D.tree(clean, own))
        sig = []
        with Sim(clock=Clock((1e-3,))) as sim:
            sim.disk.list_order = order(plan["order"])
            dst = sim.path("r")
            for e in plan["prev"]:
                out = D.live(sim, e["spec"], dst, "fresh", e["calls"],
                             faults=e["faults"], nops=60)
                sig.append((e["spec"]["task"]["kind"], e["spec"]["opt"],
                            out.how, len(W.checkpoints(dst, strict=False))))
                sim.reboot()
            old = W.checkpoints(dst, strict=False)
            if plan.get("long") and old:
                # an earlier run that went very far
                shutil.copyfile(
                    f"{dst}/data/{max(old):06d}-rho.npz",
                    f"{dst}/data/{plan['long']:06d}-rho.npz")
                old = W.checkpoints(dst, strict=False)
                stats.add("long_runs")
            # a checkpoint to resume from, named but not asked for
            over = {"restart_from": plan["unused"]} \
                if plan.get("unused") else {}
            if old:
                stats.add("leftover_checkpoints")
            if os.path.exists(os.path.join(dst, "histories.npz")):
                stats.add("leftover_histories")
            foreign = {}
            for f in plan["foreign"]:
                p = os.path.join(dst, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as fh:
                    fh.write(b"foreign " + f.encode())
                foreign[f] = b"foreign " + f.encode()
                stats.add("foreign")
            for f in plan.get("stale", ()):
                p = os.path.join(dst, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as fh:
                    fh.write(b"stale")
                stats.add("stale_images")

            # ------------------------------------------------- the fresh run
            if plan["setup_faults"]:
                out = D.live(sim, spec, dst, "fresh", [],
                             faults=plan["setup_faults"], **over)
                if out.how != "ok":
                    stats.add("setup_crashed")
                    sig.append(("setup", out.how))
                self.check_foreign(dst, foreign)
                sim.reboot()
            done = []
            out = D.live(sim, spec, dst, "fresh", [], **over)
            o = out.opt
            have = W.checkpoints(dst)
            if have:
                raise Violation("leftover-visible",
                                f"set-up of a fresh run left checkpoints "
                                f"{sorted(have)} of an earlier run")
            if D.hist_file(dst):
                raise Violation("leftover-visible",
                                "set-up of a fresh run left histories of an "
                                "earlier run")
            if plan["ghost"] and old:
                # killed right after set-up: nothing to resume from
                sim.reboot()
                stats.add("ghost_restart")
                for start in ["restart"] + sorted(old)[-1:]:
                    self.ghost(sim, spec, dst, start, old)
                out = D.live(sim, spec, dst, "fresh", [], **over)
                o = out.opt
            sim.disk.arm(D.resolve(plan["faults"], ref.ops))
            crashed = False
            try:
                for c in plan["calls"] + [["run"]]:
                    with D._silence():
                        D.make_call(o, c)
                    done.append(c)
            except D.SimCrash:
                crashed = True
                sim.reboot()
            except W.HARNESS:
                raise
            except Exception as e:
                raise Violation("unexpected-error",
                                f"fresh run in a used directory: call "
                                f"{len(done)}: {type(e).__name__}: {e}")
            finally:
                sim.disk.disarm()
            ck = W.checkpoints(dst)
            D.check_rho(ck, ref, "fresh run in a used directory")
            if crashed:
                sig.append(("crash", max(ck, default=0)))
                how = "restart" if ck else "fresh"
                if not ck and old and plan["ghost"]:
                    self.ghost(sim, spec, dst, "restart", old)
                stats.add("restarts")
                out = D.live(sim, spec, dst, how, [["run"]])
                D.check_final(dst, out.opt, ref, "restarted in a used "
                              "directory")
            else:
                D.check_final(dst, o, ref, "fresh run in a used directory")
                got = set(D.tree(dst, own)) - {
                    f for f in foreign}
                if got != want:
                    raise Violation(
                        "outputs-differ",
                        f"missing {sorted(want - got)[:6]} additional "
                        f"{sorted(got - want)[:6]}")
            self.check_foreign(dst, foreign)
            W.count_fired(sim, stats)
        if old:
            stats.seen("nontrivial", D.sig(spec["task"]["kind"], spec["opt"],
                                           sig))

    def ghost(self, sim, spec, dst, start, old):
        """Restarting now must not resume from an earlier run's checkpoint:
        it may only fail, or begin at iteration 1 without history entries."""
        try:
            with D._silence():
                o = W.make_opt(spec, dst, **D.start_over(spec, start, dst))
                o.optimize_steps(1)
        except W.HARNESS:
            raise
        except Exception:
            if W.checkpoints(dst):
                raise Violation("resumed-leftover",
                                f"start={start}: {sorted(W.checkpoints(dst))}")
            sim.reboot()
            return
        ck = set(W.checkpoints(dst))
        n = {len(h.data) for h in o.recorder.histories.values()}
        if ck - {1} or n - {1}:
            raise Violation(
                "resumed-leftover",
                f"start={start} right after a fresh set-up created "
                f"{sorted(ck)} and {sorted(n)} history entries; the earlier "
                f"run had {sorted(old)}")
        sim.reboot()

    def check_foreign(self, dst, foreign):
        for f, b in foreign.items():
            p = os.path.join(dst, f)
            if not os.path.exists(p):
                raise Violation("foreign-file", f"{f} was removed")
            with open(p, "rb") as fh:
                if fh.read() != b:
                    raise Violation("foreign-file", f"{f} was changed")

    def shrink(self, plan):
        yield from D.shrink_list(plan["prev"], "prev", plan)
        yield from D.shrink_list(plan["foreign"], "foreign", plan)
        if plan.get("stale"):
            yield from D.shrink_list(plan["stale"], "stale", plan)
        for k in ("faults", "setup_faults"):
            if plan[k]:
                yield dict(plan, **{k: []})
        for k in ("long", "unused"):
            if plan.get(k):
                yield dict(plan, **{k: None})
        if plan["ghost"]:
            yield dict(plan, ghost=False)
        for c in D.shrink_calls(plan["calls"]):
            yield dict(plan, calls=c)
        for i, e in enumerate(plan["prev"]):
            p = plan["prev"]
            if e["faults"]:
                yield dict(plan, prev=p[:i] + [dict(e, faults=[])] + p[i+1:])
            for c in D.shrink_calls(e["calls"]):
                yield dict(plan, prev=p[:i] + [dict(e, calls=c)] + p[i+1:])
        if plan["order"] != "asc":
            yield dict(plan, order="asc")
        for s in W.shrink_spec(plan["spec"]):
            yield dict(plan, spec=s)


def own(rel):
    return rel.startswith(OUT) and not rel.startswith("data/input") \
        and not rel.endswith(".tmp")
