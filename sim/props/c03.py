"""C03: result files are never torn; a recorded checkpoint is never lost;
restart takes the latest one."""
import contextlib
import io
import os
import re
import shutil

import numpy as np

from .. import drive as D
from .. import world as W
from ..core import Prop, Violation
from ..seams import Clock, Sim
from ..vfs import SimCrash
from .c02 import order

ACTS = ("crash", "crash_torn", "crash_after", "eio", "enospc", "short",
        "interrupt")
STRAYS = (
    "data/000099-rho.npz.tmp", "data/000098-rho.npz.bak", "data/notes.txt",
    "data/x000050-rho.npz", "data/000097-rho.npz~", "data/.000096-rho.npz",
    "data/000095-rho.npy", "data/backup-000094-rho.npz",
    "data/000093-rho.npz.part", "data/000092-lambda.npz",
    "data/tmp0000091-rho", "histories.npz.tmp", "cfg.json.tmp",
    "data/000001-rho.npz.tmp", "data/000002-rho.npz.tmp",
    "data/000003-rho.npz.tmp", "data/old/000090-rho.npz",
)
FINAL = re.compile(r"^(.*/)?(data/\d{6,}-rho\.npz|histories\.npz|cfg\.json)$")


def load_final(sim, spec, rel):
    """Read a file that is visible under its final name, as a user would."""
    path = os.path.join(sim.disk.root, rel)
    if not os.path.isfile(path):
        return None
    name = os.path.basename(rel)
    size = os.path.getsize(path)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            if name == "cfg.json":
                W.make_cfg(spec, "x").__class__.import_from(
                    os.path.dirname(path))
                return None
            if name == "histories.npz":
                W.S.tools.HistoryCollection(
                    os.path.dirname(path)).import_histories(name)
                return None
            with np.load(path, allow_pickle=False) as z:
                out = {k: np.array(z[k]) for k in z.files}
            return out["rho_design_elements"]
    except W.HARNESS:
        raise
    except Exception as e:
        raise Violation("torn-file", f"{rel} ({size} bytes) is visible but "
                        f"does not load: {type(e).__name__}: {e}")


class PROP(Prop):
    ID = "C03"
    RUNS = {"quick": 260, "thorough": 7000}
    BUDGET = {"quick": 240, "thorough": 820}
    RULE = ("one evaluation = one directory history of one to four process "
            "lives hit by crashes, power loss, full disks, short writes, I/O "
            "errors and interrupts at drawn disk operations, beside drawn "
            "stray files; after every disk operation that touches a final "
            "name, and after every life, every visible checkpoint, history "
            "and configuration file is loaded, and compared with the first "
            "complete content recorded under that name; every restart must "
            "create exactly the iteration after the highest checkpoint; "
            "non-trivial and distinct = distinct (fault kinds and operation "
            "kinds hit, checkpoints alive at each death)")
    REAL, STUB = D.RUN_REAL, D.RUN_STUB
    ASSUME = ["crash model: completed writes survive a process kill; power "
              "loss may drop data not fsynced, directory operations stay "
              "ordered",
              "field files (.vtu), pictures and the timing plot are not "
              "result files in the sense of this property"]
    PROBES = ["restarts", "observed", "strays", "power_lives", "selection"]

    def gen(self, rng, i):
        if i % 9 == 4:
            return self.gen_select(rng)
        spec = W.gen_spec(rng)
        lives = []
        for n in range(rng.choice((1, 2, 2, 3, 4))):
            life = {"calls": D.gen_calls(rng, spec["iters"]),
                    "start": "restart",
                    "faults": [D.gen_disk_fault(rng, ACTS, 0.65)
                               for _ in range(rng.choice((1, 1, 1, 2)))]}
            for f in life["faults"]:
                if "sub" in f and rng.random() < 0.8:
                    f["sub"] = rng.choice(("rho.npz", "rho.npz", "histories",
                                           "cfg.json"))
                    f["nth"] = rng.randint(0, 9)
            if rng.random() < 0.4:
                life["power"] = [round(rng.random(), 2)
                                 for _ in range(rng.randint(1, 3))]
                if rng.random() < 0.5:
                    life["power"] = [0.0]
            if n and rng.random() < 0.25:
                life["start"] = round(rng.random(), 3)
            lives.append(life)
        return {"spec": spec, "lives": lives,
                "strays": sorted(rng.sample(STRAYS, rng.choice((0, 3, 8)))),
                "order": rng.choice(("asc", "desc", "shuffle"))}

    def gen_select(self, rng):
        big = rng.random() < 0.12
        ns = ([999998, 999999, 1000000] if big else
              rng.choice(([2, 3], [9, 10], [8, 9, 10, 11], [98, 99, 100],
                          [999, 1000], [1, 2, 3, 20], [5, 40, 7])))
        return {"select": ns, "strays": sorted(rng.sample(STRAYS, 6)),
                "order": rng.choice(("asc", "desc", "shuffle")),
                "spec": dict(W.gen_spec(rng, kinds=("el1", "heat_c")),
                             iters=3)}

    # -------------------------------------------------------------- selection
    def run_select(self, plan, stats):
        """Checkpoints with given numbers lie in the directory, listed in an
        adversarial order beside strays; a restart continues after the
        highest."""
        spec, ns = plan["spec"], plan["select"]
        ref = W.ref(spec)
        top = max(ns)
        big = dict(spec, iters=top + 3, record=50)
        with Sim(clock=Clock((1e-3,))) as sim:
            dst = sim.path("r")
            D.quiet_call(W.must("set-up", W.make_opt, spec, dst),
                         ["steps", 2])
            src = os.path.join(dst, "data", "000002-rho.npz")
            keep = sim.path("keep.npz")
            shutil.copyfile(src, keep)
            for i in W.checkpoints(dst):
                os.remove(os.path.join(dst, "data", f"{i:06d}-rho.npz"))
            for k in ns:
                shutil.copyfile(keep, os.path.join(
                    dst, "data", f"{k:06d}-rho.npz"))
            self.put_strays(sim, dst, plan, stats, keep)
            sim.disk.list_order = order(plan["order"])
            sim.reboot()
            o = W.must("restart set-up", W.make_opt, big, dst, restart=True)
            D.quiet_call(o, ["steps", 1])
            got = set(W.checkpoints(dst))
            if got != set(ns) | {top + 1}:
                raise Violation(
                    "wrong-checkpoint",
                    f"checkpoints {ns} and {plan['strays']}: one step after "
                    f"restart created {sorted(got - set(ns))}, expected "
                    f"{top + 1}")
        stats.add("selection")
        stats.seen("nontrivial", D.sig("select", ns, plan["order"],
                                       plan["strays"]))

    def put_strays(self, sim, dst, plan, stats, like=None):
        for s in plan["strays"]:
            p = os.path.join(dst, s)
            if os.path.exists(p) or not os.path.isdir(dst):
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if like is not None and len(s) % 2:
                shutil.copyfile(like, p)
            else:
                with open(p, "wb") as f:
                    f.write(b"PK\x03\x04 partial" if len(s) % 3 else b"")
            stats.add("strays")

    # -------------------------------------------------------------------- run
    def run(self, plan, stats):
        if "select" in plan:
            return self.run_select(plan, stats)
        spec, ref = plan["spec"], W.ref(plan["spec"])
        story = []
        with Sim(clock=Clock((1e-3,))) as sim:
            sim.disk.list_order = order(plan["order"])
            dst = sim.path("r")
            first = {}                 # iteration -> recorded densities

            def look(rel, when):
                rho = load_final(sim, spec, rel)
                if rho is None:
                    return
                it = int(os.path.basename(rel).split("-")[0])
                if it in first:
                    if not W.same(rho, first[it]):
                        raise Violation(
                            "checkpoint-changed",
                            f"{when}: {rel}: {W.diff(rho, first[it])}")
                else:
                    first[it] = rho

            def observe(kind, rel):
                for part in rel.split("->"):
                    if FINAL.match(part):
                        stats.add("observed")
                        when = f"after {kind} {rel}"
                        look(part, when)
                        it = os.path.basename(part).split("-")[0]
                        if it.isdigit() and int(it) in first and not \
                                os.path.exists(os.path.join(
                                    sim.disk.root, part)):
                            raise Violation(
                                "checkpoint-lost", f"{when}: a kill at this "
                                f"point loses iteration {int(it)}")

            def audit(when):
                for i in list(first):
                    p = os.path.join(dst, "data", f"{i:06d}-rho.npz")
                    if not os.path.exists(p):
                        raise Violation("checkpoint-lost",
                                        f"{when}: iteration {i}")
                for rel in sorted(D.tree(dst, lambda r: bool(
                        FINAL.match(r)) and "old" not in r)):
                    look(os.path.join("r", rel), when)

            sim.disk.observers.append(observe)
            lives = plan["lives"] + [
                {"start": "restart", "calls": [["run"]], "last": True}]
            placed = False
            for n, life in enumerate(lives):
                have = sorted(first)
                start, base = "fresh", 0
                if have:
                    if life["start"] == "restart":
                        start, base = "restart", have[-1]
                    else:
                        start = base = have[min(
                            int(life["start"] * len(have)), len(have) - 1)]
                    stats.add("restarts")
                    if not placed:
                        self.put_strays(sim, dst, plan, stats)
                        placed = True
                calls = life["calls"]
                before = set(first)
                if start == "restart" and base < ref.last:
                    calls = [["steps", 1]] + calls

                def after(o, call):
                    if call is not calls[0] or start != "restart" \
                            or base >= ref.last:
                        return
                    new = set(first) - before
                    if new != {base + 1}:
                        raise Violation(
                            "wrong-checkpoint",
                            f"life {n}: latest checkpoint is {base}; one "
                            f"step after restart created {sorted(new)}")

                left = max(1, spec["iters"] - base) / spec["iters"]
                out = D.live(
                    sim, spec, dst, start, calls,
                    faults=life.get("faults", ()), power=life.get("power"),
                    after_call=after, nops=10 + ref.ops * left)
                audit(f"after life {n} ({out.how})")
                if out.how == "crash" and life.get("power"):
                    stats.add("power_lives")
                story.append((out.how, start == "fresh", len(first),
                              sim.disk.log[-1][0] if sim.disk.log else ""))
                if life.get("last"):
                    D.check_rho(first, ref, "after recovery")
                    if ref.last not in first:
                        raise Violation("iterations-missing",
                                        f"{sorted(first)}")
                sim.reboot()
            W.count_fired(sim, stats)
        if any(h != "ok" for h, *_ in story):
            stats.seen("nontrivial", D.sig(story, sorted(
                f["act"] for li in plan["lives"] for f in li["faults"])))

    def shrink(self, plan):
        if "select" in plan:
            for s in D.shrink_list(plan["strays"], "strays", plan):
                yield s
            ns = plan["select"]
            for i in range(len(ns)):
                if len(ns) > 1:
                    yield dict(plan, select=ns[:i] + ns[i + 1:])
            for s in W.shrink_spec(plan["spec"]):
                yield dict(plan, spec=s)
            return
        ls = plan["lives"]
        for i in range(len(ls)):
            yield dict(plan, lives=ls[:i] + ls[i + 1:])
        for i, li in enumerate(ls):
            for j in range(len(li["faults"])):
                yield dict(plan, lives=ls[:i] + [dict(
                    li, faults=li["faults"][:j] + li["faults"][j + 1:])]
                    + ls[i + 1:])
            if li.get("power"):
                yield dict(plan, lives=ls[:i] + [
                    {k: v for k, v in li.items() if k != "power"}]
                    + ls[i + 1:])
            for c in D.shrink_calls(li["calls"]):
                yield dict(plan, lives=ls[:i] + [dict(li, calls=c)]
                           + ls[i + 1:])
            if li["start"] != "restart":
                yield dict(plan, lives=ls[:i] + [dict(li, start="restart")]
                           + ls[i + 1:])
        yield from D.shrink_list(plan["strays"], "strays", plan)
        if plan["order"] != "asc":
            yield dict(plan, order="asc")
        for s in W.shrink_spec(plan["spec"]):
            yield dict(plan, spec=s)
