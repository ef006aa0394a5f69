"""C02: a killed or stopped run resumes to the uninterrupted result."""
from .. import drive as D
from .. import world as W
from ..core import Prop, Violation
from ..seams import Clock, Sim


class PROP(Prop):
    ID = "C02"
    RUNS = {"quick": 240, "thorough": 7000}
    BUDGET = {"quick": 240, "thorough": 820}
    RULE = ("one evaluation = one directory history: one to four process "
            "lives, each ended by a crash at a drawn disk operation (before, "
            "torn, after; optionally with power loss), by a dead solver call, "
            "or by stopping between calls, each restarted (latest, explicit "
            "earlier checkpoint, or fresh when no checkpoint exists), then a "
            "fault-free restart run to the end and compared with the "
            "uninterrupted run; non-trivial and distinct = distinct "
            "(physics, optimizer, iterations reached at each death) with at "
            "least one restart from a checkpoint on non-uniform densities")
    REAL, STUB = D.RUN_REAL, D.RUN_STUB
    ASSUME = ["crash model: completed writes survive a process kill; power "
              "loss may also drop data not fsynced, directory operations "
              "stay ordered"]
    PROBES = ["restarts", "restart_explicit", "crashes", "double_crash"]

    def gen(self, rng, i):
        spec = W.gen_spec(rng)
        if rng.random() < 0.3:
            spec = D.gen_conv(rng, spec)
        lives = []
        for n in range(rng.choice((1, 1, 2, 2, 3, 4))):
            life = {"calls": D.gen_calls(rng, spec["iters"]),
                    "start": "restart", "faults": [], "solver": []}
            r = rng.random()
            if r < 0.70:
                life["faults"] = [D.gen_disk_fault(rng)]
                if rng.random() < 0.3:
                    life["power"] = [round(rng.random(), 2)
                                     for _ in range(rng.randint(1, 3))]
            elif r < 0.80:
                life["solver"] = [{"pos": round(rng.random(), 3),
                                   "act": rng.choice(("memory", "raise"))}]
            if n and rng.random() < 0.25:
                life["start"] = round(rng.random(), 3)   # explicit checkpoint
            lives.append(life)
        return {"spec": spec, "lives": lives,
                "final": "restart" if rng.random() < 0.75
                else round(rng.random(), 3),
                "order": rng.choice(("asc", "desc", "shuffle"))}

    def run(self, plan, stats):
        spec, ref = plan["spec"], W.ref(plan["spec"])
        deaths, from_ck = [], 0
        with Sim(clock=Clock((1e-3,))) as sim:
            sim.disk.list_order = order(plan["order"])
            dst = sim.path("r")
            lives = plan["lives"] + [
                {"start": plan["final"], "calls": [["run"]], "last": True}]
            prev_crashed = False
            for n, life in enumerate(lives):
                have = W.checkpoints(dst, strict=False)
                D.check_rho(have, ref, f"before life {n}")
                start, base = "fresh", 0
                if have:
                    if life["start"] == "restart":
                        start, base = "restart", max(have)
                    else:
                        ks = sorted(have)
                        base = ks[min(int(life["start"] * len(ks)),
                                      len(ks) - 1)]
                        start = base
                        stats.add("restart_explicit")
                    stats.add("restarts")
                    from_ck += 1
                marks = []

                def after(o, call):
                    marks.append(call)
                    cur = base
                    for c in marks:
                        cur = ref.last if c[0] == "run" else min(
                            ref.last, cur + max(0, c[1]))
                    what = f"life {n} ({start}) after {marks}"
                    ck = W.checkpoints(dst, strict=False)
                    if cur > base and cur not in ck:
                        raise Violation(
                            "iteration-skipped",
                            f"{what}: expected to be at {cur}, snapshots "
                            f"{sorted(ck)}")
                    if cur not in have and any(
                            k > cur and k not in have for k in ck):
                        raise Violation(
                            "iteration-skipped",
                            f"{what}: expected to be at {cur}, snapshots "
                            f"{sorted(ck)}")
                    D.check_rho(ck, ref, what)
                    D.check_hist(o.recorder, ref, cur, what)

                left = max(1, spec["iters"] - base) / spec["iters"]
                out = D.live(
                    sim, spec, dst, start, life["calls"],
                    faults=life.get("faults", ()), power=life.get("power"),
                    solver=life.get("solver", ()), after_call=after,
                    nops=10 + ref.ops * left, nsolves=ref.solves * left)
                got = W.checkpoints(dst, strict=False)
                if life.get("last"):
                    D.check_final(dst, out.opt, ref, "after recovery")
                if out.how != "ok":
                    stats.add("crashes" if out.how == "crash" else "failures")
                    if prev_crashed:
                        stats.add("double_crash")
                    prev_crashed = True
                else:
                    prev_crashed = False
                if have and start != "fresh" and got and \
                        max(got) < max(have):
                    raise Violation(
                        "progress-lost",
                        f"life {n}: latest checkpoint went from {max(have)} "
                        f"to {max(got)}")
                deaths.append((start == "fresh", base, max(got, default=0),
                               out.how))
                sim.reboot()
            W.count_fired(sim, stats)
        if from_ck and D.nontrivial(ref) and any(
                b < ref.last for _, b, _, _ in deaths[1:]):
            stats.seen("nontrivial", D.sig(
                spec["task"]["kind"], spec["opt"], deaths))

    def shrink(self, plan):
        ls = plan["lives"]
        for i in range(len(ls)):
            yield dict(plan, lives=ls[:i] + ls[i + 1:])
        for i, li in enumerate(ls):
            for k in ("faults", "solver"):
                if li.get(k):
                    yield dict(plan, lives=ls[:i] + [dict(li, **{k: []})]
                               + ls[i + 1:])
            if li.get("power"):
                yield dict(plan, lives=ls[:i] + [
                    {k: v for k, v in li.items() if k != "power"}]
                    + ls[i + 1:])
            for c in D.shrink_calls(li["calls"]):
                yield dict(plan, lives=ls[:i] + [dict(li, calls=c)]
                           + ls[i + 1:])
            if li["start"] != "restart":
                yield dict(plan, lives=ls[:i] + [dict(li, start="restart")]
                           + ls[i + 1:])
        if plan["final"] != "restart":
            yield dict(plan, final="restart")
        if plan["order"] != "asc":
            yield dict(plan, order="asc")
        for s in W.shrink_spec(plan["spec"]):
            yield dict(plan, spec=s)


def order(name):
    if name == "asc":
        return sorted
    if name == "desc":
        return lambda xs: sorted(xs, reverse=True)

    def shuffle(xs):
        return sorted(xs, key=lambda x: (hash_(x), x))
    return shuffle


def hash_(x):
    import zlib
    n = getattr(x, "name", x)
    return zlib.crc32(n.encode() if isinstance(n, str) else n)
