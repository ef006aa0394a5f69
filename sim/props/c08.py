"""C08: several optimizers in one process do not influence one another."""
import contextlib
import dataclasses
import gc
import os

from .. import drive as D
from .. import world as W
from ..core import Prop, Violation
from ..sched import Lines, Nested, Threads
from ..seams import Clock, Sim
from .c06 import diff_settings, settings

DIRS = (("r", "r1", "r10"), ("run-of-today", "run-of-today-2", "run"),
        ("a b", "a", "\u03bb"))
VARY = ("vf", "radius", "move", "psteps", "record", "sf", "dd", "filter",
        "rho_min", "pct", "iters", "rsteps", "opt", "task", "nothing")


def vary(rng, spec):
    """A second specification that shares most of the first."""
    s = dict(spec)
    k = rng.choice(VARY)
    if k == "vf":
        s["vf"] = 0.5
    elif k == "radius":
        s["radius"] = spec["radius"] * 1.3
    elif k == "move":
        s["move"] = 0.04
    elif k == "psteps":
        s["psteps"] = 2
    elif k == "record":
        s["record"] = 50
    elif k in ("sf", "dd"):
        s[k] = 0 if spec.get(k) else 1
    elif k == "iters":
        s["iters"] = spec["iters"] + 1
    elif k == "rsteps":
        s["rsteps"] = 2
    elif k == "pct":
        s["pct"] = 80.0
    elif k == "rho_min":
        s["rho_min"] = 0.05
    elif k == "opt":
        return W.gen_spec(rng, iters=spec["iters"], task=spec["task"])
    elif k == "task":
        t = dict(spec["task"])
        if "n" in t:
            t["n"] = [t["n"][0], t["n"][1], 3 - min(2, t["n"][2])]
        t["load"] = 2.0
        s["task"] = t
    return s


def gen_job(rng, iters):
    left, out = iters, []
    while left > 0:
        n = rng.randint(1, 3)
        if rng.random() < 0.35:
            out.append(["run"])
            break
        out.append(["steps", n])
        left -= n
    else:
        if rng.random() < 0.7:
            out.append(["run"])
    return out


class PROP(Prop):
    ID = "C08"
    RUNS = {"quick": 170, "thorough": 5000}
    BUDGET = {"quick": 240, "thorough": 820}
    RULE = ("one evaluation = two or three optimizers in one process whose "
            "construction, set-up and run calls are interleaved by a drawn "
            "schedule: alternating calls, calls nested inside another "
            "optimizer's call at a drawn seam operation, or one thread per "
            "optimizer with the running thread switched at drawn seam "
            "operations, or one after another with earlier ones dropped and "
            "their addresses reused; compared with each optimizer alone in a "
            "fresh "
            "process; non-trivial and distinct = distinct (mode, physics and "
            "optimizer of each, sequence of switch points taken) with at "
            "least one switch taken")
    REAL = D.RUN_REAL + ["threads (real, one released at a time)"]
    STUB = D.RUN_STUB
    ASSUME = ["threads switch at file, solver, filter and clock operations or "
              "at source lines of sktopt, not between arbitrary bytecodes",
              "each optimizer has its own problem object and directory; "
              "meshes, bases and configuration objects may be shared"]
    PROBES = ["switches_threads", "switches_nested", "switches_calls",
              "switches_lines", "switches_turns", "addresses_reused",
              "shared_basis", "shared_config", "failed_calls"]

    def gen(self, rng, i):
        first = W.gen_spec(rng, iters=W.gen_iters(rng, 2, 4))
        specs = [first]
        for _ in range(rng.choice((1, 1, 1, 2))):
            specs.append(vary(rng, first) if rng.random() < 0.75
                         else W.gen_spec(rng, iters=W.gen_iters(rng, 2, 4)))
        mode = rng.choice(("calls", "nested", "nested", "threads", "threads",
                           "threads", "turns"))
        plan = {"specs": specs, "mode": mode,
                "jobs": [gen_job(rng, s["iters"]) for s in specs],
                "env": rng.choice((None, None, "scaled", "physical")),
                "dirs": rng.choice((0, 0, 1, 2)),
                "share": rng.choice(("", "", "basis", "config"))}
        if mode == "turns":
            plan["share"] = ""
            plan["drop"] = [rng.random() < 0.7 for _ in specs]
            plan["addr"] = [rng.choice((None, 0, 0, 1, 2)) for _ in range(9)]
            return plan
        n = sum(len(j) + 2 for j in plan["jobs"])
        if mode == "calls":
            plan["order"] = [rng.randrange(len(specs)) for _ in range(3 * n)]
        else:
            m = int(2 ** (rng.random() * 7))
            if mode == "threads" and rng.random() < 0.5:
                # switch at lines: gaps in lines instead of positions
                plan["lines"] = sorted(
                    [int(rng.random() ** 2 * 30000), rng.randrange(len(specs))]
                    for _ in range(m * 4))
            else:
                plan["switches"] = sorted(
                    [round(rng.random(), 4), rng.randrange(len(specs))]
                    for _ in range(m))
        if rng.random() < 0.25:
            plan["fault"] = [{"pos": round(rng.random(), 3),
                              "act": rng.choice(("raise", "memory"))}]
        return plan

    def run(self, plan, stats):
        if plan["mode"] == "turns":
            return self.turns(plan, stats)
        specs = plan["specs"]
        refs = [W.ref(s) for s in specs]
        n = len(specs)
        names = DIRS[plan.get("dirs", 0)]
        total = sum(r.ops + r.solves + r.filters + r.clocks for r in refs)
        at = [[int(p * total), t] for p, t in plan.get("switches", ())]
        lines = plan.get("lines")
        if lines is not None:
            at = lines
        with Sim(clock=Clock((1e-3,))) as sim:
            if plan["env"]:
                os.environ["SCITOPT_SENSITIVITY_MODE"] = plan["env"]
            before = settings()
            pool = {} if plan["share"] == "basis" else None
            tasks = [W.make_task(s["task"], pool) for s in specs]
            if pool is not None and len({id(t.basis) for t in tasks}) < n:
                stats.add("shared_basis")
            cfgs = [None] * n
            for i, s in enumerate(specs):
                dst = sim.path(names[i])
                same = [j for j in range(i) if {
                    k: v for k, v in specs[j].items() if k != "task"} == {
                    k: v for k, v in s.items() if k != "task"}]
                if plan["share"] == "config" and same:
                    cfgs[i] = dataclasses.replace(cfgs[same[0]], dst_path=dst)
                    stats.add("shared_config")
                else:
                    cfgs[i] = W.make_cfg(s, dst)
            opts = [None] * n
            failed = []
            what = [""] * n

            def step(i, call):
                def go():
                    what[i] = f"optimizer {i} {call}"
                    if call[0] == "new":
                        opts[i] = W.opt_class(specs[i])(cfgs[i], tasks[i])
                    elif call[0] == "param":
                        opts[i].parameterize()
                    else:
                        try:
                            D.make_call(opts[i], call)
                        except W.HARNESS:
                            raise
                        except Exception as e:
                            if "simulated" not in str(e) or len(failed) >= \
                                    len(plan.get("fault", ())):
                                raise
                            failed.append((i, call))
                            D.make_call(opts[i], ["run"])
                return go

            jobs = [[["new"], ["param"]] + [list(c) for c in j] + [["run"]]
                    for j in plan["jobs"]]
            calls = [[step(i, c) for c in j] for i, j in enumerate(jobs)]
            if plan["mode"] == "calls":
                sched = Nested(calls, [])
            elif plan["mode"] == "nested":
                sched = Nested(calls, at)
            else:
                def job(i):
                    def f():
                        for c in calls[i]:
                            c()
                    return f
                sched = Threads([job(i) for i in range(n)], at)

            def mine(op, rel):
                i = sched.who()
                if i is None:
                    return
                for part in rel.split("->"):
                    if part != names[i] and not part.startswith(
                            names[i] + os.sep):
                        raise Violation(
                            "wrote-elsewhere",
                            f"optimizer {i} ({names[i]}): {op} {rel}")
            sim.disk.observers.append(mine)
            sim.disk.watch_outside = True
            sim.solver.arm(D.resolve(plan.get("fault", ()),
                                     sum(r.solves for r in refs)))
            grain = contextlib.nullcontext()
            if lines is not None:
                grain = Lines(sched.hook, W.S)
            else:
                for x in (sim.disk, sim.solver, sim.filter, sim.clock):
                    x.yield_hook = sched.hook
            try:
                with D._silence(), grain:
                    if plan["mode"] == "calls":
                        idle = []
                        for k in plan["order"] + list(range(n)) * 20:
                            if calls_left(sched, k):
                                sched.call(k)
                                if idle[-1:] != [k]:
                                    sched.taken += 1
                                    sched.trace.append(k)
                                idle.append(k)
                                if settings() != before:
                                    raise Violation(
                                        "settings-changed", f"{what[k]}: " +
                                        diff_settings(before, settings()))
                    else:
                        sched.run()
            except W.HARNESS:
                raise
            except Exception as e:
                raise Violation("unexpected-error",
                                f"{plan['mode']}: {what}: "
                                f"{type(e).__name__}: {e}") from e
            finally:
                for x in (sim.disk, sim.solver, sim.filter, sim.clock):
                    x.yield_hook = None
                sim.solver.disarm()
                sim.disk.observers.remove(mine)
            for i, e in sorted(getattr(sched, "errors", {}).items()):
                if isinstance(e, Violation):
                    raise e
                raise Violation("unexpected-error", f"thread {what[i]}: "
                                f"{type(e).__name__}: {e}")
            if settings() != before:
                raise Violation("settings-changed",
                                "all optimizers are idle: " +
                                diff_settings(before, settings()))
            if sim.disk.outside:
                raise Violation("wrote-elsewhere", sim.disk.outside[0])
            for i, (s, r) in enumerate(zip(specs, refs)):
                w = f"optimizer {i} of {n} ({plan['mode']})"
                D.check_final(sim.path(names[i]), opts[i], r, w)
                D.check_fields(sim.path(names[i]), r, w)
            extra = set(os.listdir(sim.root)) - set(names[:n])
            if extra:
                raise Violation("wrote-elsewhere", f"{sorted(extra)}")
            W.count_fired(sim, stats)
            if failed:
                stats.add("failed_calls", len(failed))
        stats.add("switches_" + ("lines" if lines is not None
                                 else plan["mode"]), sched.taken)
        if lines is not None:
            stats.add("lines_seen", grain.n)
            stats.add("lines_runs")
        if sched.taken and any(D.nontrivial(r) for r in refs):
            stats.seen("nontrivial", D.sig(
                plan["mode"], [(s["task"]["kind"], s["opt"]) for s in specs],
                sched.trace))

    def turns(self, plan, stats):
        """One optimizer after another; what is no longer needed is dropped,
        so that later objects may be put where earlier ones were."""
        specs = plan["specs"]
        refs = [W.ref(s) for s in specs]
        names = DIRS[plan.get("dirs", 0)]
        kept = []
        with Sim(clock=Clock((1e-3,)), addresses=plan["addr"]) as sim:
            if plan["env"]:
                os.environ["SCITOPT_SENSITIVITY_MODE"] = plan["env"]
            before = settings()
            for i, s in enumerate(specs):
                w = f"optimizer {i} of {len(specs)} (turns)"
                dst = sim.path(names[i])
                t = W.make_task(s["task"])
                o = W.must(w, W.opt_class(s), W.make_cfg(s, dst), t)
                W.must(w, o.parameterize)
                for c in plan["jobs"][i] + [["run"]]:
                    W.must(f"{w} {c}", D.make_call, o, c)
                D.check_final(dst, o, refs[i], w)
                D.check_fields(dst, refs[i], w)
                if settings() != before:
                    raise Violation("settings-changed", f"{w}: " +
                                    diff_settings(before, settings()))
                if plan["drop"][i]:
                    stats.add("dropped")
                else:
                    kept.append((i, o, t))
                del o, t
                gc.collect()
            for i, o, t in kept:
                D.check_final(sim.path(names[i]), o, refs[i],
                              f"optimizer {i} (turns) afterwards")
            stats.add("addresses_reused", sim.addresses.reused)
            W.count_fired(sim, stats)
        stats.add("switches_turns", len(specs) - 1)
        if any(D.nontrivial(r) for r in refs):
            stats.seen("nontrivial", D.sig(
                "turns", [(s["task"]["kind"], s["opt"]) for s in specs],
                plan["drop"]))

    def shrink(self, plan):
        key = "lines" if plan.get("lines") is not None else "switches"
        sw = plan.get(key)
        if sw:
            for m in (len(sw) // 2, len(sw) // 4):
                if m:
                    for a in range(0, len(sw), m):
                        yield dict(plan, **{key: sw[:a] + sw[a + m:]})
            if len(sw) <= 12:
                yield from D.shrink_list(sw, key, plan)
        n = len(plan["specs"])
        if n > 1:
            for i in range(n):
                p = dict(plan, specs=plan["specs"][:i] + plan["specs"][i+1:],
                         jobs=plan["jobs"][:i] + plan["jobs"][i + 1:])
                if "drop" in p:
                    p["drop"] = plan["drop"][:i] + plan["drop"][i + 1:]
                if "order" in p:
                    p["order"] = [k - (k > i) for k in plan["order"]
                                  if k != i]
                if sw:
                    p[key] = [[a, t - (t > i)] for a, t in sw]
                yield p
        if plan.get("dirs"):
            yield dict(plan, dirs=0)
        for k in ("fault", "env", "share"):
            if plan.get(k):
                yield {a: b for a, b in plan.items() if a != k} \
                    if k == "fault" else dict(plan, **{
                        k: None if k == "env" else ""})
        for i, j in enumerate(plan["jobs"]):
            for c in D.shrink_calls(j):
                yield dict(plan, jobs=plan["jobs"][:i] + [c]
                           + plan["jobs"][i + 1:])
        for i, s in enumerate(plan["specs"]):
            for s2 in W.shrink_spec(s):
                yield dict(plan, specs=plan["specs"][:i] + [s2]
                           + plan["specs"][i + 1:])


def calls_left(sched, k):
    return k < len(sched.jobs) and bool(sched.jobs[k])
