"""C01: any sequence of partial-run and run-to-end calls equals one run."""
import numpy as np

from .. import drive as D
from .. import world as W
from ..core import Prop, Violation
from ..seams import Clock, Sim


class PROP(Prop):
    ID = "C01"
    RUNS = {"quick": 240, "thorough": 9000}
    BUDGET = {"quick": 240, "thorough": 820}
    RULE = ("one evaluation = one simulated run driven by a drawn sequence of "
            "partial-run / run-to-end calls, compared after every call with "
            "the uninterrupted reference run; non-trivial and distinct = "
            "distinct (physics, optimizer, stopping iteration, call "
            "partition) on problems whose densities are not uniform")
    REAL, STUB = D.RUN_REAL, D.RUN_STUB
    ASSUME = ["the reference is the same code run without interruption; "
              "numerical truth of a single iteration is not judged here"]
    PROBES = ["converged_early", "nonpositive", "after_end", "overshoot"]

    def gen(self, rng, i):
        spec = W.gen_spec(rng)
        if rng.random() < 0.4:
            spec = D.gen_conv(rng, spec)
        calls = []
        n = spec["iters"]
        for _ in range(rng.randint(1, 6 if n < 9 else rng.choice((6, 20)))):
            r = rng.random()
            if r < 0.12:
                calls.append(["steps", rng.choice((0, -1, -3))])
            elif r < 0.22:
                calls.append(["run"])
            elif r < 0.30:
                calls.append(["steps", rng.choice((7, 50, 10 ** 6))])
            else:
                calls.append(["steps", rng.randint(1, rng.choice((3, max(3, n // 3))))])
        if rng.random() < 0.3:
            calls += [["run"], rng.choice((["run"], ["steps", 2]))]
        return {"spec": spec, "calls": calls,
                "clock": rng.choice(([1e-3], [1e-3, 0.0, 5.0]))}

    def run(self, plan, stats):
        spec, ref = plan["spec"], W.ref(plan["spec"])
        end = ref.last                    # converged or the budget
        with Sim(clock=Clock(tuple(plan["clock"]))) as sim:
            dst = sim.path("r")
            o = W.must("set-up", W.make_opt, spec, dst)
            cur, ended = 0, False
            for n, call in enumerate(plan["calls"] + [["run"], ["steps", 1]]):
                was = cur
                before = D.tree(dst, lambda r: r.startswith("data/")
                                or r == "histories.npz")
                D.quiet_call(o, call)
                what = f"call {n} {call} from iteration {was}"
                if call[0] == "run":
                    cur = end
                elif call[1] > 0:
                    cur = min(end, cur + call[1])
                    if was + call[1] > end and was < end:
                        stats.add("overshoot")
                else:
                    stats.add("nonpositive")
                if ended:
                    stats.add("after_end")
                ck = W.checkpoints(dst)
                D.check_rho(ck, ref, what)
                if cur and max(ck, default=0) != cur:
                    raise Violation(
                        "iteration-count",
                        f"{what}: last snapshot is {max(ck, default=0)}, "
                        f"expected {cur}")
                D.check_hist(o.recorder, ref, cur, what)
                after = D.tree(dst, lambda r: r.startswith("data/")
                               or r == "histories.npz")
                if was == cur and (ended or was < end):
                    gone = set(before) - set(after)
                    new = set(after) - set(before)
                    ch = [k for k in before if k in after
                          and k.startswith("data/")
                          and before[k] != after[k]]
                    if gone or new or ch:
                        raise Violation(
                            "idle-call-wrote",
                            f"{what}: changed {sorted(gone | new)} {ch}")
                if cur == end:
                    ended = True
            D.check_final(dst, o, ref, "at the end")
            W.count_fired(sim, stats)
        if end < spec["iters"]:
            stats.add("converged_early")
        stats.add("calls", len(plan["calls"]))
        if D.nontrivial(ref):
            stats.seen("nontrivial", D.sig(
                spec["task"]["kind"], spec["opt"], end, plan["calls"]))

    def shrink(self, plan):
        for c in D.shrink_calls(plan["calls"]):
            yield dict(plan, calls=c)
        for s in W.shrink_spec(plan["spec"]):
            yield dict(plan, spec=s)
        if plan["clock"] != [1e-3]:
            yield dict(plan, clock=[1e-3])
