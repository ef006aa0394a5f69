"""C16: snapshots are complete, regular and truthful."""
import os

import numpy as np

from .. import drive as D
from .. import oracle
from .. import session
from .. import world as W
from ..core import Prop, Violation, in_child
from ..seams import Clock, Sim


class PROP(Prop):
    ID = "C16"
    RUNS = {"quick": 330, "thorough": 12000}
    BUDGET = {"quick": 260, "thorough": 830}
    RULE = ("one evaluation = a drawn specification, recording count and "
            "iteration budget, lived through as a drawn session of calls "
            "with I/O, solver, filter and library failures, kills and "
            "restarts that may change the recording count; after every call "
            "and every kill the snapshots present are compared with the "
            "recording rule applied to the iterations executed so far, and "
            "their content with an undisturbed run, whose own snapshots are "
            "recomputed one iteration from the previous by a new filter, an "
            "own projection formula and a new evaluator; non-trivial and "
            "distinct = distinct (problem, optimizer, recording, session "
            "outcome) of runs whose densities vary")
    REAL = D.RUN_REAL
    STUB = D.RUN_STUB
    ASSUME = ["crash model as in C03; the field file being written at a kill "
              "or failure may be torn until its iteration is done again"]
    PROBES = ["kills", "failures", "restarts", "converged", "truth",
              "interval_above_one", "more_records_than_iterations",
              "recording_changed", "fields_compared"]

    def gen(self, rng, i):
        n = W.gen_iters(rng, 1, 9)
        spec = W.gen_spec(rng, iters=n)
        spec["record"] = rng.choice((1, 2, 3, rng.randint(1, n), n, n + 1,
                                     50))
        if rng.random() < 0.25 and n > 2:
            spec = D.gen_conv(rng, spec)
        lives = session.gen_session(rng, n, crash=0.35, fail=0.35, lib=0.12)
        for li in lives:
            if rng.random() < 0.25:
                li["over"] = {"record_times": rng.randint(1, n + 2)}
        return {"spec": spec, "lives": lives}

    def run(self, plan, stats):
        spec, ref = plan["spec"], W.ref(plan["spec"])
        in_child(lambda: truth(spec, ref))
        stats.add("truth", len(ref.rho))
        n = spec["iters"]
        st = {}
        calls = any(c.get("calls") for li in plan["lives"]
                    for c in li["calls"])
        with Sim(clock=Clock((1e-3,)), calls=calls) as sim:
            dst = sim.path("r")
            torn = set()       # field files whose iteration was cut short

            def start(o, k, how, base):
                over = (plan["lives"][k].get("over", {})
                        if k < len(plan["lives"]) else {})
                rec = over.get("record_times", spec["record"])
                if over and k:
                    stats.add("recording_changed")
                every = max(1, n // rec)
                if every > 1:
                    stats.add("interval_above_one")
                if rec > n:
                    stats.add("more_records_than_iterations")
                if how != "fresh":
                    stats.add("restarts")
                st.update(every=every, base=base, done=base, ends=set(),
                          old=set(W.checkpoints(dst, strict=False)))

            def look(hi, what, pending=0):
                """The rule, for the iterations of this life up to hi."""
                ck = W.checkpoints(dst)
                D.check_rho(ck, ref, what)
                want = {k for k in range(st["base"] + 1, hi + 1)
                        if k % st["every"] == 0 or k == 1} | st["ends"]
                if want - set(ck):
                    raise Violation(
                        "snapshot-missing", f"{what}: iterations "
                        f"{sorted(want - set(ck))} of {sorted(want)}; "
                        f"recording every {st['every']}")
                if st["old"] - set(ck):
                    raise Violation("snapshot-lost", f"{what}: "
                                    f"{sorted(st['old'] - set(ck))}")
                if max(set(ck) - st["old"], default=0) > hi + pending:
                    raise Violation(
                        "extra-iteration", f"{what}: {sorted(ck)}, only "
                        f"{hi} iterations were executed")
                fs = W.fields(dst, strict=False)
                there = {int(W.VTU.match(f).group(1)) for f in os.listdir(
                    os.path.join(dst, "mesh_rho")) if W.VTU.match(f)} \
                    if os.path.isdir(os.path.join(dst, "mesh_rho")) else set()
                bad = there - set(fs)
                if bad - torn:
                    raise Violation("unreadable-field-file",
                                    f"{what}: {sorted(bad)}")
                torn.intersection_update(bad)
                if set(ck) - there:
                    raise Violation(
                        "field-file-missing", f"{what}: iterations "
                        f"{sorted(set(ck) - there)}")
                for k in sorted(fs):
                    if k not in ref.fields:
                        raise Violation("extra-iteration",
                                        f"{what}: field file {k}")
                    for name in sorted(ref.fields[k]):
                        if name not in fs[k]:
                            raise Violation("field-missing",
                                            f"{what}: {k}: {name}")
                        a, b = fs[k][name], ref.fields[k][name]
                        if not W.same(a, b):
                            raise Violation(
                                "fields-differ", f"{what}: iteration {k}: "
                                f"{name}: {W.diff(a, b)}")
                    stats.add("fields_compared")

            def cut(at):
                """The iteration a failure or kill may have cut short."""
                d = os.path.join(dst, "mesh_rho")
                fs = W.fields(dst, strict=False)
                for f in os.listdir(d) if os.path.isdir(d) else ():
                    m = W.VTU.match(f)
                    if m and int(m.group(1)) not in fs and \
                            int(m.group(1)) in at:
                        torn.add(int(m.group(1)))

            def call(o, before, c, err, done, what):
                if err is None:
                    if done > before:
                        st["ends"].add(done)
                    top = ref.last if c[0] == "run" else min(
                        ref.last, before + c[1])
                    if done != max(top, before):
                        raise Violation(
                            "iteration-count", f"{what}: {done} iterations, "
                            f"the call reaches {top}")
                else:
                    stats.add("failures")
                    cut({done + 1})
                st["done"] = done
                look(done, what, pending=err is not None)

            def death(k, what):
                stats.add("kills")
                new = set(W.checkpoints(dst)) - st["old"]
                hi = max(new | {st["done"]})
                # executed, for all an observer can tell: up to the last
                # new snapshot; the next ones up to the following snapshot
                # of the rule or the end of the call may be under way
                cut(set(range(st["base"] + 1, n + 1)))
                look(hi, what, pending=n)

            s = session.Session(sim, spec, dst, plan["lives"], call, start,
                                death)
            s.go()
            ck = W.checkpoints(dst)
            if ref.last not in ck:
                raise Violation("snapshot-missing",
                                f"last iteration {ref.last} of {sorted(ck)}")
            if spec.get("conv") and ref.last < n:
                stats.add("converged")
            W.count_fired(sim, stats)
        if D.nontrivial(ref):
            stats.seen("nontrivial", D.sig(
                spec["task"]["kind"], spec["opt"], n, spec["record"],
                s.story))

    def shrink(self, plan):
        yield from session.shrink(plan)
        sp = plan["spec"]
        for s in W.shrink_spec(sp):
            yield dict(plan, spec=s)


def truth(spec, ref):
    """Every snapshot of the undisturbed run, recomputed from the one
    before."""
    if sorted(ref.rho) != list(range(1, ref.last + 1)):
        raise Violation("snapshot-missing",
                        f"recording everything: {sorted(ref.rho)}")
    if sorted(ref.fields) != sorted(ref.rho):
        raise Violation("field-file-missing",
                        f"{sorted(set(ref.rho) ^ set(ref.fields))}")
    for t in oracle.steps(spec, ref):
        at, got = f"iteration {t.k}", ref.fields[t.k]
        if not W.same(got.get("rho_projected", ()), t.phys, rtol=1e-5,
                      atol=1e-6):
            raise Violation(
                "not-the-physical-densities", f"{at}: rho_projected: "
                f"{W.diff(got.get('rho_projected', ()), t.phys)}")
        if t.sound and not W.same(got.get("energy", ()), t.energy, rtol=0,
                                  atol=10 * t.loose * t.top):
            raise Violation(
                "not-the-energies", f"{at}: energy: "
                f"{W.diff(got.get('energy', ()), t.energy)} of {t.top:.3e}")
        if t.sound and t.name in ref.hist and not np.isclose(
                ref.hist[t.name][t.k - 1].ravel()[0], t.objective,
                rtol=10 * t.loose, atol=1e-9):
            raise Violation(
                "not-the-objective", f"{at}: {t.name}: "
                f"{ref.hist[t.name][t.k - 1]} and {t.objective}")
        if "rho_change_max" in ref.hist and abs(
                ref.hist["rho_change_max"][t.k - 1].ravel()[0]
                - t.change) > 1e-6:
            raise Violation(
                "not-the-densities-at-the-end", f"{at}: the snapshot "
                f"moved by {t.change}, the recorded change is "
                f"{ref.hist['rho_change_max'][t.k - 1]}")
