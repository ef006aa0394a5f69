"""C26: a run is reproducible: its results are a function of its
configuration and problem."""
import contextlib
import gc
import os
import random

import numpy as np

from .. import drive as D
from .. import helpers
from .. import session
from .. import world as W
from ..core import Prop, Violation, in_child
from ..seams import Clock, Sim
from .c02 import order

HEAP = ("same", "nan", "huge", "neg", "tiny", "ramp")


class PROP(Prop):
    ID = "C26"
    RUNS = {"quick": 160, "thorough": 5500}
    BUDGET = {"quick": 260, "thorough": 820}
    RULE = ("one evaluation = a drawn problem, configuration and session "
            "(calls, failures, kills, restarts) carried out in two or three "
            "processes that differ in what a program does not control: "
            "string hashing, allocator, contents of uninitialised memory, "
            "state of the global random generators, order of directory "
            "listings, clock, working directory, environment, earlier "
            "allocations and garbage collection; all end with the same "
            "densities, histories and field files, and leave the random "
            "generators as they found them; non-trivial and distinct = "
            "distinct (problem, optimizer, session, differences) whose "
            "densities vary")
    REAL = D.RUN_REAL + ["CPython interpreters with other hash seeds"]
    STUB = D.RUN_STUB + ["contents of np.empty, in most of the processes"]
    ASSUME = ["direct linear solvers; the multigrid preconditioner of "
              "cg_pyamg draws random vectors, so with it the generators' "
              "state is kept the same",
              "one thread for BLAS and compiled loops"]
    PROBES = ["other_hash", "heap", "random_state", "listing", "cwd",
              "restarts", "amg"]

    def prepare(self):
        helpers.start(self.ID)

    def gen(self, rng, i):
        spec = W.gen_spec(rng)
        if rng.random() < 0.15:
            spec = D.gen_conv(rng, spec)
        lives = session.gen_session(rng, spec["iters"], crash=0.2, fail=0.2) \
            if rng.random() < 0.5 else []
        worlds = []
        for _ in range(rng.choice((1, 1, 2))):
            w = {"proc": rng.choice((-1, 0, 1, 2, 0, 1, 2)),
                 "heap": rng.choice(HEAP)}
            if rng.random() < 0.7:
                w["random"] = rng.randint(0, 2 ** 31)
            if rng.random() < 0.5:
                w["order"] = rng.choice(("desc", "asc", "shuffle"))
            if rng.random() < 0.5:
                w["clock"] = rng.choice(([0.0], [7.5], [1e4, -3.0]))
            if rng.random() < 0.4:
                w["cwd"] = 1
            if rng.random() < 0.4:
                w["env"] = {"HOME": "/nonexistent", "USER": "u",
                            "LANG": "de_DE.UTF-8", "COLUMNS": "20",
                            "SCITOPT_SENSITIVITY_MODE": "adjoint"}
            if rng.random() < 0.5:
                w["junk"] = rng.randint(1, 40)
            worlds.append(w)
        return {"spec": spec, "lives": lives, "worlds": worlds}

    def run(self, plan, stats):
        spec = plan["spec"]
        first = in_child(lambda: outcome(spec, plan["lives"],
                                         {}))
        for w in plan["worlds"]:
            w = dict(w)
            amg = spec.get("solver") == "cg_pyamg"
            if amg:
                w.pop("random", None)
                stats.add("amg")
            if w["proc"] < 0:
                got = in_child(lambda: outcome(spec, plan["lives"], w))
            else:
                got = helpers.ask(w["proc"], __name__, "outcome", spec,
                                  plan["lives"], w)
                stats.add("other_hash")
                stats.add("fault:environment:hash_seed")
            for k in ("heap", "random", "order", "cwd", "clock", "env",
                      "junk"):
                if w.get(k) and w[k] != "same":
                    stats.add({"random": "random_state",
                               "order": "listing"}.get(k, k))
                    stats.add(f"fault:environment:{k}")
            if got["restarts"]:
                stats.add("restarts", got["restarts"])
            stats.add("sim_ms", got["ms"])
            for k, v in got["fired"].items():
                stats.add("fault:" + k, v)
            self.compare(first, got, amg)
        x = first["rho"][max(first["rho"])]
        if np.std(x) > 1e-3:
            stats.seen("nontrivial", D.sig(
                spec["task"]["kind"], spec["opt"], first["story"],
                sorted((k, str(v)) for w in plan["worlds"]
                       for k, v in w.items())))

    def compare(self, a, b, amg):
        if not np.array_equal(a["design"], b["design"]):
            raise Violation("design-set-differs",
                            f"{a['design'].size} and {b['design'].size} "
                            "designable elements")
        la, lb = max(a["rho"]), max(b["rho"])
        if la != lb:
            raise Violation("iterations-differ", f"ended at {la} and {lb}")
        for what in ("rho", "hist", "fields"):
            x, y = flat(a[what]), flat(b[what])
            if what == "hist" and set(x) != set(y):
                raise Violation("history-names-differ",
                                f"{sorted(set(x) ^ set(y))}")
            for k in sorted(set(x) & set(y), key=str):
                if not W.same(x[k], y[k]):
                    raise Violation(
                        f"{what}-differ", f"{k}: the same run in another "
                        f"process: {W.diff(x[k], y[k])}")
        for r in (a, b):
            for name, moved in r["moved"]:
                if moved and not amg:
                    raise Violation("random-state-changed",
                                    f"the run moved {name}")

    def shrink(self, plan):
        ws = plan["worlds"]
        if len(ws) > 1:
            for i in range(len(ws)):
                yield dict(plan, worlds=ws[:i] + ws[i + 1:])
        for i, w in enumerate(ws):
            for k in w:
                if k not in ("proc", "heap") or w[k] not in ("same", -1):
                    v = {a: b for a, b in w.items() if a != k}
                    if k in ("proc", "heap"):
                        v[k] = -1 if k == "proc" else "same"
                    yield dict(plan, worlds=ws[:i] + [v] + ws[i + 1:])
        yield from session.shrink(plan)
        for s in W.shrink_spec(plan["spec"]):
            yield dict(plan, spec=s)


def flat(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            for q, x in v.items():
                out[k, q] = x
        else:
            out[k] = v
    return out


def outcome(spec, lives, w):
    """The whole session in this process, under the given conditions."""
    keep = []
    if w.get("junk"):
        r = random.Random(w["junk"])
        for _ in range(300):
            keep.append(np.full(r.randint(1, 400), r.random()))
        del keep[::2]
        gc.collect()
        if w["junk"] % 3 == 0:
            gc.disable()
        elif w["junk"] % 3 == 1:
            gc.set_threshold(1, 1, 1)
    random.seed(w.get("random", 1))
    os.environ.update(w.get("env", {}))
    n = {"restarts": 0}

    def on_start(o, k, start, base):
        n["restarts"] += start != "fresh"

    with contextlib.ExitStack() as st:
        sim = st.enter_context(Sim(
            clock=Clock(w.get("clock", (1e-3,))), heap=w.get("heap", "same"),
            random_state=w.get("random", 1)))
        sim.disk.list_order = order(w.get("order"))
        if w.get("cwd"):
            d = os.path.join(sim.base, "elsewhere")
            os.mkdir(d)
            os.chdir(d)
            sim.home = d
        before = states()
        dst = sim.path("r")
        s = session.Session(sim, spec, dst, lives, on_start=on_start)
        o = s.go()
        moved = [(k, before[k] != v) for k, v in states().items()]
        return {"rho": W.checkpoints(dst), "hist": D.hist_file(dst),
                "fields": W.fields(dst, strict=False),
                "design": np.array(o.tsk.design_elements),
                "moved": moved, "restarts": n["restarts"],
                "story": repr(s.story), "fired": sim.fired(),
                "ms": int(sim.clock.span * 1000)}


def states():
    s = np.random.get_state()
    return {"numpy.random": (s[0], s[1].tobytes(), s[2:]),
            "random": random.getstate()}
