"""C10: section timing against a small reference timer."""
import math

import numpy as np

from .. import drive as D
from .. import world as W
from ..core import Prop, Violation
from ..seams import Clock, Sim
from ..vfs import SimInterrupt

NAMES = ("a", "b", "c", "solve", "outer loop", "x.y")


class Boom(Exception):
    pass


KINDS = {"error": Boom, "interrupt": SimInterrupt, "exit": SystemExit,
         "stop": StopIteration, "generator": GeneratorExit}


class Hand:
    """A clock that moves only when the plan says so, and may be hit by an
    interrupt while it is being read."""

    def __init__(self):
        self.t = 50.0
        self.fail = None
        self.fired = 0

    def __call__(self):
        if self.fail is not None:
            k, self.fail = self.fail, None
            self.fired += 1
            raise KINDS[k]("clock read")
        return self.t

    perf_counter = __call__


class Hare:
    """A clock on which any time span is a long one."""
    t = 0.0

    def __call__(self):
        self.t += 1e4
        return self.t


class Model:
    def __init__(self, hier, sep):
        self.hier, self.sep = hier, sep
        self.rec = {}
        self.stack = []
        self.mono = True          # clock never ran backwards
        self.pure = True          # no add and no reset

    def path(self, name):
        return self.sep.join(self.stack + [name]) if self.hier else name

    def stats(self):
        return {k: (len(v), math.fsum(v), math.fsum(v) / len(v), max(v))
                for k, v in self.rec.items() if v}

    def self_times(self):
        st = self.stats()
        out = {}
        for k, v in st.items():
            kids = [st[c][1] for c in st
                    if self.sep in c and
                    c.rsplit(self.sep, 1)[0] == k]
            out[k] = max(v[1] - math.fsum(kids), 0.0)
        return out


class PROP(Prop):
    ID = "C10"
    RUNS = {"quick": 4000, "thorough": 200000}
    BUDGET = {"quick": 200, "thorough": 820}
    RULE = ("one evaluation = one drawn program of nested timed sections, "
            "decorated (also recursive) calls, added durations, resets, "
            "exceptions and interrupts at any depth and inside clock reads, "
            "on a simulated clock that stalls, jumps or runs backwards, "
            "compared with a reference timer after every top-level "
            "statement; or one optimizer run hit by failures whose section "
            "paths are compared with an undisturbed run; non-trivial and "
            "distinct = distinct program with at least one nested section")
    REAL = ["sktopt.tools.timer.SectionTimer",
            "the optimizers' use of it (run mode)"]
    STUB = ["clock"]
    ASSUME = ["section names do not contain the separator",
              "one thread uses a timer"]
    PROBES = ["sections", "aborted", "clock_interrupted", "backward",
              "failed_runs", "loops", "plots"]

    def gen(self, rng, i):
        if rng.random() < 0.025:
            spec = W.gen_spec(rng, iters=3, kinds=("el1", "el2", "heat_c"))
            return {"mode": "run", "spec": spec,
                    "calls": [[rng.choice(("solver", "filter", "disk")),
                               round(rng.random(), 3)]
                              for _ in range(rng.randint(1, 3))]}
        return {"mode": "program", "hier": rng.random() < 0.7,
                "sep": rng.choice((">", ">", "/", "::")),
                "clock": rng.choice(("given", "default")),
                "back": rng.random() < 0.25,
                "body": self.gen_body(rng, rng.randint(1, 8), 0)}

    def gen_body(self, rng, n, depth):
        out = []
        for _ in range(n):
            r = rng.random()
            if r < 0.42 and depth < 5:
                t = {"t": rng.choice(("sec", "sec", "sec", "wrap")),
                     "n": rng.choice(NAMES),
                     "b": self.gen_body(rng, rng.randint(0, 4), depth + 1)}
                if t["t"] == "wrap" and rng.random() < 0.3:
                    t["again"] = rng.randint(1, 2)
                out.append(t)
            elif r < 0.68:
                out.append({"t": "tick", "d": rng.choice(
                    (0.0, 1e-6, 0.25, 0.5, 3.0, 1e5, 0.125))})
            elif r < 0.74:
                out.append({"t": "try", "b": self.gen_body(
                    rng, rng.randint(1, 3), depth)})
            elif r < 0.82:
                out.append({"t": "raise", "k": rng.choice(
                    ("error", "interrupt", "exit", "stop", "generator"))})
            elif r < 0.86:
                out.append({"t": "clockfail", "k": rng.choice(
                    ("error", "interrupt"))})
            elif r < 0.91:
                out.append({"t": "add", "n": rng.choice(NAMES),
                            "d": rng.choice((0.0, 0.5, 2.0))})
            elif r < 0.94:
                out.append({"t": "reset", "n": rng.choice(
                    NAMES + (None, None))})
            elif r < 0.96:
                out.append({"t": "plot", "k": rng.choice(("bar", "pie")),
                            "o": sorted(rng.sample(PLOTS, 2))})
            elif r < 0.97:
                k = rng.choice((2, 12, 70, 300, 1500))
                out.append({"t": "loop", "k": k if depth < 2 else 2, "b": [
                    {"t": "sec", "n": rng.choice(NAMES), "b": [
                        {"t": "tick", "d": rng.choice((1e-6, 0.25, 3.0))}]}]})
            else:
                out.append({"t": "back", "d": rng.choice((0.25, 1.0, 1e3))})
        return out

    # ------------------------------------------------------------------ run
    def run(self, plan, stats):
        if plan["mode"] == "run":
            return self.run_optimizer(plan, stats)
        hand = Hand()
        with Sim(clock=Clock((1e-3,))) as sim:
            # a timer that was given a clock reads no other
            world = hand if plan["clock"] == "default" else Hare()
            sim.clock.perf_counter = world    # for late lookups
            import time
            time.perf_counter = world
            T = W.S.tools.SectionTimer
            t = T(clock=hand if plan["clock"] == "given" else None,
                  hierarchical=plan["hier"], sep=plan["sep"])
            m = Model(plan["hier"], plan["sep"])
            for node in plan["body"]:
                try:
                    self.do(node, t, m, hand, plan, stats)
                except tuple(KINDS.values()):
                    stats.add("aborted")
                hand.fail = None
                if m.stack:
                    raise RuntimeError("model")
                self.compare(t, m, hand, stats)
            # nothing is open now: a new section is a root again
            with t.section("end"):
                hand.t += 0.5
            m.rec.setdefault(m.path("end"), []).append(0.5)
            self.compare(t, m, hand, stats)
        if hand.fired:
            stats.add("clock_interrupted", hand.fired)
        if not m.mono:
            stats.add("backward")
        if "'b': [{" in repr(plan["body"]):
            stats.seen("nontrivial", D.sig(plan["body"], plan["hier"]))

    def do(self, node, t, m, hand, plan, stats):
        k = node["t"]
        if k == "tick":
            hand.t += node["d"]
        elif k == "back":
            if plan["back"]:
                hand.t -= node["d"]
                m.mono = False
        elif k == "raise":
            raise KINDS[node["k"]]("planned")
        elif k == "clockfail":
            hand.fail = node["k"]
        elif k == "add":
            self.call(t.add, node["n"], node["d"])
            m.rec.setdefault(node["n"], []).append(node["d"])
            m.pure = False
        elif k == "reset":
            self.call(t.reset, *([] if node["n"] is None else [node["n"]]))
            if node["n"] is None:
                m.rec.clear()
            else:
                m.rec.pop(node["n"], None)
            m.pure = False
        elif k == "plot":
            # a chart in the middle of things changes nothing
            try:
                getattr(t, "plot_" + node["k"])(
                    ax=Axes(), **{o: True for o in node["o"]})
            except ValueError:
                pass                   # nothing to draw
            except Exception as e:
                raise Violation("unexpected-error", f"plot {node}: "
                                f"{type(e).__name__}: {e}")
            stats.add("plots")
        elif k == "loop":
            for _ in range(node["k"]):
                for x in node["b"]:
                    self.do(x, t, m, hand, plan, stats)
            stats.add("loops")
        elif k == "try":
            try:
                for x in node["b"]:
                    self.do(x, t, m, hand, plan, stats)
            except tuple(KINDS.values()):
                stats.add("aborted")
        else:
            self.section(node, t, m, hand, plan, stats)

    def call(self, f, *a):
        try:
            return f(*a)
        except Exception as e:
            raise Violation("unexpected-error",
                            f"{f.__name__}{a}: {type(e).__name__}: {e}")

    def section(self, node, t, m, hand, plan, stats):
        entered, left = [], []
        name = node["n"]
        fired = hand.fired

        def inner():
            path = m.path(name)
            begin = hand.t
            entered.append(path)
            m.stack.append(name)
            try:
                for x in node["b"]:
                    self.do(x, t, m, hand, plan, stats)
            finally:
                m.stack.pop()
                left.append((path, hand.t - begin, hand.fail))

        again = node.get("again", 0)
        if node["t"] == "wrap":
            depth = [0]

            @t.wrap(name)
            def f(x, *, y):
                if (x, y) != (1, 2):
                    raise Violation("wrap-arguments", repr((x, y)))
                if depth[0] < again:
                    depth[0] += 1
                    # recursion: itself, timed, inside itself
                    path, begin = m.path(name), hand.t
                    entered.append(path)
                    m.stack.append(name)
                    try:
                        f(1, y=2)
                    finally:
                        m.stack.pop()
                        left.append((path, hand.t - begin, hand.fail))
                else:
                    inner()
                return "value"
        try:
            if node["t"] == "wrap":
                r = f(1, y=2)
                if r != "value":
                    raise Violation("wrap-value", repr(r))
            else:
                with t.section(name):
                    inner()
        finally:
            self.account(m, entered, left, hand, fired)
        stats.add("sections", len(entered))

    def account(self, m, entered, left, hand, fired):
        # a section whose closing clock read was interrupted has no duration
        for path, d, fail in left:
            if fail is None:
                m.rec.setdefault(path, []).append(d)

    def compare(self, t, m, hand, stats):
        got = {s.name: s for s in self.call(t.stats)}
        want = m.stats()
        if set(got) != set(want):
            raise Violation(
                "sections-differ", f"recorded {sorted(got)}, expected "
                f"{sorted(want)}")
        tot = max([abs(v[1]) for v in want.values()] + [1.0])

        def eq(a, b):
            return abs(a - b) <= 1e-9 * tot
        for k, (n, total, avg, mx) in want.items():
            s = got[k]
            if s.count != n:
                raise Violation("count", f"{k}: {s.count} instead of {n}")
            for f, x, y in (("total", s.total, total), ("avg", s.avg, avg),
                            ("max", s.max, mx)):
                if not eq(x, y):
                    raise Violation("value", f"{k}: {f} {x} instead of {y}")
        self_w = m.self_times()
        self_g = {s.name: s for s in self.call(t.summary_self_time)}
        if set(self_g) != set(self_w):
            raise Violation("self-time", f"{sorted(self_g)}, expected "
                            f"{sorted(self_w)}")
        for k, v in self_w.items():
            if not eq(self_g[k].total, v):
                raise Violation("self-time", f"{k}: {self_g[k].total} "
                                f"instead of {v}")
        if m.mono and m.pure and m.hier:
            roots = [k for k in want if m.sep not in k]
            for r in roots:
                s = math.fsum(x.total for k, x in self_g.items()
                              if k == r or k.startswith(r + m.sep))
                if not eq(s, want[r][1]) and not hand.fired:
                    raise Violation("self-times-do-not-add-up",
                                    f"{r}: {s} instead of {want[r][1]}")
        for key in ("total", "avg", "max", "count", "name"):
            for desc in (True, False):
                xs = [getattr(s, key) for s in self.call(
                    lambda: t.summary(sort_by=key, descending=desc))]
                if sorted(xs, reverse=desc) != xs or len(xs) != len(want):
                    raise Violation("order", f"summary by {key}: {xs}")
        text = self.call(lambda: t.report(logger_instance=_NoLog()))
        for k in want:
            if k not in text:
                raise Violation("report", f"{k} is not in the report")

    def run_optimizer(self, plan, stats):
        spec, ref = plan["spec"], W.ref(plan["spec"])
        with Sim(clock=Clock((1e-3,))) as sim:
            dst = sim.path("u")
            o = W.must("undisturbed", W.make_opt, spec, dst)
            D.quiet_call(o, ["run"])
            good = {s.name: s.count for s in o.timer.stats()}
        with Sim(clock=Clock((1e-3,))) as sim:
            dst = sim.path("r")
            o = W.must("set-up", W.make_opt, spec, dst)
            fails = 0
            for kind, pos in plan["calls"]:
                n = {"solver": ref.solves, "filter": ref.filters,
                     "disk": ref.ops}[kind]
                f = [{"at": int(pos * n), "act":
                      "interrupt" if kind == "disk" else "raise"}]
                getattr(sim, kind).arm(f)
                try:
                    with D._silence():
                        o.optimize()
                except (RuntimeError, SimInterrupt):
                    fails += 1
                getattr(sim, kind).disarm()
            D.quiet_call(o, ["run"])
            got = {s.name: s for s in o.timer.stats()}
            W.count_fired(sim, stats)
            stats.add("failed_runs", fails)
        if set(got) != set(good):
            raise Violation(
                "sections-differ", f"after {fails} failures: "
                f"{sorted(set(got) ^ set(good))}")
        for k, n in good.items():
            if not n <= got[k].count <= n * (1 + 3 * fails) + 40 * fails:
                raise Violation("count", f"{k}: {got[k].count} after {fails} "
                                f"failures, {n} without")
        roots = [k for k in got if ">" not in k]
        selfs = {s.name: s.total for s in o.timer.summary_self_time()}
        for r in roots:
            s = math.fsum(v for k, v in selfs.items()
                          if k == r or k.startswith(r + ">"))
            if not np.isclose(s, got[r].total, rtol=1e-9):
                raise Violation("self-times-do-not-add-up",
                                f"{r}: {s} instead of {got[r].total}")
        if fails:
            stats.seen("nontrivial", D.sig("run", spec["task"]["kind"],
                                           spec["opt"], plan["calls"]))

    def shrink(self, plan):
        if plan["mode"] == "run":
            yield from D.shrink_list(plan["calls"], "calls", plan)
            for s in W.shrink_spec(plan["spec"]):
                yield dict(plan, spec=s)
            return
        for b in shrink_body(plan["body"]):
            yield dict(plan, body=b)


def shrink_body(body):
    for i in range(len(body)):
        yield body[:i] + body[i + 1:]
    for i, n in enumerate(body):
        if n.get("b"):
            yield body[:i] + n["b"] + body[i + 1:]
            for b in shrink_body(n["b"]):
                yield body[:i] + [dict(n, b=b)] + body[i + 1:]
        if n["t"] == "loop" and n["k"] > 1:
            yield body[:i] + [dict(n, k=n["k"] // 2)] + body[i + 1:]
        if n.get("again"):
            yield body[:i] + [{k: v for k, v in n.items() if k != "again"}] \
                + body[i + 1:]


PLOTS = ("moving_average", "use_self_time", "descending")


class Axes:
    """Takes whatever is drawn."""
    figure = None

    def __getattr__(self, name):
        return lambda *a, **kw: self

    def pie(self, *a, **kw):
        return [], [], []

    def get_legend_handles_labels(self):
        return [], []

    def __call__(self, *a, **kw):
        return self

    def __iter__(self):
        return iter(())


class _NoLog:
    def info(self, *a):
        pass
