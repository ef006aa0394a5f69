"""C11: results do not depend on the clock or on rendering support."""
import os
import sys
import types
import warnings

from .. import drive as D
from .. import world as W
from ..core import Prop, Violation
from ..seams import Clock, Sim

RENDER = ("absent", "broken", "libgl", "no_display", "present", "flaky")


class Pyvista:
    """A stand-in for pyvista whose availability follows the plan."""

    def __init__(self, modes):
        self.modes = modes
        self.k = 0
        self.failed = 0
        self.drawn = 0

    def mode(self):
        m = self.modes[self.k % len(self.modes)]
        self.k += 1
        return m

    # ---- import hook: 'import pyvista' asks for the module every time
    def find_spec(self, name, path=None, target=None):
        if name != "pyvista":
            return None
        m = self.mode()
        if m == "absent":
            self.failed += 1
            raise ModuleNotFoundError("No module named 'pyvista'",
                                      name="pyvista")
        if m == "broken":
            self.failed += 1
            raise ImportError("DLL load failed while importing vtk")
        if m == "libgl":
            self.failed += 1
            raise OSError("libGL.so.1: cannot open shared object file")
        from importlib.machinery import ModuleSpec
        return ModuleSpec("pyvista", _Loader(self, m))

    def module(self, mode):
        pv = types.ModuleType("pyvista")

        def start_xvfb(*a, **kw):
            if mode == "no_display":
                self.failed += 1
                raise OSError("Xvfb is not installed")

        class Plotter:
            def __init__(s, *a, **kw):
                pass

            def __getattr__(s, n):
                return lambda *a, **kw: None

            def screenshot(s, path, *a, **kw):
                self.drawn += 1
                if isinstance(path, (str, os.PathLike)):
                    with open(path, "wb") as f:
                        f.write(b"simulated image\n")

        def read(path, *a, **kw):
            with open(path, "rb") as f:
                f.read()
            return object()
        pv.start_xvfb, pv.Plotter, pv.read = start_xvfb, Plotter, read
        pv.OFF_SCREEN = False
        pv.global_theme = types.SimpleNamespace()
        return pv

    def __enter__(self):
        self.saved = {k: sys.modules.pop(k) for k in list(sys.modules)
                      if k == "pyvista" or k.startswith("pyvista.")}
        sys.meta_path.insert(0, self)
        return self

    def __exit__(self, *exc):
        sys.meta_path.remove(self)
        sys.modules.pop("pyvista", None)
        sys.modules.update(self.saved)
        return False


class _Loader:
    def __init__(self, pv, mode):
        self.pv, self.m = pv, mode

    def create_module(self, spec):
        return self.pv.module(self.m)

    def exec_module(self, mod):
        # the next import decides anew whether there is one
        sys.modules.pop("pyvista", None)
        sys.modules["pyvista"] = mod


def gen_clock(rng):
    r = rng.random()
    if r < 0.2:
        return [0.0]
    if r < 0.35:
        return [-1e-3]
    out = []
    for _ in range(rng.randint(1, 9)):
        out.append(rng.choice((0.0, 0.0, 1e-9, 1e-3, 0.5, 30.0, 1e6, 1e12,
                               -1e-9, -0.5, -3600.0, -1e6)))
    return out


class PROP(Prop):
    ID = "C11"
    RUNS = {"quick": 220, "thorough": 7000}
    BUDGET = {"quick": 240, "thorough": 820}
    RULE = ("one evaluation = one run, split into drawn calls, under a drawn "
            "clock (stalls, jumps, steps back; at every read) and, in most, "
            "image export with rendering support that is absent, broken, "
            "without a display, present, or changing from one snapshot to "
            "the next; compared with the run under a regular clock without "
            "images; non-trivial and distinct = distinct (physics, optimizer,"
            " clock, rendering sequence) with a disturbed clock or rendering "
            "failure")
    REAL = D.RUN_REAL + ["matplotlib (in a few runs)"]
    STUB = ["matplotlib figures (in most runs)", "clock", "pyvista"]
    ASSUME = ["rendering support is missing or works; a renderer that "
              "crashes the process is not simulated"]
    PROBES = ["clock_backward", "render_failures", "render_ok", "real_plots",
              "restarts"]

    def gen(self, rng, i):
        spec = W.gen_spec(rng)
        if rng.random() < 0.15:
            spec = D.gen_conv(rng, spec)
        img = rng.random() < 0.7
        spec = dict(spec, img=int(img))
        plan = {"spec": spec, "calls": D.gen_calls(rng, spec["iters"], 3),
                "clock": gen_clock(rng),
                "render": [rng.choice(RENDER[:5])
                           for _ in range(rng.choice((1, 1, 2, 4)))],
                "real_plots": rng.random() < 0.025}
        if rng.random() < 0.25:
            plan["restart"] = rng.randint(1, spec["iters"])
        return plan

    def run(self, plan, stats):
        spec = plan["spec"]
        ref = W.ref({k: v for k, v in spec.items() if k != "img"})
        pv = Pyvista(plan["render"])
        with Sim(clock=Clock(plan["clock"]),
                 plots="real" if plan["real_plots"] else "stub") as sim, pv, \
                warnings.catch_warnings(record=True) as warned:
            warnings.simplefilter("always")
            dst = sim.path("r")
            o = W.must("set-up", W.make_opt, spec, dst)
            if plan.get("restart"):
                D.quiet_call(o, ["steps", plan["restart"]])
                o = W.must("restart", W.make_opt, spec, dst, restart=True)
                stats.add("restarts")
            for c in plan["calls"]:
                D.quiet_call(o, c)
            D.quiet_call(o, ["run"])
            D.check_final(dst, o, ref, "under this clock and renderer")
            D.check_fields(dst, ref, "under this clock and renderer")
            if pv.failed and not any(mentions(w) for w in warned):
                raise Violation("no-warning",
                                f"{pv.failed} images were skipped silently")
            W.count_fired(sim, stats)
            back = sim.clock.backward
        if back:
            stats.add("clock_backward")
            stats.add("fault:clock:step_back", back)
        if any(d > 100 for d in plan["clock"]):
            stats.add("fault:clock:jump")
        if any(d == 0 for d in plan["clock"]):
            stats.add("fault:clock:stall")
        if pv.failed:
            stats.add("render_failures")
            stats.add("fault:render:unavailable", pv.failed)
        if pv.drawn:
            stats.add("render_ok")
        if plan["real_plots"]:
            stats.add("real_plots")
        if D.nontrivial(ref) and (back or pv.failed or
                                  max(plan["clock"]) > 100 or
                                  0.0 in plan["clock"]):
            stats.seen("nontrivial", D.sig(
                spec["task"]["kind"], spec["opt"], plan["clock"],
                plan["render"] if spec["img"] else None))

    def shrink(self, plan):
        if plan.get("restart"):
            yield {k: v for k, v in plan.items() if k != "restart"}
        if plan["real_plots"]:
            yield dict(plan, real_plots=False)
        if plan["clock"] != [1e-3]:
            yield dict(plan, clock=[1e-3])
            if len(plan["clock"]) > 1:
                yield from D.shrink_list(plan["clock"], "clock", plan)
        if len(plan["render"]) > 1:
            yield from D.shrink_list(plan["render"], "render", plan)
        if plan["spec"].get("img"):
            yield dict(plan, spec=dict(plan["spec"], img=0))
        yield from D.shrink_list(plan["calls"], "calls", plan)
        for s in W.shrink_spec(plan["spec"]):
            yield dict(plan, spec=s)


def mentions(w):
    text = (str(w.message) + w.category.__name__).lower()
    return any(x in text for x in ("render", "pyvista", "xvfb", "visuali",
                                   "display", "image"))
