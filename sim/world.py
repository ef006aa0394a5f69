"""The system under simulation: small problems, configurations, runs, and what
an observer outside the process can see of them."""
import contextlib
import io
import json
import os
import re
import sys
import warnings

import numpy as np

from .core import ChildDied, Violation, in_child
from .seams import Sim, Clock
from .vfs import SimCrash, SimInterrupt

S = None          # the package
_loaded = False

HARNESS = (Violation, SimCrash, SimInterrupt)


def load():
    """Import the code under test once."""
    global S, _loaded
    if _loaded:
        return
    warnings.simplefilter("ignore")
    import sktopt
    import sktopt.core.optimizers     # noqa: F401
    import sktopt.core.misc           # noqa: F401
    import logging
    logging.disable(logging.CRITICAL)
    repo = os.environ.get("SKTSIM_REPO", "/repo/scikit-topt")
    if not os.path.realpath(sktopt.__file__).startswith(
            os.path.realpath(repo) + os.sep):
        raise RuntimeError(f"sktopt came from {sktopt.__file__}, not {repo}")
    S = sktopt
    _loaded = True
    _warm_up()


def _warm_up():
    """Import and compile once, before runs are forked off, what runs need.
    A child process finds out what that is: no problem or optimizer ever
    exists in the process the runs start from."""
    import importlib
    try:
        names, sigs = in_child(_what_runs_use)
    except (Violation, ChildDied):
        return
    for n in names:
        try:
            importlib.import_module(n)
        except Exception:
            pass
    for mod, name, ss in sigs:
        for sig in ss:
            try:
                getattr(sys.modules[mod], name).compile(sig)
            except Exception:
                pass


def _what_runs_use():
    before = set(sys.modules)
    for kind, opt, extra in (("el1", "oc", {}), ("tet", "logmoc", {}),
                             ("heat_c", "oc", {"extra": {"interpolation": "RAMP"},
                                               "filter": "helmholtz",
                                               "vf": 0.85, "radius": 0.4}),
                             ("el1", "oc", {"solver": "cg_pyamg"})):
        try:
            spec = {"task": {"kind": kind, "n": [2, 2, 1]}, "opt": opt,
                    "iters": 1, "record": 1, "filter": "spacial",
                    "radius": 1.3, "move": 0.1, **extra}
            with Sim() as sim:
                o = make_opt(spec, sim.path("w"))
                with contextlib.redirect_stdout(io.StringIO()):
                    o.optimize()
                fields(sim.path("w"))
        except Exception:
            pass
    sigs = []
    for mn, m in list(sys.modules.items()):
        if mn.split(".")[0] != "sktopt":
            continue
        for k, v in list(vars(m).items()):
            if hasattr(v, "py_func") and v.signatures and \
                    getattr(v, "__module__", "") == mn:
                sigs.append((mn, k, list(v.signatures)))
    return [n for n in sys.modules if n not in before
            and n.split(".")[0] in ("skfem", "scipy", "numpy", "meshio",
                                    "pyamg", "matplotlib", "sktopt", "numba")
            ], sigs


def must(what, fn, *a, **kw):
    """Call into the code under test where no failure was injected."""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return fn(*a, **kw)
    except HARNESS:
        raise
    except Exception as e:
        raise Violation("unexpected-error",
                        f"{what}: {type(e).__name__}: {e}") from e


# ------------------------------------------------------------------- problems
KINDS_EL = ("el1", "el2", "tet")
KINDS_HEAT = ("heat_c", "heat_a", "heat_x", "heat2")
KINDS = KINDS_EL + KINDS_HEAT


def _box(spec):
    nx, ny, nz = spec.get("n", (4, 3, 2))
    tp = S.mesh.toy_problem
    if spec["kind"] == "tet":
        return tp.create_box_tet(2.0, 2.0, 2.0, 1.0), (2.0, 2.0, 2.0)
    import skfem
    g = 1.5 if spec.get("grade") else 1.0     # elements of unequal size
    m = skfem.MeshHex.init_tensor(nx * np.linspace(0, 1, nx + 1) ** g,
                                  np.linspace(0, ny, ny + 1),
                                  nz * np.linspace(0, 1, nz + 1) ** (1 / g))
    t = S.mesh.utils.fix_hexahedron_orientation(m.t, m.p)
    return skfem.MeshHex(m.p, t), (float(nx), float(ny), float(nz))


def make_task(spec, pool=None):
    """``pool``: a dict of bases, to let several problems share one."""
    with contextlib.redirect_stdout(io.StringIO()):
        return _make_task(spec, {} if pool is None else pool)


def _make_task(spec, pool):
    import skfem
    u = S.mesh.utils
    kind = spec["kind"]
    family = (kind in KINDS_EL, kind == "tet", tuple(spec.get("n", ())),
              bool(spec.get("grade")), spec.get("via"),
              spec["kind"] if spec.get("via") else None,
              spec.get("cases") if spec.get("via") else None,
              bool(spec.get("keep")) and bool(spec.get("via")),
              spec.get("robin") if spec.get("via") else None)
    if family in pool:
        mesh, (X, Y, Z) = pool[family].mesh, pool[family].box
    else:
        mesh, (X, Y, Z) = _box(spec)
    design = np.arange(mesh.nelements)
    c = mesh.p[:, mesh.t].mean(axis=1)
    if spec.get("keep"):
        # a non-designable block in the middle
        keep = (np.abs(c[0] - X / 2) < 0.6) & (c[1] > Y - 1.01)
        design = design[~keep]
    if kind in KINDS_EL:
        e1 = skfem.ElementTetP1() if kind == "tet" else skfem.ElementHex1()
        left = mesh.facets_satisfying(
            u.get_points_in_range((0.0, 0.0), (0.0, Y), (0.0, Z)))
        f1 = mesh.facets_satisfying(
            u.get_points_in_range((X, X), (0.0, 1.0), (0.0, Z)))
        f2 = mesh.facets_satisfying(
            u.get_points_in_range((X, X), (Y - 1.0, Y), (0.0, Z)))
        n = spec.get("cases", 2) if kind == "el2" else 1
        fs, ds = [f1, f2, f1][:n], ["u^3", "u^2", "u^1"][:n]
        vs = [-100.0 * spec.get("load", 1.0), 60.0, 250.0][:n]
        tags = spec.get("via") and {"dirichlet": left, **{
            ("neumann", "neumann_2")[n > 1] if k == 0 else
            f"neumann_{9 + k}": f for k, f in enumerate(fs)}}
        basis = _basis(pool, family, mesh, (X, Y, Z),
                       skfem.ElementVector(e1), tags, design)
        if tags:
            return S.mesh.LinearElasticity.from_mesh_tags(
                basis, "all", ds, vs, 210e3, 0.3)
        if n == 1:
            fs, ds, vs = fs[0], ds[0], vs[0]
        return S.mesh.LinearElasticity.from_facets(
            basis, left, "all", fs, ds, vs, design, 210e3, 0.3)
    rob = mesh.facets_satisfying(
        u.get_points_in_range((0.0, 0.0), (0.0, Y), (0.0, Z)))
    d1 = mesh.facets_satisfying(
        u.get_points_in_range((X, X), (0.0, 1.0), (0.0, Z)))
    d2 = mesh.facets_satisfying(
        u.get_points_in_range((X, X), (Y - 1.0, Y), (0.0, Z)))
    obj = {"heat_c": "compliance", "heat_a": "averaged_temp",
           "heat_x": "heat_exchange", "heat2": "averaged_temp"}[kind]
    n = spec.get("cases", 2) if kind == "heat2" else 1
    dn, dv = [d1, d2, d1][:n], [600.0, 450.0, 350.0][:n]
    k = spec.get("robin", 1)      # surfaces
    if k == 2:
        rob = [rob[:rob.size // 2], rob[rob.size // 2:]]
    h, te, dr = 4.0e-2, 300.0, spec.get("design_robin", True)
    tags = None
    if spec.get("via"):
        tags = {("dirichlet_2" if i == 0 else f"dirichlet_{9 + i}"): f
                for i, f in enumerate(dn)}
        tags.update({"robin": rob} if k == 1 else
                    {f"robin_{i}": f for i, f in enumerate(rob)})
    basis = _basis(pool, family, mesh, (X, Y, Z), skfem.ElementHex1(), tags,
                   design)
    if n == 1:
        dv = dv[0]
    if tags:
        return S.mesh.LinearHeatConduction.from_mesh_tags(
            basis, dv, h, te, dr, 10.0, obj, spec.get("avg_w", 0.0))
    return S.mesh.LinearHeatConduction.from_facets(
        basis, dn, dv, rob, h, te, dr, design, 10.0, obj,
        spec.get("avg_w", 0.0))


def _basis(pool, family, mesh, box, elem, tags, design):
    import skfem
    if family not in pool:
        if tags:
            mesh = mesh.with_boundaries(tags).with_subdomains(
                {"design": design})
        pool[family] = skfem.Basis(mesh, elem, intorder=2)
        pool[family].box = box
    return pool[family]


# ------------------------------------------------------------- configurations
def make_cfg(spec, dst, **over):
    """spec is plain data (it is part of the replay file)."""
    SC = S.tools.SchedulerConfig
    load()
    if spec.get("dst") == "slash":
        dst += "/"
    elif spec.get("dst") == "rel":
        dst = os.path.relpath(dst)
    kw = dict(
        dst_path=dst, record_times=spec.get("record", 3),
        max_iters=spec["iters"],
        filter_type=spec.get("filter", "spacial"),
        design_dirichlet=bool(spec.get("dd", False)),
        sensitivity_filter=bool(spec.get("sf", False)),
        solver_option=spec.get("solver", "spsolve"),
        rho_min=spec.get("rho_min", 1e-2),
        check_convergence=bool(spec.get("conv", False)),
        tol_rho_change=spec.get("tol_rho", 2e-1),
        tol_kkt_residual=spec.get("tol_kkt", 5e-3),
        export_img=bool(spec.get("img", False)),
        scaling=bool(spec.get("scaling", False)),
        vol_frac=SC.constant("vol_frac", spec.get("vf", 0.6)),
        p=SC.step("p", init_value=1.0, target_value=3.0,
                  num_steps=spec.get("psteps", 3)),
        beta=SC.step_accelerating("beta", init_value=1.0, target_value=2.0,
                                  num_steps=3, curvature=2.0),
    )
    r = spec.get("radius", 1.5)
    if spec.get("rsteps"):
        kw["filter_radius"] = SC.step(
            "filter_radius", init_value=r * 1.4, target_value=r,
            num_steps=spec["rsteps"])
    else:
        kw["filter_radius"] = SC.constant("filter_radius", r)
    if spec.get("nscale"):
        kw["neumann_scale"] = SC.step_to_one("neumann_scale", num_steps=2)
    if spec.get("pct"):
        kw["percentile"] = SC.constant("percentile", spec["pct"])
    if spec.get("move"):
        kw["move_limit"] = SC.constant("move_limit", spec["move"])
    if spec["opt"] == "logmoc":
        kw["dual_update"] = spec.get("dual", "ema")
        kw["mu_p"] = spec.get("mu_p", 5.0)
        kw["normalize_volume_chain"] = bool(spec.get("nvc", False))
        if spec.get("flag"):
            kw[spec["flag"]] = True
        cls = S.core.LogMOC_Config
    else:
        cls = S.core.OC_Config
    kw.update(spec.get("extra", {}))
    if spec.get("move_steps"):
        a, b, n = spec["move_steps"]
        kw["move_limit"] = SC.step("move_limit", init_value=a,
                                   target_value=b, num_steps=n)
    if spec.get("beta_to"):
        kw["beta"] = SC.step("beta", init_value=1.0,
                             target_value=spec["beta_to"], num_steps=3)
    for name, (factory, args) in spec.get("sched", {}).items():
        if spec.get("longhand"):
            kind = "".join(w.title() for w in factory.split("_"))
            kw[name] = SC.from_defaults(scheduler_type=kind, **args)
        else:
            kw[name] = getattr(SC, factory)(**args)
    kw.update(over)
    return cls(**kw)


def opt_class(spec):
    return S.core.LogMOC_Optimizer if spec["opt"] == "logmoc" \
        else S.core.OC_Optimizer


def make_opt(spec, dst, task=None, cfg=None, **over):
    """Construct and parameterize, as every example does."""
    with contextlib.redirect_stdout(io.StringIO()):
        tsk = task if task is not None else make_task(spec["task"])
        c = cfg if cfg is not None else make_cfg(spec, dst, **over)
        o = opt_class(spec)(c, tsk)
        o.parameterize()
    return o


# ------------------------------------------------------------ generated specs
def gen_iters(rng, lo=3, hi=6):
    """Mostly short runs; some long ones."""
    if rng.random() < 0.08:
        return rng.choice((11, 12, 15, 18, 21, 25))
    return rng.randint(lo, hi)


def gen_ways(rng, task):
    """Other ways to describe a problem: tags of the mesh, several surfaces
    with heat exchange."""
    if rng.random() < 0.15:
        task["via"] = "tags"
    if task["kind"].startswith("heat") and rng.random() < 0.25:
        task["robin"] = 2


def gen_spec(rng, iters=None, kinds=None, opts=("oc", "logmoc"), **fixed):
    kind = rng.choice(kinds or ("el1", "el1", "el2", "tet", "heat_c",
                                "heat_a", "heat_x", "heat2"))
    task = {"kind": kind}
    if kind != "tet":
        task["n"] = rng.choice(([4, 3, 2], [5, 3, 1], [4, 4, 1], [5, 3, 2]))
        if rng.random() < 0.4:
            task["keep"] = 1
        if rng.random() < 0.3:
            task["grade"] = 1
    if kind in ("el2", "heat2") and rng.random() < 0.3:
        task["cases"] = 3
    if kind.startswith("heat"):
        task["design_robin"] = rng.random() < 0.5
        if kind == "heat_x" and rng.random() < 0.5:
            task["avg_w"] = 0.1
    gen_ways(rng, task)
    sp = {"task": task, "opt": rng.choice(opts),
          "iters": iters or gen_iters(rng),
          "record": rng.choice((1, 2, 3, 50)),
          "filter": "spacial" if rng.random() < 0.75 or kind == "tet"
          else "helmholtz",
          "radius": rng.choice((0.8, 1.3, 1.8))}
    if sp["filter"] == "helmholtz":
        sp["radius"] = rng.choice((0.25, 0.4))
        sp["vf"] = 0.85
    if rng.random() < 0.35:
        sp["rsteps"] = rng.choice((2, 3))
    if rng.random() < 0.3:
        sp["dd"] = 1
    if rng.random() < 0.2:
        sp["sf"] = 1
    if rng.random() < 0.3 and kind in ("el1", "el2", "tet"):
        sp["nscale"] = 1
    if rng.random() < 0.2:
        sp["pct"] = 90.0
    if rng.random() < 0.6:
        sp["move"] = rng.choice((0.05, 0.1, 0.2))
    if rng.random() < 0.2:
        sp["rho_min"] = 0.1
    if kind in ("el1", "tet") and rng.random() < 0.15:
        sp["solver"] = "cg_pyamg"
    if sp["opt"] == "logmoc":
        sp["dual"] = rng.choice(("ema", "augmented"))
        sp["move"] = rng.choice((0.03, 0.06))
        if rng.random() < 0.8:
            sp["nvc"] = 1
            sp["mu_p"] = 15.0
        if rng.random() < 0.4:
            sp["flag"] = rng.choice((
                "filter_lagrangian", "center_lagrangian",
                "center_objective"))
    if "vf" not in sp and rng.random() < 0.15:
        sp["vf"] = rng.choice((0.25, 0.4, 0.8))
        if rng.random() < 0.4:
            sp["sched"] = {"vol_frac": ["step", dict(
                name="vol_frac", init_value=0.8, target_value=sp["vf"],
                num_steps=rng.choice((2, 3)))]}
    if rng.random() < 0.15:
        sp["move_steps"] = [0.2, 0.05, 3]
    if rng.random() < 0.15:
        sp["extra"] = rng.choice((
            {"interpolation": "RAMP"}, {"rho_max": 0.9}, {"beta_eta": 0.4},
            {"E_min_coeff": 1e-2}))
    if rng.random() < 0.12:
        sp["dst"] = rng.choice(("slash", "rel"))
    sp.update(fixed)
    kind = sp["task"]["kind"]
    if kind.startswith("heat"):
        sp.pop("solver", None)
        sp.pop("nscale", None)
    if kind == "tet" and sp["filter"] == "helmholtz":
        sp.update(filter="spacial", radius=1.3)
    return sp


def shrink_spec(sp):
    """Smaller variants of a spec."""
    for k in ("rsteps", "dd", "sf", "nscale", "pct", "move", "rho_min",
              "solver", "flag", "conv", "vf", "move_steps", "extra",
              "beta_to", "sched", "dst"):
        if k in sp:
            yield {a: b for a, b in sp.items() if a != k}
    t = sp["task"]
    for k in ("grade", "keep", "avg_w", "design_robin", "cases", "via",
              "robin"):
        if t.get(k):
            yield dict(sp, task={a: b for a, b in t.items() if a != k})
    if t["kind"] != "el1":
        yield dict(sp, task={"kind": "el1", "n": [4, 3, 1]})
    elif t.get("n") != [4, 3, 1]:
        yield dict(sp, task=dict(t, n=[4, 3, 1]))
    if sp["iters"] > 8:
        yield dict(sp, iters=sp["iters"] // 2)
    if sp["iters"] > 2:
        yield dict(sp, iters=sp["iters"] - 1)
    if sp["opt"] != "oc":
        yield {k: v for k, v in dict(sp, opt="oc").items()
               if k not in ("dual", "flag")}
    if sp["filter"] != "spacial":
        yield dict(sp, filter="spacial")


# ----------------------------------------------------------------- observation
CK = re.compile(r"^(\d{6,})-rho\.npz$")


def checkpoints(d, strict=True):
    """iteration -> densities, for every density snapshot below d/data.
    A file under a snapshot's name that cannot be read is a violation
    (strict) or no snapshot."""
    out = {}
    dd = os.path.join(d, "data")
    if not os.path.isdir(dd):
        return out
    for fn in sorted(os.listdir(dd)):
        m = CK.match(fn)
        if not m:
            continue
        try:
            out[int(m.group(1))] = read_npz(os.path.join(dd, fn),
                                            "rho_design_elements")
        except Violation:
            if strict:
                raise
    return out


def read_npz(path, key):
    try:
        with np.load(path, allow_pickle=False) as z:
            return np.array(z[key])
    except Exception as e:
        raise Violation(
            "unreadable-snapshot",
            f"{os.path.basename(path)} ({os.path.getsize(path)} bytes): "
            f"{type(e).__name__}: {e}")


def hist_arrays(rec):
    """In-memory histories as name -> float array."""
    return {k: np.array(h.data, dtype=float)
            for k, h in rec.histories.items()}


VTU = re.compile(r"^info_mesh-(\d{8,})\.vtu$")


def fields(d, strict=True):
    """iteration -> {field: values} for every exported field file. One that
    cannot be read is a violation (strict) or none."""
    import meshio
    out = {}
    dd = os.path.join(d, "mesh_rho")
    if not os.path.isdir(dd):
        return out
    for fn in sorted(os.listdir(dd)):
        m = VTU.match(fn)
        if not m:
            continue
        try:
            with contextlib.redirect_stdout(io.StringIO()), \
                    contextlib.redirect_stderr(io.StringIO()):
                z = meshio.read(os.path.join(dd, fn))
            out[int(m.group(1))] = {k: np.array(v[0])
                                    for k, v in z.cell_data.items()}
        except (Exception, SystemExit) as e:
            if not strict:
                continue
            raise Violation("unreadable-field-file",
                            f"{fn}: {type(e).__name__}: {e}")
    return out


def same(a, b, rtol=1e-9, atol=1e-11):
    """Two executions of the same arithmetic agree to the last bit; the
    tolerance is far below what storing single precision would cost."""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol,
                                              equal_nan=True)


def diff(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return f"shapes {a.shape} and {b.shape}"
    return f"max difference {np.max(np.abs(a - b)):.3e}"


# ------------------------------------------------------------- reference runs
class Ref:
    """An undisturbed run of a specification, one iteration at a time."""

    def __init__(self, spec):
        self.spec = spec
        n = spec["iters"]
        with Sim(clock=Clock((1e-3,))) as sim:
            dst = sim.path("ref")
            o = must("reference set-up", make_opt, dict(spec, record=n), dst)
            self.design = np.array(o.tsk.design_elements)
            must("reference run", o.optimize)
            self.rho = checkpoints(dst)
            self.hist = hist_arrays(o.recorder)
            self.fields = fields(dst)
            self.n_el = o.tsk.all_elements.shape[0]
            self.ops = sim.disk.total_ops
            self.solves = sim.solver.total
            self.filters = sim.filter.total
            self.clocks = sim.clock.reads
        self.last = max(self.rho) if self.rho else 0
        if not self.rho:
            raise Violation("no-snapshots",
                            "an undisturbed run left no snapshot")


_refs = {}


def ref(spec):
    key = json.dumps({k: v for k, v in spec.items() if k != "record"},
                     sort_keys=True)
    if key not in _refs:
        if len(_refs) > 60:
            _refs.pop(next(iter(_refs)))
        # in a process of its own: nothing that ran here can touch it
        _refs[key] = in_child(lambda: Ref(spec))
    return _refs[key]


def count_fired(sim, stats):
    for k, v in sim.fired().items():
        if k.endswith("fsync_seen"):
            continue
        stats.add("fault:" + k, v)
    stats.add("sim_ms", int(sim.clock.span * 1000))
    stats.add("disk_ops", sim.disk.total_ops)
    stats.add("solver_calls", sim.solver.total)
