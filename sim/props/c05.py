"""C05: histories hold one entry per iteration, in order, and survive export
and import whatever fails meanwhile."""
import math
import os

import numpy as np

from .. import drive as D
from .. import oracle
from .. import world as W
from ..core import Prop, Violation, in_child
from ..seams import Clock, Sim
from ..vfs import SimCrash, SimInterrupt

NAMES = ("compliance", "rho", "vol error", "u_max", "energy/total", "λ",
         "a", "a_b", "T-mean", "x" * 60)
SHOWN = ({"ylog": True}, {"constants": [0.3], "constant_names": ["target"]},
         {"ylog": True, "constants": [1.0, 2.0], "constant_names": ["a", "b"]})
KINDS = ("value", "min-max-mean", "min-max-mean-std")
VALUES = (0.0, -0.0, 1.0, -3.25, 1e-308, 1e308, 2.0 ** 53 + 1, 1 / 3,
          float("inf"), float("-inf"), float("nan"), 123456789)
ACTS = ("eio", "enospc", "short", "interrupt", "crash", "crash_torn",
        "crash_after")


class PROP(Prop):
    ID = "C05"
    RUNS = {"quick": 700, "thorough": 26000}
    BUDGET = {"quick": 240, "thorough": 820}
    RULE = ("one evaluation = either a drawn sequence of add / feed / export "
            "/ import / kill operations on a history collection with faults "
            "inside exports, compared after every operation with a "
            "dictionary model, or a drawn run (partial calls, kills, "
            "restarts) whose recorded quantities are compared with what the "
            "snapshots and field files of every iteration say; non-trivial "
            "and distinct = distinct operation sequences with at least one "
            "import of data, or distinct run shapes")
    REAL = ["sktopt HistoryCollection and HistorySeries", "NumPy npz files"
            ] + D.RUN_REAL
    STUB = D.RUN_STUB
    ASSUME = ["crash model as in C03",
              "names ending in _header and the name 'file' are not used (the "
              "npz format of the package reserves them)"]
    PROBES = ["failed_exports", "crashed_exports", "imports", "runs",
              "failed_imports"]

    def gen(self, rng, i):
        if i % 7 == 3:
            spec = W.gen_spec(rng)
            spec["record"] = spec["iters"]
            if rng.random() < 0.4:
                spec = D.gen_conv(rng, spec)
                spec["record"] = spec["iters"]
            return {"spec": spec, "calls": D.gen_calls(rng, spec["iters"]),
                    "faults": [D.gen_disk_fault(rng)]
                    if rng.random() < 0.5 and not spec.get("conv") else [],
                    "calls2": D.gen_calls(rng, spec["iters"], 2)}
        ops = []
        names = rng.sample(NAMES, rng.randint(1, 5))
        kinds = {n: rng.choice(KINDS) for n in names}
        shape = {n: (rng.choice(("s", "s", "a")) if kinds[n] == "value"
                     else rng.choice(("a", "a", "a", "s"))) for n in names}
        for n in names:
            if rng.random() < 0.8:
                ops.append(["add", n, kinds[n]]
                           + ([rng.choice(SHOWN)] if rng.random() < 0.5
                              else []))
        for _ in range(rng.randint(3, 22)):
            r = rng.random()
            if r < 0.08:
                n = rng.choice(names)
                ops.append(["add", n, kinds[n]])
            elif r < 0.62:
                n = rng.choice(names)
                if shape[n] == "s":
                    v = rng.choice(VALUES)
                    ops.append(["feed", n, rng.choice(("f", "0d", "np")),
                                repr(float(v))])
                else:
                    ops.append(["feed", n, rng.choice(("a", "a2", "f32")),
                                rng.randint(1, 6), rng.randint(0, 999)])
            elif r < 0.84:
                op = ["export", rng.choice(("h.npz", "h.npz", "histories.npz"))]
                if rng.random() < 0.5:
                    f = {"at": rng.randint(0, 6), "act": rng.choice(ACTS)}
                    if f["act"] in ("crash_torn", "short", "enospc"):
                        f["frac"] = rng.choice((0.0, 0.3, 0.9, 0.999))
                    op.append(f)
                ops.append(op)
            elif r < 0.90:
                ops.append(["import", rng.choice(("h.npz", "histories.npz"))])
            elif r < 0.94:
                ops.append(["bad", rng.choice(("h.npz", "histories.npz")),
                            rng.choice(("cut", "flip", "empty", "text")),
                            round(rng.random(), 3)])
            elif r < 0.955:
                ops.append(["show", rng.choice(("progress", "print"))])
            elif r < 0.965:
                ops.append(["many", rng.choice(names),
                            rng.choice((33, 70, 130, 300, 1100)),
                            rng.randint(0, 999), shape])
            else:
                ops.append(["reopen", rng.choice(("h.npz", "histories.npz"))])
        for op in ops:
            if op[0] == "many":
                op[4] = op[4][op[1]]
        return {"ops": ops}

    # ---------------------------------------------------------------- algebra
    def run(self, plan, stats):
        if "spec" in plan:
            return self.run_run(plan, stats)
        imported = 0
        with Sim(clock=Clock((1e-3,))) as sim:
            HC = W.S.tools.HistoryCollection
            h = HC(sim.root)
            mem, files, shown = {}, {}, {}
            for n, op in enumerate(plan["ops"]):
                what = f"op {n} {op[:3]}"
                if op[0] == "add":
                    if op[1] in mem:
                        continue
                    kw = dict(op[3]) if len(op) > 3 else {}
                    W.must(what, h.add, op[1], plot_type=op[2], **kw)
                    mem[op[1]] = (op[2], [])
                    shown[op[1]] = kw
                elif op[0] == "feed":
                    if op[1] not in mem:
                        continue
                    v, e = value(op, mem[op[1]][0])
                    W.must(what, h.feed_data, op[1], v)
                    mem[op[1]][1].append(e)
                elif op[0] == "many":
                    if op[1] not in mem:
                        continue
                    rs = np.random.RandomState(op[3])
                    for x in rs.uniform(-5, 5, (op[2], 3)):
                        one = (["feed", op[1], "f", repr(float(x[0]))]
                               if op[4] == "s" else None)
                        if one:
                            v, e = value(one, mem[op[1]][0])
                        else:
                            v, e = x, stats_of(x, mem[op[1]][0])
                        h.feed_data(op[1], v)
                        mem[op[1]][1].append(e)
                elif op[0] == "show":
                    # series of one name hold entries of one shape, or the
                    # chart cannot be drawn
                    if op[1] == "print":
                        W.must(what, h.print)
                    elif all(len({np.shape(y) for y in x}) < 2
                             for t, x in mem.values()):
                        W.must(what, h.export_progress)
                elif op[0] == "bad":
                    if files.get(op[1]) is None:
                        continue
                    with open(sim.path(op[1]), "rb") as fp:
                        b = bytearray(fp.read())
                    at = int(op[3] * (len(b) - 1))
                    if op[2] == "cut":
                        b = b[:at]
                    elif op[2] == "flip":
                        b[at] ^= 0xff
                    else:
                        b = {"empty": b"", "text": b"not an archive"}[op[2]]
                    with open(sim.path("bad.npz"), "wb") as fp:
                        fp.write(bytes(b))
                    try:
                        with D._silence():
                            h.import_histories("bad.npz")
                    except W.HARNESS:
                        raise
                    except Exception:
                        stats.add("failed_imports")
                    else:
                        return          # readable after all; not claimed
                    finally:
                        os.remove(sim.path("bad.npz"))
                elif op[0] == "export":
                    new = {k: (t, list(x)) for k, (t, x) in mem.items() if x}
                    f = op[2] if len(op) > 2 else None
                    sim.disk.arm([f] if f else [])
                    how = "ok"
                    was = sum(v for k, v in sim.disk.fired.items()
                              if k != "fsync_seen")
                    try:
                        with D._silence():
                            h.export_histories(*named(op[1], n))
                    except SimCrash:
                        how = "crash"
                    except SimInterrupt:
                        how = "failed"
                    except Exception as e:
                        how = "failed"
                        if sum(v for k, v in sim.disk.fired.items()
                               if k != "fsync_seen") == was:
                            raise Violation("unexpected-error", f"{what}: "
                                            f"{type(e).__name__}: {e}")
                    finally:
                        sim.disk.disarm()
                    if how == "crash":
                        sim.reboot()
                        stats.add("crashed_exports")
                        h = HC(sim.root)
                        mem, shown = {}, {}
                    got = self.read(sim, op[1])
                    ok = [files.get(op[1])] if how != "ok" else []
                    if new:
                        ok.append(new)
                    else:
                        ok.append(files.get(op[1]))
                    for cand in ok:
                        if match(got, cand):
                            files[op[1]] = cand
                            break
                    else:
                        raise Violation(
                            "export-content",
                            f"{what} ({how}): file holds {short(got)}, "
                            f"expected {' or '.join(map(short, ok))}")
                    if how == "failed":
                        stats.add("failed_exports")
                elif op[0] in ("import", "reopen"):
                    if op[0] == "reopen":
                        h, mem, shown = HC(sim.root), {}, {}
                    W.must(what, h.import_histories, *named(op[1], n))
                    if files.get(op[1]) is not None:
                        imported += 1
                        stats.add("imports")
                        old = mem
                        mem = {k: (t, list(x)) for k, (t, x)
                               in files[op[1]].items()}
                        for k, (t, x) in old.items():
                            # not in the file: emptied names stay; whether
                            # others stay is not claimed
                            if k not in mem and (not x or k in h.histories):
                                mem[k] = (t, x)
                got = {k: (s.plot_type, [row(x) for x in s.data])
                       for k, s in h.histories.items()}
                if not match(got, mem):
                    raise Violation("collection-differs",
                                    f"after {what}: holds {short(got)}, "
                                    f"expected {short(mem)}")
                self.views(h, mem, shown, what)
                for k, (t, x) in mem.items():
                    if x and not eq(row(W.must(what, h.latest, k)), x[-1]):
                        raise Violation("latest-differs", f"{what}: {k}")
            W.count_fired(sim, stats)
        if imported:
            stats.seen("nontrivial", D.sig(plan["ops"]))

    def views(self, h, mem, shown, what):
        """What a user gets from the collection, beyond its raw entries."""
        full = all(x for t, x in mem.values())
        if full and len(h.histories) == len(mem):
            obj = W.must(what, h.as_object)
            new = W.must(what, h.as_object_latest)
        for k, (t, x) in mem.items():
            s = h.histories[k]
            if x:
                v = s.data_np_array
                both = [v, getattr(obj, k)] if full and len(
                    h.histories) == len(mem) else [v]
                for v in both:
                    if len(v) != len(x) or not eq(row(v[-1]), x[-1]) \
                            or not eq(row(v[0]), x[0]):
                        raise Violation(
                            "view-differs", f"after {what}: {k} is shown "
                            f"as {short({k: (t, [row(y) for y in v])})}, "
                            f"entries {short({k: (t, x)})}")
                for y, v in zip(x, both[0]):
                    if not eq(row(v), y):
                        raise Violation("view-differs", f"after {what}: {k} "
                                        f"shows {v} for {y}")
                if len(both) > 1 and not eq(row(getattr(new, k)), x[-1]):
                    raise Violation(
                        "latest-differs", f"after {what}: the latest {k} is "
                        f"{getattr(new, k)}, the last entry is {x[-1]}")
            for a, want in shown.get(k, {}).items():
                if getattr(s, a) != want:
                    raise Violation("display-settings-lost",
                                    f"after {what}: {a} of {k} is "
                                    f"{getattr(s, a)}, was {want}")

    def read(self, sim, fname):
        """What a new reader gets from the file."""
        if not os.path.exists(os.path.join(sim.root, fname)):
            return None
        h = W.S.tools.HistoryCollection(sim.root)
        try:
            with D._silence():
                h.import_histories(fname)
        except W.HARNESS:
            raise
        except Exception as e:
            raise Violation("unreadable-histories",
                            f"{fname}: {type(e).__name__}: {e}")
        return {k: (s.plot_type, [row(x) for x in s.data])
                for k, s in h.histories.items()}

    # ------------------------------------------------------------------- runs
    def run_run(self, plan, stats):
        spec = plan["spec"]
        ref = W.ref(spec)
        in_child(lambda: recomputed(spec, ref))
        with Sim(clock=Clock((1e-3,))) as sim:
            dst = sim.path("r")
            out = D.live(sim, spec, dst, "fresh", plan["calls"],
                         faults=plan["faults"], nops=ref.ops)
            n_life = 1
            while True:
                o = out.opt
                if out.how == "ok":
                    self.observe(dst, o, ref, spec, out)
                    if n_life >= 2 or not plan["faults"]:
                        break
                else:
                    stats.add("deaths")
                sim.reboot()
                n_life += 1
                have = W.checkpoints(dst, strict=False)
                out = D.live(sim, spec, dst, "restart" if have else "fresh",
                             plan["calls2"])
            D.quiet_call(out.opt, ["run"])
            self.observe(dst, out.opt, ref, spec, out)
            D.check_final(dst, out.opt, ref, "at the end")
            W.count_fired(sim, stats)
        stats.add("runs")
        if D.nontrivial(ref):
            stats.seen("nontrivial", D.sig(
                spec["task"]["kind"], spec["opt"], plan["calls"], n_life,
                ref.last))

    def observe(self, dst, o, ref, spec, out):
        """Recorded quantities against the snapshots of every iteration."""
        got = W.hist_arrays(o.recorder)
        rho, fld = W.checkpoints(dst), W.fields(dst)
        last = max(rho, default=0)
        for k, v in got.items():
            if len(v) != last:
                raise Violation("history-length",
                                f"{k} has {len(v)} entries after {last} "
                                f"iterations")
        for i in range(2, last + 1):
            if i not in rho or i - 1 not in rho:
                continue
            d = float(np.max(np.abs(rho[i] - rho[i - 1])))
            if not W.same(got["rho_change_max"][i - 1], d, rtol=1e-6,
                              atol=1e-9):
                raise Violation(
                    "recorded-value",
                    f"rho_change_max of iteration {i} is "
                    f"{got['rho_change_max'][i - 1]}, the densities moved "
                    f"by {d}")
        kkt = getattr(o, "kkt_residual", None)
        if kkt is not None and last and not W.same(
                got["kkt_residual"][-1].ravel()[0], kkt, rtol=1e-6,
                atol=1e-12):
            raise Violation("recorded-value", f"kkt_residual of iteration "
                            f"{last} is {got['kkt_residual'][-1]}, the "
                            f"optimizer has {kkt}")
        for i, f in fld.items():
            if i > last:
                continue
            for name, x in (("rho_projected", f["rho_projected"][ref.design]),
                            ("energy", f["energy"])):
                e = np.array([x.min(), x.mean(), x.max(), x.std()])
                if not W.same(got[name][i - 1], e, rtol=1e-5,
                              atol=1e-7 * max(1.0, np.abs(x).max())):
                    raise Violation(
                        "recorded-value",
                        f"{name} of iteration {i} is {got[name][i - 1]}, "
                        f"the field has {e}")

    def shrink(self, plan):
        if "ops" in plan:
            yield from D.shrink_list(plan["ops"], "ops", plan)
            for i, op in enumerate(plan["ops"]):
                if op[0] == "export" and len(op) > 2:
                    yield dict(plan, ops=plan["ops"][:i] + [op[:2]]
                               + plan["ops"][i + 1:])
            return
        if plan["faults"]:
            yield dict(plan, faults=[])
        for k in ("calls", "calls2"):
            for c in D.shrink_calls(plan[k]):
                yield dict(plan, **{k: c})
        for s in W.shrink_spec(plan["spec"]):
            yield dict(plan, spec=dict(s, record=s["iters"]))


def recomputed(spec, ref):
    """Quantities that no field file holds, against a new evaluation."""
    for t in oracle.steps(spec, ref):
        got = {k: np.ravel(v[t.k - 1]) for k, v in ref.hist.items()}
        u = np.abs(t.u).max(axis=0)
        want = {"u_max": u[0] if u.size == 1 else
                [u.min(), u.mean(), u.max(), u.std()],
                t.name: t.objective, "neumann_scale": t.scale,
                "energy": [f(t.energy) for f in (np.min, np.mean, np.max,
                                                 np.std)]}
        for name, w in want.items() if t.sound else ():
            if name not in got:
                raise Violation("nothing-recorded", name)
            if not W.same(got[name], np.ravel(w), rtol=0, atol=max(
                    1e-9, 10 * t.loose * np.max(np.abs(w)))):
                raise Violation(
                    "recorded-value", f"{name} of iteration {t.k} is "
                    f"{got[name]}, evaluated anew {w}")
        if "dL" in got and "kkt_residual" in got:
            top = np.max(np.abs(got["dL"]))
            k = got["kkt_residual"][0]
            inside = np.all((t.prev > t.lo + 1e-5)
                            & (t.prev < t.hi - 1e-5))
            if k > top * (1 + 1e-6) or (inside and k < top * (1 - 1e-6)):
                raise Violation(
                    "recorded-value", f"kkt_residual of iteration {t.k} is "
                    f"{k}, the Lagrangian's gradient reaches {top}")


def named(fname, n):
    """The default file may be named or left out."""
    return () if fname == "histories.npz" and n % 2 else (fname,)


def value(op, kind):
    """The value to feed, and the entry the collection should hold."""
    if op[2] in ("f", "0d", "np"):
        x = float(op[3])
        v = {"f": x, "0d": np.array(x), "np": np.float64(x)}[op[2]]
        return v, (x,)
    rs = np.random.RandomState(op[4])
    x = rs.uniform(-5, 5, op[3])
    if op[2] == "a2":
        x = np.stack([x, x * 2])
    if op[2] == "f32":
        x = x.astype(np.float32).astype(np.float64)
    return x, stats_of(x, kind)


def stats_of(x, kind):
    e = [float(x.min()), float(x.mean()), float(x.max())]
    if kind == "min-max-mean-std":
        e.append(float(x.std()))
    return tuple(e)


def row(x):
    if isinstance(x, (list, tuple)) or (
            isinstance(x, np.ndarray) and x.ndim):
        return tuple(float(y) for y in x)
    return (float(x),)


def eq(a, b):
    return len(a) == len(b) and all(
        (math.isnan(x) and math.isnan(y)) or x == y
        or abs(x - y) <= 1e-12 * max(abs(x), abs(y)) for x, y in zip(a, b))


def match(got, want):
    if got is None or want is None:
        return got is want
    if set(got) != set(want):
        return False
    for k in got:
        if got[k][0] != want[k][0] or len(got[k][1]) != len(want[k][1]):
            return False
        if not all(eq(a, b) for a, b in zip(got[k][1], want[k][1])):
            return False
    return True


def short(m):
    if m is None:
        return "no file"
    return "{" + ", ".join(f"{k[:14]}[{t}]: {x[:3]}{'...' if len(x) > 3 else ''}"
                           for k, (t, x) in sorted(m.items())) + "}"
