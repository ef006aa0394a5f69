"""Runs as users live them: several processes, each making calls that may be
hit by faults, retried after failures, killed and restarted."""
from . import drive as D
from . import world as W
from .core import Violation
from .vfs import SimCrash, SimInterrupt

LOUD = ("raise", "memory", "interrupt")


def gen_session(rng, iters, crash=0.5, fail=0.5, n_max=3, lib=0.0):
    lives = []
    n = rng.choice((1, 1, 2, 2, 3)) if n_max > 1 else 1
    if iters > 12:                      # watching every call is slow
        lib = 0.0
    for _ in range(min(n, n_max)):
        calls = []
        for c in D.gen_calls(rng, iters, 3):
            x = {"call": c}
            r = rng.random()
            if r < fail * 0.35:
                x["disk"] = [D.gen_disk_fault(
                    rng, ("eio", "enospc", "interrupt", "short"), 0.5)]
            elif r < fail * 0.65:
                x["solver"] = [{"pos": round(rng.random() ** 1.5, 3),
                                "act": rng.choice(LOUD)}]
            elif r < fail:
                x["filter"] = [{"pos": round(rng.random() ** 1.5, 4),
                                "act": rng.choice(LOUD)}]
            elif r < fail + (1 - fail) * crash * 0.6:
                x["disk"] = [D.gen_disk_fault(rng)]
            elif r > 1 - lib:
                x["calls"] = [{"pos": round(rng.random(), 4),
                               "act": rng.choice(LOUD)}]
            calls.append(x)
        lives.append({"calls": calls,
                      "start": "restart" if rng.random() < 0.8
                      else round(rng.random(), 3)})
    return lives


def budget(spec):
    """Rough numbers of seam operations of a whole run."""
    it = spec["iters"]
    return {"disk": 25 + 24 * it,
            "solver": it * (spec["task"].get("cases", 2)
                            if spec["task"]["kind"] in ("el2", "heat2")
                            else 1),
        "filter": it * (20 if spec["opt"] == "oc" else 5),
            "calls": 700}


class Session:
    """Executes lives. ``on_call(o, base, call, err, completed)`` is called
    whenever the process survived a call, ``on_death`` after each kill."""

    def __init__(self, sim, spec, dst, lives, on_call=None, on_start=None,
                 on_death=None, final=True, anew=False):
        self.sim, self.spec, self.dst = sim, spec, dst
        self.lives = lives
        self.on_call = on_call or (lambda *a: None)
        self.on_start = on_start or (lambda *a: None)
        self.on_death = on_death or (lambda *a: None)
        self.final = final
        self.anew = anew            # start over in a used directory
        self.story = []

    def completed(self, o, what):
        h = W.hist_arrays(o.recorder)
        n = {len(v) for v in h.values()}
        if len(n) != 1:
            raise Violation("history-length", f"{what}: "
                            f"{ {k: len(v) for k, v in h.items()} }")
        return n.pop()

    def go(self):
        todo = [dict(li) for li in self.lives]
        last = {"calls": [], "start": "restart", "final": True}
        if self.final:
            todo.append(last)
        for n, life in enumerate(todo):
            o = self.life(n, life, final=life is last)
            self.sim.reboot()
        return o

    def life(self, n, life, final):
        sim, spec, dst = self.sim, self.spec, self.dst
        have = sorted(W.checkpoints(dst, strict=False))
        start, base = "fresh", 0
        if have and not (self.anew and n == 0):
            start, base = "restart", have[-1]
            if life["start"] != "restart":
                base = start = have[min(int(life["start"] * len(have)),
                                        len(have) - 1)]
        kw = dict(D.start_over(spec, start, dst), **life.get("over", {}))
        o = W.must(f"life {n}: set-up", W.make_opt, spec, dst, **kw)
        self.on_start(o, n, start, base)
        self.story.append((start if start == "fresh" else "restart", base))
        b = budget(spec)
        done = base
        calls = life["calls"] + ([{"call": ["run"]}] if final else [])
        for c in calls:
            what = f"life {n} call {c['call']} after iteration {done}"
            left = max(1, spec["iters"] - done) / spec["iters"]
            was = fired(sim)
            sim.disk.arm(D.resolve(c.get("disk"), b["disk"] * left))
            sim.solver.arm(D.resolve(c.get("solver"), b["solver"] * left))
            sim.filter.arm(D.resolve(c.get("filter"), b["filter"] * left))
            if sim.calls:
                sim.calls.arm(D.resolve(c.get("calls"), b["calls"]))
            err = None
            try:
                with D._silence():
                    D.make_call(o, c["call"])
            except Violation:
                raise
            except SimCrash:
                sim.reboot()
                self.story.append("killed")
                self.on_death(n, what)
                return None
            except SimInterrupt as e:
                err = e
            except Exception as e:
                err = e
            finally:
                sim.disk.disarm()
                sim.solver.disarm()
                sim.filter.disarm()
                if sim.calls:
                    sim.calls.disarm()
            if err is not None and fired(sim) == was:
                raise Violation("unexpected-error",
                                f"{what}: {type(err).__name__}: {err}")
            before = done
            done = self.completed(o, what)
            if done == 0 and err is not None:
                done = before        # failed before it read the checkpoint
            self.story.append((done, type(err).__name__))
            self.on_call(o, before, c["call"], err, done, what)
        return o


def fired(sim):
    return {k: v for k, v in sim.fired().items()
            if not k.endswith(("fsync_seen", "disk_full"))}


def shrink(plan, key="lives"):
    ls = plan[key]
    for i in range(len(ls)):
        yield dict(plan, **{key: ls[:i] + ls[i + 1:]})
    for i, li in enumerate(ls):
        def put(**kw):
            return dict(plan, **{key: ls[:i] + [dict(li, **kw)]
                                 + ls[i + 1:]})
        if li.get("over"):
            yield put(over={})
        if li["start"] != "restart":
            yield put(start="restart")
        cs = li["calls"]
        for j, c in enumerate(cs):
            yield put(calls=cs[:j] + cs[j + 1:])
            for k in ("disk", "solver", "filter", "calls"):
                if k in c:
                    yield put(calls=cs[:j] + [{
                        a: b for a, b in c.items() if a != k}] + cs[j + 1:])
            if c["call"][0] == "steps" and c["call"][1] > 1:
                yield put(calls=cs[:j] + [dict(
                    c, call=["steps", c["call"][1] - 1])] + cs[j + 1:])
