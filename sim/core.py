"""Search driver: seeds -> plans -> runs, in parallel; shrink; replay;
evidence. Only two outcomes count: exit 0, and exit 1 with a VIOLATION line.
Anything that goes wrong in the harness itself ends with exit 2."""
import hashlib
import json
import multiprocessing as mp
import os
import pickle
import random
import resource
import select
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RT = time.monotonic            # real clock, bound before any seam exists
# A plan makes no progress when it has used this much processor time, when it
# has stood still for as long, or when it is not done after the second limit:
# a loaded machine alone does not make a plan late.
PLAN_WATCHDOG = 150
PLAN_WALL = 330
_open, _read, _close = os.open, os.read, os.close
_live = []                     # children being waited for


class Violation(Exception):
    """The property does not hold on this run. ``kind`` names the class of
    the violation (stable under shrinking); ``detail`` is for the reader."""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = str(detail)[:1500]


class Hang(BaseException):
    pass


def derive(seed, *parts):
    h = hashlib.sha256(repr((seed,) + parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Stats:
    """What a run covered; merged over all runs."""

    def __init__(self):
        self.n = {}
        self.sets = {}

    def add(self, key, k=1):
        self.n[key] = self.n.get(key, 0) + k

    def seen(self, key, value):
        self.sets.setdefault(key, set()).add(value)

    def merge(self, o):
        for k, v in o.n.items():
            self.n[k] = self.n.get(k, 0) + v
        for k, v in o.sets.items():
            self.sets.setdefault(k, set()).update(v)


def _execute_here(prop, plan, stats):
    """Run one plan in this process. Returns None or the violation."""
    t0, cpu0 = RT(), _cpu()

    def alarm(_s, _f):
        wall, cpu = RT() - t0, _cpu() - cpu0
        if cpu > PLAN_WATCHDOG or wall > PLAN_WALL or (
                wall > PLAN_WATCHDOG and cpu < wall / 50):
            raise Hang()
    old = signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, 2, 2)
    try:
        if plan.get("reference"):
            prop.gen(random.Random(plan["reference"][0]),
                     plan["reference"][1])
            return None
        prop.run(plan, stats)
        return None
    except Violation as v:
        return {"kind": v.kind, "detail": v.detail}
    except Hang:
        return {"kind": "no-progress",
                "detail": f"run did not end within {PLAN_WATCHDOG}s of "
                "processor time"}
    except Exception as e:
        if not _theirs(e):
            raise
        return {"kind": "unexpected-error",
                "detail": f"{type(e).__name__}: {e} "
                f"({_where(e)})"}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _cpu():
    """Processor time of this process and of the children it waits for."""
    t = 0.0
    for who in (resource.RUSAGE_SELF, resource.RUSAGE_CHILDREN):
        u = resource.getrusage(who)
        t += u.ru_utime + u.ru_stime
    for pid in _live:
        try:
            fd = _open(f"/proc/{pid}/stat", os.O_RDONLY)
            try:
                f = _read(fd, 4096).rsplit(b")", 1)[1].split()
            finally:
                _close(fd)
            t += (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError, ValueError):
            pass
    return t


def _frames(e):
    sim = os.path.dirname(os.path.abspath(__file__)) + os.sep
    pkg = getattr(sys.modules.get("sktopt"), "__file__", None)
    pkg = os.path.dirname(os.path.abspath(pkg)) + os.sep if pkg else None
    for f in traceback.extract_tb(e.__traceback__):
        name = os.path.abspath(f.filename)
        if name.startswith(sim):
            yield "sim", f
        elif pkg and name.startswith(pkg):
            yield "sktopt", f


def _theirs(e):
    """Was the error raised by, or under, the code under test?"""
    last = None
    for who, _ in _frames(e):
        last = who
    return last == "sktopt"


def _where(e):
    return [f"{os.path.basename(f.filename)}:{f.name}"
            for who, f in _frames(e) if who == "sktopt"][-1]


class ChildDied(Exception):
    pass


def in_child(fn):
    """Run fn in a forked child and return its picklable result. The parent
    stays as it was after set-up, so that no run sees what another left."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except Violation as v:
                out = ("viol", (v.kind, v.detail))
            except BaseException as e:
                out = ("err", traceback.format_exc())
                if isinstance(e, Exception) and _theirs(e):
                    out = ("viol", ("unexpected-error",
                                    f"{type(e).__name__}: {e} ({_where(e)})"))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    _live.append(pid)
    buf, t_end = b"", RT() + PLAN_WALL + 60
    killed = False
    try:
        while True:
            left = t_end - RT()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                killed = True
                break
            if not select.select([r], [], [], min(left, 5))[0]:
                continue
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf += b
    except BaseException:               # the watchdog, mostly
        _live.remove(pid)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    finally:
        os.close(r)
    _live.remove(pid)
    _, st = os.waitpid(pid, 0)
    if killed:
        raise ChildDied("stuck")
    if os.WIFSIGNALED(st):
        raise ChildDied(f"signal {os.WTERMSIG(st)}")
    try:
        tag, val = pickle.loads(buf)
    except Exception as e:
        raise ChildDied(f"no answer ({type(e).__name__})")
    if tag == "viol":
        raise Violation(*val)
    if tag == "err":
        raise RuntimeError("run failed in the harness:\n" + val)
    return val


def execute(prop, plan):
    """One plan in its own child process -> (violation or None, stats)."""
    def go():
        st = Stats()
        return _execute_here(prop, plan, st), st
    try:
        return in_child(go)
    except ChildDied as e:
        if "signal 9" in str(e):        # memory ran out: not a verdict
            raise
        return {"kind": "process-died", "detail": str(e)}, Stats()


def generate_and_execute(prop, seed, i):
    """-> (plan, violation or None, stats)."""
    sub = derive(seed, prop.ID, i)

    def go():
        st = Stats()
        try:
            plan = prop.gen(random.Random(sub), i)
        except Violation as v:
            return ({"reference": [sub, i]},
                    {"kind": v.kind, "detail": v.detail}, st)
        return plan, _execute_here(prop, plan, st), st
    try:
        return in_child(go)
    except ChildDied as e:
        if "signal 9" in str(e):
            raise
        plan = in_child(lambda: prop.gen(random.Random(sub), i))
        return plan, {"kind": "process-died", "detail": str(e)}, Stats()


def _quiet():
    import logging
    import warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    sys.stdout = open(os.devnull, "w")


def _worker(prop, seed, w, nw, total, deadline, stop, q):
    try:
        _quiet()
        try:
            prop.setup()
        except Violation as v:
            q.put(("viol", -1, {"setup": True},
                   {"kind": v.kind, "detail": v.detail}))
            q.put(("done", w, Stats(), 0, [], [], None))
            return
        stats = Stats()
        done, samples, digests = 0, [], []
        worst = (0.0, None)
        for i in range(w, total, nw):
            if stop.is_set() or RT() > deadline:
                break
            t0 = RT()
            plan, v, st = generate_and_execute(prop, seed, i)
            stats.merge(st)
            dt = RT() - t0
            if dt > worst[0]:
                worst = (dt, i)
            done += 1
            if len(samples) < 2 and (i // nw) in (0, 3):
                samples.append(plan)
            digests.append(plan_digest(plan))
            if v is not None:
                q.put(("viol", i, plan, v))
                if prop.known(v, plan) is None:
                    stop.set()
                    break
        q.put(("done", w, stats, done, samples, digests, worst))
    except BaseException:
        q.put(("err", w, traceback.format_exc()))


def plan_digest(plan):
    return hashlib.sha256(
        json.dumps(plan, sort_keys=True).encode()).hexdigest()[:16]


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        data = json.load(f)
    return [e for e in data.get("findings", []) if e["property"] == pid]


def shrink(prop, plan, v, budget_s, log):
    """Greedy: take any smaller plan that fails in the same class."""
    global PLAN_WATCHDOG
    t_end = RT() + budget_s
    cur, tries = plan, 0
    full = PLAN_WATCHDOG
    if v["kind"] == "no-progress":      # judged in full when confirmed
        PLAN_WATCHDOG = full / 5
    improved = True
    while improved and RT() < t_end:
        improved = False
        for cand in prop.shrink(cur):
            if RT() > t_end:
                break
            if cand == cur:
                continue
            tries += 1
            try:
                r, _ = execute(prop, cand)
            except Exception:
                continue
            if r is not None and r["kind"] == v["kind"]:
                cur, v = cand, r
                improved = True
                break
    PLAN_WATCHDOG = full
    log(f"shrink: {tries} candidate runs")
    return cur, v


def search(prop, seed, tier, n_workers=None):
    t0 = RT()
    total = prop.RUNS[tier]
    budget = prop.BUDGET[tier]
    nw = n_workers or min(8, os.cpu_count() or 1)
    if tier == "quick":
        nw = min(nw, max(1, total // 4))
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    stop = ctx.Event()
    deadline = t0 + budget
    ps = []
    for w in range(nw):
        p = ctx.Process(target=_worker, args=(
            prop, seed, w, nw, total, deadline, stop, q), daemon=True)
        p.start()
        ps.append(p)
    stats, done = Stats(), 0
    viols, samples, digests, errs, worst = [], [], set(), [], (0, None)
    left = nw
    hard = deadline + PLAN_WALL + 60
    while left:
        try:
            m = q.get(timeout=5)
        except Exception:
            if RT() > hard or any(
                    (not p.is_alive()) and p.exitcode not in (0, None)
                    for p in ps):
                errs.append("worker died or did not answer")
                break
            continue
        if m[0] == "viol":
            viols.append(m[1:])
        elif m[0] == "err":
            errs.append(m[2])
            left -= 1
            stop.set()
        else:
            left -= 1
            stats.merge(m[2])
            done += m[3]
            samples += m[4]
            digests.update(m[5])
            if m[6] and m[6][0] > worst[0]:
                worst = m[6]
    for p in ps:
        p.join(timeout=5)
        if p.is_alive():
            p.kill()
    return dict(total=total, done=done, stats=stats, viols=viols, errs=errs,
                samples=samples, digests=digests, wall=RT() - t0, workers=nw,
                worst=worst)


def write_evidence(prop, seed, tier, res, violations, extra=None):
    st = res["stats"]
    wall = res["wall"]
    cov = dict(
        evaluations=res["done"],
        distinct_nontrivial=len(st.sets.get("nontrivial", ())),
        rule=prop.RULE,
        samples=res["samples"][:3] or [{"note": "no run completed"}],
        planned_runs=res["total"],
        distinct_plans=len(res["digests"]),
        runs_per_hour=round(res["done"] / max(wall, 1e-9) * 3600),
        workers=res["workers"],
        slowest_run_s=round(res["worst"][0], 2),
        counters={k: st.n[k] for k in sorted(st.n)
                  if not k.startswith("fault:")},
        faults_injected={k[6:]: st.n[k] for k in sorted(st.n)
                         if k.startswith("fault:")},
        distinct={k: len(v) for k, v in sorted(st.sets.items())},
        real_components=prop.REAL, stubbed_components=prop.STUB,
        simulated_seconds=round(st.n.get("sim_ms", 0) / 1000.0, 3),
    )
    cov.update(extra or {})
    ev = dict(property=prop.ID, tier=tier, seed=seed, level="exploration",
              coverage=cov, assumptions=prop.ASSUME, wall_s=round(wall, 2),
              violations=violations)
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{prop.ID}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, f"{prop.ID}.json"))


def replay_file(prop, plan, v, seed, index, original_plan):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop.ID}-{plan_digest(plan)}.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop.ID, verif_seed=seed, run_index=index,
                       plan=plan, violation=v,
                       original_plan_digest=plan_digest(original_plan),
                       replay=f"python check.py {prop.ID} --replay {path}"),
                  f, indent=1)
    return path


def main_check(prop, argv):
    out = sys.stdout

    def say(*a):
        print(*a, file=out, flush=True)

    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    runs = workers = None
    it = iter(argv)
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif a == "--seed":
            seed = int(next(it))
        elif a == "--replay":
            replay = next(it)
        elif a == "--runs":
            runs = int(next(it))
        elif a == "--workers":
            workers = int(next(it))
        elif a == "--shrink":
            prop.SHRINK_S = float(next(it))
        elif a == "--serve":
            from . import helpers
            _quiet()
            helpers.serve(prop, next(it))
            return 0
    if tier not in ("quick", "thorough"):
        tier = "quick"
    prop.prepare()
    if replay:
        with open(replay) as f:
            rec = json.load(f)
        _quiet()
        prop.setup_safe()
        v = (execute(prop, rec["plan"])[0]
             if not rec["plan"].get("setup") else prop.setup_violation())
        if v is None:
            say(f"replay: no violation of {prop.ID}")
            return 0
        say(json.dumps(v))
        say(f"VIOLATION property={prop.ID} replay={replay}")
        return 1
    if runs:
        prop.RUNS = dict(prop.RUNS, **{tier: runs})
        prop.BUDGET = dict(prop.BUDGET, **{tier: 10 ** 6})
    say(f"{prop.ID} tier={tier} VERIF_SEED={seed} runs<={prop.RUNS[tier]}")
    res = search(prop, seed, tier, workers)
    if res["errs"]:
        say("harness error:\n" + "\n".join(res["errs"]))
        write_evidence(prop, seed, tier, res, 0, {"harness_errors":
                                                  res["errs"]})
        return 2
    fresh, known = [], {}
    for (i, plan, v) in sorted(res["viols"], key=lambda x: x[0]):
        k = prop.known(v, plan)
        if k is None:
            fresh.append((i, plan, v))
        else:
            known.setdefault(k["id"], (k, v))
    for kid, (k, v) in sorted(known.items()):
        say(f"KNOWN-FINDING: property={prop.ID} {k['id']} {k['what']}")
    st = res["stats"]
    say(f"runs={res['done']} distinct_nontrivial="
        f"{len(st.sets.get('nontrivial', ()))} wall={res['wall']:.1f}s "
        f"slowest={res['worst']}")
    say("faults: " + json.dumps({k[6:]: v for k, v in sorted(st.n.items())
                                 if k.startswith("fault:")}))
    if not fresh:
        write_evidence(prop, seed, tier, res, 0,
                       {"known_findings_seen": sorted(known)})
        if res["done"] == 0:
            say("no run completed")
            return 2
        probes = [p for p in prop.PROBES if not st.n.get(p)]
        if probes and res["done"] >= res["total"]:
            say(f"note: probes never hit: {probes}")
        return 0
    i, plan, v = fresh[0]
    say(f"violation in run {i}: {v['kind']}: {v['detail'][:400]}")
    orig = plan
    saved_stdout = sys.stdout
    if not plan.get("setup") and not plan.get("reference"):
        _quiet()
        try:
            prop.setup_safe()
            plan, v = shrink(prop, plan, v, prop.SHRINK_S, say)
        finally:
            sys.stdout = saved_stdout
    # the file must fail the same way in a fresh process; one that does not
    # depends on something outside the simulation, so try what else was found
    path, ok, r = confirm(prop, plan, v, seed, i, orig)
    for j, p, w in [fresh[0]] * (plan is not orig) + fresh[1:4]:
        if ok:
            break
        say(f"does not replay: {v['kind']}: {r[-300:]}")
        i, plan, v, orig = j, p, w, p
        path, ok, r = confirm(prop, p, w, seed, j, p)
    say(f"minimised: {json.dumps(plan)[:1500]}")
    say(f"{v['kind']}: {v['detail']}")
    say(f"replay in a fresh process: {'same violation' if ok else 'DIFFERENT: ' + r[-1000:]}")
    late = not ok and v["kind"] == "no-progress"
    write_evidence(prop, seed, tier, res, 0 if late else len(fresh),
                   {"violation": v, "replay": path, "replay_confirmed": ok})
    if late:
        say("note: the run that did not end in time ends when run alone")
        return 0
    if not ok:
        say("harness error: the failure does not replay")
        return 2
    say(f"VIOLATION property={prop.ID} replay={path}")
    return 1


def confirm(prop, plan, v, seed, i, orig):
    """Write the replay file and run it in a fresh process."""
    path = replay_file(prop, plan, v, seed, i, orig)
    try:
        r = subprocess.run(
            [sys.executable, os.path.join(VERIF, "check.py"), prop.ID,
             "--replay", path], capture_output=True, text=True, cwd=VERIF,
            timeout=PLAN_WALL + 60)
    except subprocess.TimeoutExpired:
        return path, False, "timed out"
    ok = r.returncode == 1 and \
        f'"kind": {json.dumps(v["kind"])}' in r.stdout
    return path, ok, r.stdout[-500:] + r.stderr[-500:]


class Prop:
    ID = "C00"
    RUNS = {"quick": 100, "thorough": 1000}
    BUDGET = {"quick": 100, "thorough": 800}
    SHRINK_S = 60
    RULE = ""
    REAL = []
    STUB = []
    ASSUME = []
    PROBES = []

    def __init__(self):
        self._known = load_known(self.ID)

    def prepare(self):
        """Once, before workers are forked off."""

    def setup(self):
        """Import the code under test and warm it up."""
        from . import world
        world.load()

    def setup_safe(self):
        try:
            self.setup()
        except Violation:
            pass

    def setup_violation(self):
        try:
            self.setup()
        except Violation as v:
            return {"kind": v.kind, "detail": v.detail}
        return None

    def gen(self, rng, i):
        raise NotImplementedError

    def run(self, plan, stats):
        raise NotImplementedError

    def shrink(self, plan):
        return iter(())

    def known(self, v, plan):
        for k in self._known:
            if k["kind"] == v["kind"] and all(
                    s in v["detail"] for s in k.get("detail_contains", [])):
                return k
        return None
