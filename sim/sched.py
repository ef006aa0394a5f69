"""Who runs next. Threads are real but only one of them runs at a time: at
every seam operation the running one stops and the schedule (a list of
[operation number, target]) says who goes on. Nested calls run on top of one
another in one thread, entered at the same points."""
import os
import sys
import threading

from .core import Violation


class Lines:
    """Makes every line of the code under test an operation (sys.monitoring),
    so that threads can be switched anywhere in it."""

    def __init__(self, hook, package):
        self.hook = hook
        self.prefix = os.path.dirname(os.path.abspath(package.__file__)) \
            + os.sep
        self.n = 0

    def _line(self, code, line):
        if not code.co_filename.startswith(self.prefix):
            return sys.monitoring.DISABLE
        self.n += 1
        self.hook("line", "")

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(4, "schedule")
        m.register_callback(4, m.events.LINE, self._line)
        m.set_events(4, m.events.LINE)
        m.restart_events()
        return self

    def __exit__(self, *exc):
        m = sys.monitoring
        m.set_events(4, 0)
        m.register_callback(4, m.events.LINE, None)
        m.free_tool_id(4)
        return False


def _asleep(native):
    try:
        with open(f"/proc/self/task/{native}/stat", "rb") as f:
            return f.read().rsplit(b")", 1)[1].split()[0] in (b"S", b"D")
    except OSError:
        return False


class Threads:
    """Run one function per thread under a fixed schedule."""

    def __init__(self, jobs, switches):
        self.jobs = jobs
        self.at = {}
        for k, t in switches:
            self.at.setdefault(k, t)
        self.k = 0
        self.cv = threading.Condition()
        self.idents = {}
        self.alive = set(range(len(jobs)))
        self.blocked = set()
        self.current = None
        self.progress = 0
        self.errors = {}
        self.taken = 0
        self.trace = []

    def who(self):
        return self.idents.get(threading.get_ident())

    def hook(self, kind, what):
        me = self.who()
        if me is None:
            return
        with self.cv:
            self.progress += 1
            if me in self.blocked:
                self.blocked.discard(me)
            elif self.current == me:
                k = self.k
                self.k += 1
                t = self.at.get(k)
                if t is not None:
                    t = self._runnable(t)
                    if t is not None and t != me:
                        self.taken += 1
                        self.trace.append((me, kind, t))
                        self.current = t
                        self.cv.notify_all()
            while self.current != me:
                self.cv.wait(1.0)
            self.progress += 1

    def _runnable(self, t):
        xs = sorted(self.alive - self.blocked)
        if not xs:
            return None
        return t if t in xs else xs[t % len(xs)]

    def _body(self, i):
        self.idents[threading.get_ident()] = i
        with self.cv:
            while self.current != i:
                self.cv.wait(1.0)
        try:
            self.jobs[i]()
        except BaseException as e:
            self.errors[i] = e
        with self.cv:
            self.alive.discard(i)
            self.blocked.discard(i)
            self.progress += 1
            self.idents.pop(threading.get_ident(), None)
            if self.current == i:
                self.current = self._runnable(i + 1)
            self.cv.notify_all()

    def run(self):
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True)
              for i in range(len(self.jobs))]
        for t in ts:
            t.start()
        last, quiet = -1, 0
        with self.cv:
            self.current = 0
            self.cv.notify_all()
            while self.alive:
                self.cv.wait(0.2)
                cur = self.current
                if self.progress != last or cur is None or \
                        not _asleep(ts[cur].native_id):
                    last, quiet = self.progress, 0
                    continue
                quiet += 1
                if quiet >= 10:
                    # it waits for something another thread holds
                    self.blocked.add(cur)
                    nxt = self._runnable(0)
                    if nxt is None:
                        raise Violation("deadlock",
                                        f"threads {sorted(self.alive)} wait "
                                        "for one another")
                    self.current = nxt
                    last, quiet = -1, 0
                    self.cv.notify_all()
        for t in ts:
            t.join(5)


class Nested:
    """At given operations, run a call of another job on top."""

    def __init__(self, jobs, switches, depth=3):
        self.jobs = [list(j) for j in jobs]      # lists of calls
        self.at = {}
        for k, t in switches:
            self.at.setdefault(k, t)
        self.k = 0
        self.depth = depth
        self.active = []
        self.taken = 0
        self.trace = []

    def who(self):
        return self.active[-1] if self.active else None

    def hook(self, kind, what):
        if not self.active:
            return
        k = self.k
        self.k += 1
        t = self.at.get(k)
        if t is None or len(self.active) >= self.depth:
            return
        free = [i for i in range(len(self.jobs))
                if i not in self.active and self.jobs[i]]
        if not free:
            return
        t = free[t % len(free)]
        self.taken += 1
        self.trace.append((self.active[-1], kind, t))
        self.call(t)

    def call(self, i):
        f = self.jobs[i].pop(0)
        self.active.append(i)
        try:
            f()
        finally:
            self.active.pop()

    def run(self):
        while any(self.jobs):
            for i in range(len(self.jobs)):
                if self.jobs[i]:
                    self.call(i)
