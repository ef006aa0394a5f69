"""Simulated disk: every file operation the code makes below a root directory
goes through this module, which counts it and may fail it, tear it, or end the
simulated process there. Files really live in a scratch directory, so that the
recovery side of a run reads exactly the bytes that survived."""
import builtins
import errno
import io
import os
import shutil
import stat

from .core import Violation


class SimCrash(BaseException):
    """The simulated process dies here."""


class SimInterrupt(KeyboardInterrupt):
    """The user presses Ctrl-C here."""


MUT = ("open_w", "write", "fsync", "rename", "unlink", "mkdir", "rmdir",
       "truncate", "close")

_real = dict(
    open=builtins.open, os_open=os.open, replace=os.replace, rename=os.rename,
    remove=os.remove, unlink=os.unlink, mkdir=os.mkdir, rmdir=os.rmdir,
    fsync=os.fsync, fdatasync=os.fdatasync, listdir=os.listdir,
    scandir=os.scandir, write=os.write, truncate=os.truncate,
    close=os.close, link=os.link, symlink=os.symlink,
)


class _Raw(io.FileIO):
    """Raw file below the simulated disk."""

    def __init__(self, disk, file, mode, rel, **kw):
        self._disk = disk
        self._rel = rel
        self._epoch = disk.epoch
        self._w = any(c in mode for c in "wax+")
        super().__init__(file, mode, **kw)
        try:
            disk.fd_rel[self.fileno()] = rel
        except Exception:
            pass

    def _dead(self):
        return self._disk.frozen or self._epoch != self._disk.epoch

    def write(self, b):
        n = memoryview(b).nbytes
        if self._dead():
            return n
        d = self._disk
        act = d.op("write", self._rel, n)
        if act is not None:
            kind = act["act"]
            part = int(n * act.get("frac", 0.5))
            if kind == "crash_torn":
                if part:
                    super().write(memoryview(b).cast("B")[:part])
                d.crash()
            if kind == "torn_err":
                if part:
                    super().write(memoryview(b).cast("B")[:part])
                raise OSError(act.get("errno", errno.ENOSPC),
                              os.strerror(act.get("errno", errno.ENOSPC)))
            if kind == "short" and part:
                return super().write(memoryview(b).cast("B")[:part])
        r = super().write(b)
        d.after()
        return r

    def truncate(self, size=None):
        if self._dead():
            return size if size is not None else 0
        self._disk.op("truncate", self._rel, 0)
        r = super().truncate(size)
        self._disk.after()
        return r

    def readinto(self, b):
        if self._dead():
            return 0
        self._disk.reads += 1
        return super().readinto(b)

    def readall(self):
        if self._dead():
            return b""
        self._disk.reads += 1
        return super().readall()

    def close(self):
        if not self.closed:
            try:
                fd = self.fileno()
                if self._disk.fd_rel.get(fd) == self._rel:
                    self._disk.fd_rel.pop(fd, None)
            except Exception:
                pass
        super().close()


class Disk:
    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.epoch = 0
        self.frozen = False
        self.n = 0                 # mutating operations since arm()
        self.total_ops = 0
        self.reads = 0
        self.faults = []           # [{"at": k, "act": ..., ...}]
        self.pending_after = None
        self.fired = {}            # fault kind -> count
        self.log = []              # (op, rel) of the armed stretch
        self.trace = None          # running digest of all ops
        self.fd_rel = {}
        self.unsynced = {}         # rel -> length known to be durable
        self.power = None          # list of fractions for power loss
        self.full_until = None     # ENOSPC until op index
        self.list_order = None     # function(list) -> list
        self.yield_hook = None     # thread scheduler
        self.observers = []        # called after each op with (op, rel)
        self.seen_by_observer = None
        self.installed = False
        self.outside = []          # writes outside every allowed root
        self.watch_outside = False

    # ---------------------------------------------------------------- paths
    def rel(self, path, dir_fd=None):
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if dir_fd is not None and not os.path.isabs(p):
            base = self.fd_rel.get(dir_fd)
            if base is None:
                try:
                    base = os.readlink(f"/proc/self/fd/{dir_fd}")
                except OSError:
                    return None
                p = os.path.join(base, p)
            else:
                p = os.path.join(self.root, base, p)
        p = os.path.abspath(p)
        d, b = os.path.split(p)
        p = os.path.join(os.path.realpath(d), b)
        if p == self.root:
            return "."
        if p.startswith(self.root + os.sep):
            return p[len(self.root) + 1:]
        return None

    # ------------------------------------------------------------ fault core
    def arm(self, faults=(), power=None):
        """Start a new stretch of operations with the given faults."""
        self.n = 0
        self.faults = [dict(f) for f in faults]
        self.log = []
        self.power = power
        self.full_until = None
        self.pending_after = None

    def disarm(self):
        self.faults = []
        self.full_until = None
        self.pending_after = None
        self.power = None

    def note(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def op(self, kind, rel, size):
        if self.yield_hook is not None:
            self.yield_hook(kind, rel)
        if self.frozen:
            raise SimCrash()
        k = self.n
        self.n += 1
        self.total_ops += 1
        self.log.append((kind, rel))
        if kind == "write" or kind == "open_w":
            self.unsynced.setdefault(rel, 0 if kind == "open_w" else
                                     self._size(rel))
            if kind == "open_w":
                self.unsynced[rel] = 0
        if self.full_until is not None:
            if k < self.full_until:
                if kind in ("open_w", "write", "mkdir", "truncate"):
                    self.note("disk_full")
                    raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
            else:
                self.full_until = None
        for f in self.faults:
            if "sub" in f:
                # the nth operation on a path containing a fragment
                if f["sub"] not in rel or (
                        f.get("op") and f["op"] != kind):
                    continue
                f["_n"] = f.get("_n", -1) + 1
                if f["_n"] != f["nth"]:
                    continue
            elif f["at"] != k:
                continue
            act = f["act"]
            self.note(act)
            if act == "crash":
                self.crash()
            if act == "crash_torn":
                if kind == "write":
                    return f
                self.crash()
            if act == "crash_after":
                self.pending_after = f
                return None
            if act == "interrupt":
                raise SimInterrupt("simulated interrupt")
            if act == "eio":
                raise OSError(errno.EIO, os.strerror(errno.EIO))
            if act == "enospc":
                self.full_until = k + 1 + int(f.get("for", 0))
                if kind == "write":
                    return {"act": "torn_err", "frac": f.get("frac", 0.0),
                            "errno": errno.ENOSPC}
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
            if act == "short":
                return f if kind == "write" else None
        return None

    def after(self):
        if self.observers and self.log:
            for f in self.observers:
                try:
                    f(*self.log[-1])
                except Violation as e:
                    # raised again at the end, should the code swallow it
                    self.seen_by_observer = self.seen_by_observer or e
                    raise
        if self.pending_after is not None:
            self.pending_after = None
            self.crash()

    def _size(self, rel):
        try:
            return os.stat(os.path.join(self.root, rel)).st_size
        except OSError:
            return 0

    def crash(self):
        self.frozen = True
        if self.power is not None:
            fr = list(self.power) or [0.0]
            i = 0
            for rel, synced in sorted(self.unsynced.items()):
                p = os.path.join(self.root, rel)
                try:
                    st = os.lstat(p)
                except OSError:
                    continue
                if not stat.S_ISREG(st.st_mode):
                    continue
                cur = st.st_size
                if cur <= synced:
                    continue
                keep = synced + int((cur - synced) * fr[i % len(fr)])
                i += 1
                if keep < cur:
                    self.note("power_loss_truncation")
                    _real["truncate"](p, keep)
        raise SimCrash()

    def reboot(self):
        """The process is gone; what is on disk now is all that is left."""
        self.epoch += 1
        self.frozen = False
        self.unsynced = {}
        self.fd_rel = {}
        self.disarm()

    def settle(self):
        """Enough time passes for everything written so far to be durable."""
        self.unsynced = {}

    # ------------------------------------------------------------- wrappers
    def install(self):
        d = self

        def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
                     newline=None, closefd=True, opener=None):
            if isinstance(file, int):
                rel = d.fd_rel.get(file)
                if rel is None:
                    return _real["open"](file, mode, buffering, encoding,
                                         errors, newline, closefd, opener)
            else:
                rel = d.rel(file)
                if rel is None:
                    if d.watch_outside and any(c in mode for c in "wax+"):
                        d.outside.append(str(file))
                    return _real["open"](file, mode, buffering, encoding,
                                         errors, newline, closefd, opener)
            text = "b" not in mode
            m = mode.replace("b", "").replace("t", "")
            writing = any(c in m for c in "wax+")
            if d.frozen:
                raise SimCrash()
            if not isinstance(file, int):
                if writing:
                    d.op("open_w", rel, 0)
                else:
                    d.reads += 1
                    if d.yield_hook is not None:
                        d.yield_hook("open_r", rel)
            if text and buffering == 0:
                raise ValueError("can't have unbuffered text I/O")
            raw = _Raw(d, file, m, rel, closefd=closefd, opener=opener)
            if writing and not isinstance(file, int):
                d.after()
            if buffering == 0:
                return raw
            bs = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
            if "+" in m:
                buf = io.BufferedRandom(raw, bs)
            elif writing:
                buf = io.BufferedWriter(raw, bs)
            else:
                buf = io.BufferedReader(raw, bs)
            if not text:
                return buf
            t = io.TextIOWrapper(buf, encoding, errors, newline,
                                 line_buffering=buffering == 1)
            t.mode = mode
            return t

        def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
            rel = d.rel(path, dir_fd)
            if rel is None:
                return _real["os_open"](path, flags, mode, dir_fd=dir_fd)
            if d.frozen:
                raise SimCrash()
            w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
            if w:
                d.op("open_w", rel, 0)
            fd = _real["os_open"](path, flags, mode, dir_fd=dir_fd)
            d.fd_rel[fd] = rel
            if w:
                d.after()
            return fd

        def sim_os_write(fd, data):
            rel = d.fd_rel.get(fd)
            if rel is None:
                return _real["write"](fd, data)
            if d.frozen:
                return len(data)
            act = d.op("write", rel, len(data))
            if act is not None:
                part = int(len(data) * act.get("frac", 0.5))
                if part:
                    _real["write"](fd, bytes(data)[:part])
                if act["act"] == "crash_torn":
                    d.crash()
                if act["act"] == "torn_err":
                    raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
                if act["act"] == "short" and part:
                    return part
            r = _real["write"](fd, data)
            d.after()
            return r

        def sim_os_close(fd):
            d.fd_rel.pop(fd, None)
            return _real["close"](fd)

        def mk1(name, kind, real):
            def f(path, *a, dir_fd=None, **kw):
                rel = d.rel(path, dir_fd)
                kw2 = dict(kw)
                if dir_fd is not None:
                    kw2["dir_fd"] = dir_fd
                if rel is None:
                    return real(path, *a, **kw2)
                d.op(kind, rel, 0)
                r = real(path, *a, **kw2)
                if kind == "unlink":
                    d.unsynced.pop(rel, None)
                d.after()
                return r
            f.__name__ = name
            return f

        def mk2(name, real):
            def f(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
                rs, rd = d.rel(src, src_dir_fd), d.rel(dst, dst_dir_fd)
                if rs is None and rd is None:
                    return real(src, dst, src_dir_fd=src_dir_fd,
                                dst_dir_fd=dst_dir_fd)
                d.op("rename", f"{rs}->{rd}", 0)
                r = real(src, dst, src_dir_fd=src_dir_fd,
                         dst_dir_fd=dst_dir_fd)
                if rs is not None:
                    moved = {}
                    for k in list(d.unsynced):
                        if k == rs or k.startswith(rs + os.sep):
                            moved[rd + k[len(rs):]] = d.unsynced.pop(k)
                    if rd is not None:
                        if rs not in moved and rd not in moved:
                            d.unsynced.pop(rd, None)
                        d.unsynced.update(moved)
                d.after()
                return r
            f.__name__ = name
            return f

        def mklink(name, real):
            def f(src, dst, *a, **kw):
                rs = None if name == "symlink" else d.rel(
                    src, kw.get("src_dir_fd"))
                rd = d.rel(dst, kw.get("dst_dir_fd", kw.get("dir_fd")))
                if rd is None:
                    return real(src, dst, *a, **kw)
                d.op("rename", f"{rs}->{rd}", 0)
                r = real(src, dst, *a, **kw)
                if rs in d.unsynced:
                    d.unsynced[rd] = d.unsynced[rs]
                d.after()
                return r
            f.__name__ = name
            return f

        def mksync(real):
            def f(fd):
                n = fd if isinstance(fd, int) else fd.fileno()
                rel = d.fd_rel.get(n)
                if rel is None:
                    return real(n)
                if d.frozen:
                    return None
                d.op("fsync", rel, 0)
                cur = d._size(rel)
                if rel in d.unsynced:
                    d.unsynced[rel] = cur
                d.note("fsync_seen")
                d.after()
            return f

        def sim_listdir(path="."):
            if isinstance(path, int):
                return _real["listdir"](path)
            r = _real["listdir"](path)
            if d.rel(path) is None:
                return r
            if d.frozen:
                raise SimCrash()
            if d.yield_hook is not None:
                d.yield_hook("listdir", d.rel(path))
            r = sorted(r)
            return d.list_order(r) if d.list_order else r

        class _Scan:
            def __init__(self, entries):
                self._it = iter(entries)

            def __iter__(self):
                return self

            def __next__(self):
                return next(self._it)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def close(self):
                pass

        def sim_scandir(path="."):
            if isinstance(path, int):
                rel = d.fd_rel.get(path)
            else:
                rel = d.rel(path)
            if rel is None:
                return _real["scandir"](path)
            if d.frozen:
                raise SimCrash()
            with _real["scandir"](path) as it:
                es = sorted(it, key=lambda e: e.name)
            if d.list_order:
                names = d.list_order([e.name for e in es])
                by = {e.name: e for e in es}
                es = [by[n] for n in names]
            return _Scan(es)

        self._saved = dict(
            bopen=builtins.open, ioopen=io.open, os_open=os.open,
            replace=os.replace, rename=os.rename, remove=os.remove,
            unlink=os.unlink, mkdir=os.mkdir, rmdir=os.rmdir, fsync=os.fsync,
            fdatasync=os.fdatasync, listdir=os.listdir, scandir=os.scandir,
            write=os.write, truncate=os.truncate, close=os.close,
            link=os.link, symlink=os.symlink,
            fdfun=getattr(shutil, "_use_fd_functions", None),
            sendf=getattr(shutil, "_USE_CP_SENDFILE", None),
        )
        builtins.open = sim_open
        io.open = sim_open
        os.open = sim_os_open
        os.write = sim_os_write
        os.close = sim_os_close
        os.replace = mk2("replace", _real["replace"])
        os.rename = mk2("rename", _real["rename"])
        os.remove = mk1("remove", "unlink", _real["remove"])
        os.unlink = mk1("unlink", "unlink", _real["unlink"])
        os.mkdir = mk1("mkdir", "mkdir", _real["mkdir"])
        os.rmdir = mk1("rmdir", "rmdir", _real["rmdir"])
        os.truncate = mk1("truncate", "truncate", _real["truncate"])
        os.link = mklink("link", _real["link"])
        os.symlink = mklink("symlink", _real["symlink"])
        os.fsync = mksync(_real["fsync"])
        os.fdatasync = mksync(_real["fdatasync"])
        os.listdir = sim_listdir
        os.scandir = sim_scandir
        if self._saved["fdfun"] is not None:
            shutil._use_fd_functions = False
        if self._saved["sendf"] is not None:
            shutil._USE_CP_SENDFILE = False
        self.installed = True

    def uninstall(self):
        s = self._saved
        builtins.open = s["bopen"]
        io.open = s["ioopen"]
        os.open = s["os_open"]
        os.write = s["write"]
        os.close = s["close"]
        for n in ("replace", "rename", "remove", "unlink", "mkdir", "rmdir",
                  "fsync", "fdatasync", "listdir", "scandir", "truncate",
                  "link", "symlink"):
            setattr(os, n, s[n])
        if s["fdfun"] is not None:
            shutil._use_fd_functions = s["fdfun"]
        if s["sendf"] is not None:
            shutil._USE_CP_SENDFILE = s["sendf"]
        self.installed = False
