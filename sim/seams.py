"""The simulator's seams: file system, clock, randomness, allocation failures and
thread scheduling of the code under test, all decided by one Sim object.

The wrappers are installed once, before the code under test is imported. While no
run is active they pass straight through. During a run every file operation inside
the run's scratch root is a *seam point*: it is numbered, logged, may be failed,
torn or crashed by the fault plan, and may hand control to another simulated
thread. Mutations outside the scratch root are refused and recorded.

Durability: next to the real scratch files (which hold what a process crash would
leave) a shadow keeps what a power loss would leave: content as of the last fsync
of the file plus the writes since, and the ordered namespace operations that no
fsync of their directory has made durable yet.
"""
import _thread
import builtins
import dis
import collections
import datetime as _dt_mod
import errno as _errno
import fcntl
import hashlib
import io
import os
import random as _random_mod
import shutil
import subprocess
import sys
import tempfile
import queue
import threading
import zlib
import time as _time_mod
import uuid as _uuid_mod

REAL = {}                    # the genuine functions
SIM = None                   # the active Sim or None
IMPORTING = None             # while the code under test is imported: list of what it writes
CODE_ROOTS = ()              # directories whose functions are seam points for allocation faults
_tls = threading.local()


class SimCrash(BaseException):
    """The simulated process (or machine) stops here."""


class SimAbort(BaseException):
    """The run is torn down (deadlock, budget exceeded)."""


class SimBudget(BaseException):
    """An operation took more steps than any progress bound allows."""


MAX_POINTS_PER_OP = 20000


class FileShadow:
    __slots__ = ("synced", "log", "ever")

    def __init__(self, synced=b"", ever=False):
        self.synced = synced      # bytes on disk for sure
        self.log = []             # ('w', off, bytes) | ('t', size)
        self.ever = ever


class Fault:
    """One planned fault of one operation."""
    __slots__ = ("cls", "at", "on", "kind", "arg", "fired")

    def __init__(self, d):
        self.cls = d["cls"]          # 'io' or 'fn'
        self.at = d["at"]            # ordinal of the seam point inside the operation ...
        self.on = d.get("on")        # ... counting only points of this kind, if given
        self.kind = d["kind"]
        self.arg = d.get("arg")
        self.fired = False


ERR = {"EIO": _errno.EIO, "ENOSPC": _errno.ENOSPC, "EACCES": _errno.EACCES, "EMFILE": _errno.EMFILE,
       "EROFS": _errno.EROFS, "EDQUOT": _errno.EDQUOT}


class SimKill(BaseException):
    """The process of a background thread has ended."""


class Task:
    """A thread that the code under test started."""

    def __init__(self, thread, ctx):
        self.thread = thread
        self.owner = self.ctx = ctx
        self.gate = _gate()
        self.back = None
        self.done = self.killed = self.active = False
        self.deadline = None
        self.laps = 0                # how often it got what it waited for


class TaskHost:
    """Runs the threads that the code under test starts itself."""
    dead = False
    sched = None
    points = 0

    def __init__(self, seed):
        self.tasks = []
        self.trng = _random_mod.Random("tasks:%s" % seed)
        self.lag = self.trng.choice([0.02, 0.2, 0.7, 1.0])   # how readily they go on
        self.fine = self.trng.choice([0, 0, 0.02, 0.2])      # how often they pause between two lines
        self.paused = 0
        self.now = self.simtime = 0.0

    def task_trace(self, frame, event, arg):
        """Threads of the code under test may also pause at any line of it."""
        t = getattr(_tls, "task", None)
        if t is None or not frame.f_code.co_filename.startswith(CODE_ROOTS):
            return None
        if event in ("call", "line") and self.paused < 20000 and self.trng.random() < self.fine:
            self.paused += 1
            t.laps += 1
            self.pause(t)
        return self.task_trace

    def log(self, *what):
        pass

    def count(self, kind):
        pass

    def settle(self):
        """Undisturbed: they go on as far as they can."""
        while self.tasks and self.pump_now():
            pass

    # -- threads the code under test starts ------------------------------------
    # One thread runs at a time: a task goes on only when a thread of the harness (or another task) lets it,
    # and gives the turn back at a file operation, when it has to wait, or at its end.
    def spawn(self, thread, ctx):
        task = Task(thread, ctx)
        work = thread.run

        def body():
            task.gate.acquire()
            _tls.tid, _tls.op, _tls.task = 0, task.ctx, task
            try:
                if not task.killed:
                    if self.fine:
                        sys.settrace(self.task_trace)
                    work()
            except (SimCrash, SimKill, SimAbort):
                pass
            except BaseException as e:       # noqa: as in any thread
                self.log("TASKERR", type(e).__name__)
            finally:
                sys.settrace(None)
                task.done = True
                _tls.op = _tls.task = None
                task.back.release()
        thread.run = body
        with bypass():
            REAL["Thread.start"](thread)
        self.tasks.append(task)
        self.count("thread")
        self.log("SPAWN", len(self.tasks))
        if self.trng.random() < self.lag:
            self.slice(task)

    def slice(self, task):
        """The task goes on until it pauses."""
        self.log("TASK", self.tasks.index(task))
        op = getattr(_tls, "op", None)
        # whose faults may hit it: those of the call that started it, later those of the one that is running
        task.ctx = task.owner if task.owner.live else op if op is not None and self.sched is None else OpCtx([])
        task.active = True
        task.back = _gate()
        task.gate.release()
        task.back.acquire()
        task.active = False
        if task.done and task in self.tasks:
            self.tasks.remove(task)

    def pause(self, task):
        task.back.release()
        task.gate.acquire()
        _tls.op = task.ctx
        if task.killed:
            raise SimKill()
        if self.dead:
            raise SimCrash()

    def task_point(self):
        me = getattr(_tls, "task", None)
        if me is not None:
            if me.killed:
                raise SimKill()
            if self.trng.random() < 0.5:
                self.pause(me)
            return
        if getattr(_tls, "op", None) is None:
            return
        for t in list(self.tasks):
            if not t.active and not t.done and self.trng.random() < self.lag:
                self.slice(t)
        if self.dead:
            raise SimCrash()

    def pump(self):
        """Every task goes on a bit. -> whether that changed anything"""
        n = self.points, len(self.tasks), [t.laps for t in self.tasks]
        for t in list(self.tasks):
            if not t.active and not t.done:
                self.slice(t)
        if (self.points, len(self.tasks), [t.laps for t in self.tasks]) != n:
            return True
        ends = [t.deadline for t in self.tasks if t.deadline is not None]
        if ends and min(ends) > self.now:
            self.simtime += min(ends) - self.now
            self.now = min(ends)             # nothing happens until the first of them has waited long enough
            return True
        return False

    def drain(self):
        """Some time after a call: what it left running goes on to its end, or not yet."""
        if self.trng.random() < 0.5:
            k = 0
            while self.tasks and k < 20000 and self.pump_now():
                k += 1

    def pump_now(self):
        n = self.points, len(self.tasks), [t.laps for t in self.tasks]
        for t in list(self.tasks):
            if not t.active and not t.done:
                self.slice(t)
        return (self.points, len(self.tasks), [t.laps for t in self.tasks]) != n

    def kill_tasks(self):
        """The process ends."""
        for t in self.tasks:
            t.killed = True
        k = 0
        while self.tasks and k < 1000:
            k += 1
            for t in list(self.tasks):
                if not t.active:
                    self.slice(t)
        self.tasks = []


class Sim(TaskHost):
    def __init__(self, root, seed, tracing=False):
        TaskHost.__init__(self, seed)
        self.root = os.path.realpath(root)
        self.rng = _random_mod.Random("sim:%s" % seed)       # everything not in the scenario
        self.ent = _random_mod.Random("entropy:%s" % seed)   # uuid, urandom
        self.now = 1.7e9 + self.rng.random() * 1e6
        self.t0 = self.now
        self.tick = self.rng.choice([0.0, 1e-6, 1e-3, 0.5])
        self.coarse = self.rng.random() < 0.5
        self.buf = self.rng.choice([64, 512, 4096, 65536])
        self.chunk = self.rng.choice([64, 256, 4096, 1 << 20])
        self.dead = False
        self.op = None               # current OpCtx per thread, see set_op
        self.escapes = []
        self.fired = {}
        self.points = 0
        self.digest = hashlib.sha256()
        self.sched = None
        self.simtime = 0.0
        self.trace = [] if tracing else None
        self.fd_path = {}
        self.files = {}              # (dev, ino) -> FileShadow
        self.nslog = []              # [op, args..., durable]
        self.base = {}               # durable namespace at the last reset: path -> (dev,ino) | 'D' | ('L',target)
        self.mut = None              # collector of mutated paths for the current op
        self.rescan()

    # -- bookkeeping ---------------------------------------------------------
    def rel(self, p):
        return os.path.relpath(p, self.root)

    def inside(self, path):
        if isinstance(path, int):
            return self.fd_path.get(path) is not None
        p = os.path.abspath(os.fsdecode(path))
        d, b = os.path.split(p)
        p = os.path.join(os.path.realpath(d), b)
        return p == self.root or p.startswith(self.root + os.sep)

    def full(self, path):
        p = os.path.abspath(os.fsdecode(path))
        d, b = os.path.split(p)
        return os.path.join(os.path.realpath(d), b)

    def log(self, *what):
        s = repr(what)
        self.digest.update(s.encode())
        if self.trace is not None:
            self.trace.append(s)

    def rescan(self):
        """Everything on the scratch disk is durable from here on."""
        self.files.clear()
        self.nslog = []
        self.base = {}
        for dp, dns, fns in os.walk(self.root):
            for d in dns:
                p = os.path.join(dp, d)
                if os.path.islink(p):
                    self.base[p] = ("L", os.readlink(p))
                else:
                    self.base[p] = "D"
            for f in fns:
                p = os.path.join(dp, f)
                if os.path.islink(p):
                    self.base[p] = ("L", os.readlink(p))
                    continue
                st = REAL["os.stat"](p)
                k = (st.st_dev, st.st_ino)
                with REAL["open"](p, "rb") as fh:
                    self.files[k] = FileShadow(fh.read(), True)
                self.base[p] = k

    # -- time ----------------------------------------------------------------
    def clock(self):
        self.now += self.tick
        self.simtime += self.tick
        return self.now

    def stamp(self, target):
        t = int(self.clock()) if self.coarse else self.clock()
        try:
            REAL["os.utime"](target, (t, t))
        except OSError:
            pass

    # -- the seam point ------------------------------------------------------
    def point(self, kind, path, mutating=True):
        """-> a Fault that fires here, or None. May raise SimCrash."""
        if self.dead:
            raise SimCrash()
        self.points += 1
        if self.tasks:
            self.task_point()
        op = getattr(_tls, "op", None)
        p = self.rel(path) if path is not None else "-"
        self.log(getattr(_tls, "tid", 0), kind, p)
        if self.sched is not None:
            self.sched.point("io")
            if self.dead:
                raise SimCrash()
            if mutating and self.sched.wr:
                self.sched.dirty.add(getattr(_tls, "tid", 0) - 1)
        if op is None:
            return None
        n = op.io
        op.io += 1
        if op.io > MAX_POINTS_PER_OP:
            raise SimBudget("more than %d file operations in one call" % MAX_POINTS_PER_OP)
        if mutating and path is not None and getattr(_tls, "task", None) is None:
            op.mut.append((kind, p))
        m = op.kinds.get(kind, 0)
        op.kinds[kind] = m + 1
        for f in op.faults:
            if f.cls == "io" and not f.fired and (f.at == n if f.on is None else f.on == kind and f.at == m):
                if f.kind == "short" and kind not in ("read", "write"):
                    continue              # only transfers can be short
                if f.kind == "intr" and getattr(_tls, "task", None) is not None:
                    continue              # interrupts go to the main thread
                f.fired = True
                self.count(f.kind)
                self.log("FAULT", f.kind, kind)
                op.fired.append((f.kind, kind))
                if f.kind in ("crash", "power"):
                    if kind == "write" and f.arg is not None:
                        return f          # torn write, then crash
                    self.die()
                if f.kind == "delay":
                    self.now += f.arg or 1.0
                    self.simtime += f.arg or 1.0
                    return None
                if f.kind == "intr":
                    raise KeyboardInterrupt("simulated")
                return f
        return None

    def count(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def die(self):
        self.dead = True
        raise SimCrash()

    def oserr(self, f, path):
        code = ERR.get(f.kind, _errno.EIO)
        return OSError(code, os.strerror(code), path)

    # -- shadow maintenance --------------------------------------------------
    def shadow(self, fd):
        st = REAL["os.fstat"](fd)
        k = (st.st_dev, st.st_ino)
        if k not in self.files:
            self.files[k] = FileShadow()
        return k, self.files[k]

    def created(self, path):
        try:
            st = REAL["os.lstat"](path)
        except OSError:
            return
        k = (st.st_dev, st.st_ino)
        self.files[k] = FileShadow()
        self.nslog.append(["create", path, k, False])

    def synced(self, fd):
        path = self.fd_path.get(fd)
        st = REAL["os.fstat"](fd)
        import stat as _s
        if _s.S_ISDIR(st.st_mode):
            d = path or ""
            for e in self.nslog:
                if any(os.path.dirname(q) == d for q in e[1:-1] if isinstance(q, str)):
                    e[-1] = True
            return
        k, sh = self.shadow(fd)
        size = st.st_size
        sh.synced = os.pread(fd, size, 0) if size else b""
        sh.log = []
        sh.ever = True
        for e in self.nslog:
            if e[0] == "create" and e[2] == k:
                e[-1] = True
                q = os.path.dirname(e[1])
                for m in self.nslog:
                    if m[0] == "mkdir" and (q == m[1] or q.startswith(m[1] + os.sep)):
                        m[-1] = True

    # -- crash and power loss --------------------------------------------------
    def power_loss(self, rng):
        """Replace the scratch tree by what the disk may hold after losing power."""
        pend = [i for i, e in enumerate(self.nslog) if not e[-1]]
        cut = rng.randint(0, len(pend)) if pend else 0
        if pend and rng.random() < 0.4:
            cut = rng.choice([0, len(pend)])
        keep = set(pend[:cut])
        ns = dict(self.base)
        known = {k for k in self.base.values() if isinstance(k, tuple) and k[0] != "L"}
        lost = 0
        for i, e in enumerate(self.nslog):
            if e[0] == "create":
                known.add(e[2])
            if not e[-1] and i not in keep:
                lost += 1
                continue
            if e[0] == "create":
                if os.path.dirname(e[1]) in ns or os.path.dirname(e[1]) == self.root:
                    ns[e[1]] = e[2]
            elif e[0] == "mkdir":
                ns[e[1]] = "D"
            elif e[0] == "symlink":
                ns[e[1]] = ("L", e[2])
            elif e[0] == "unlink":
                ns.pop(e[1], None)
            elif e[0] == "rmdir":
                for q in [q for q in ns if q == e[1] or q.startswith(e[1] + os.sep)]:
                    ns.pop(q)
            elif e[0] == "rename":
                a, b = e[1], e[2]
                moved = {q: v for q, v in ns.items() if q == a or q.startswith(a + os.sep)}
                if not moved:
                    continue
                for q in [q for q in ns if q == b or q.startswith(b + os.sep)]:
                    ns.pop(q)
                for q, v in moved.items():
                    ns.pop(q)
                    ns[b + q[len(a):]] = v
            elif e[0] == "link":
                if e[1] in ns:
                    ns[e[2]] = ns[e[1]]
        content = {}
        torn = 0
        for p, k in ns.items():
            if isinstance(k, tuple) and k[0] != "L" and k not in content:
                sh = self.files.get(k)
                if sh is None:
                    content[k] = b""
                    continue
                buf = bytearray(sh.synced)
                if sh.log:
                    torn += 1
                    mode = rng.choice(["none", "all", "prefix", "torn", "hole"])
                    if mode == "all":
                        n = len(sh.log)
                    elif mode == "none":
                        n = 0
                    else:
                        n = rng.randint(0, len(sh.log))
                    for j, w in enumerate(sh.log):
                        if mode == "hole" and rng.random() < 0.5:
                            continue
                        if j >= n and mode != "hole":
                            if mode == "torn" and j == n and w[0] == "w":
                                part = w[2][:rng.randint(0, len(w[2]))]
                                _put(buf, w[1], part)
                            break
                        if w[0] == "w":
                            _put(buf, w[1], w[2])
                        else:
                            _trunc(buf, w[1])
                content[k] = bytes(buf)
        # files the seams never saw keep their present content
        unseen = {}
        for dp, dns, fns in os.walk(self.root):
            for f in fns:
                p = os.path.join(dp, f)
                if os.path.islink(p):
                    continue
                st = REAL["os.stat"](p)
                if (st.st_dev, st.st_ino) not in self.files:
                    with REAL["open"](p, "rb") as fh:
                        unseen[p] = fh.read()
        for name in os.listdir(self.root):
            p = os.path.join(self.root, name)
            if os.path.isdir(p) and not os.path.islink(p):
                _rmtree(p)
            else:
                REAL["os.unlink"](p)
        for p in sorted(ns):
            if ns[p] == "D":
                REAL["os.makedirs"](p, exist_ok=True)
        for p in sorted(ns):
            k = ns[p]
            if k == "D" or not os.path.isdir(os.path.dirname(p)):
                continue
            if k[0] == "L":
                REAL["os.symlink"](k[1], p)
            else:
                with REAL["open"](p, "wb") as fh:
                    fh.write(content[k])
        for p, c in unseen.items():
            if os.path.isdir(os.path.dirname(p)) and not os.path.exists(p):
                with REAL["open"](p, "wb") as fh:
                    fh.write(c)
        self.log("POWER", lost, torn)
        self.rescan()
        return lost, torn


def _put(buf, off, data):
    if len(buf) < off:
        buf.extend(b"\0" * (off - len(buf)))
    buf[off:off + len(data)] = data


def _trunc(buf, n):
    if len(buf) > n:
        del buf[n:]
    else:
        buf.extend(b"\0" * (n - len(buf)))


def _rmtree(p):
    for dp, dns, fns in os.walk(p, topdown=False):
        for f in fns:
            REAL["os.unlink"](os.path.join(dp, f))
        for d in dns:
            q = os.path.join(dp, d)
            (REAL["os.unlink"] if os.path.islink(q) else REAL["os.rmdir"])(q)
    REAL["os.rmdir"](p)


# ---------------------------------------------------------------------------
# files
# ---------------------------------------------------------------------------

class SimRaw(io.RawIOBase):
    def __init__(self, fd, path, readable, writable, append, sim, mode):
        self._fd, self._path, self._sim = fd, path, sim
        self._r, self._w, self._a = readable, writable, append
        self._wrote = False
        self.mode = mode
        self.name = path

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def isatty(self):
        return False

    def _live(self):
        return SIM is self._sim and not self._sim.dead

    def readinto(self, b):
        if not self._r:
            raise io.UnsupportedOperation("not readable")
        if not self._live():
            raise SimCrash()
        f = self._sim.point("read", self._path, False)
        n = min(len(b), max(self._sim.chunk, 64))
        if f is not None and f.kind == "short":
            n = max(1, int(n * (f.arg or 0)))
        elif f is not None:
            raise self._sim.oserr(f, self._path)
        data = os.read(self._fd, n) if "os.read" not in REAL else REAL["os.read"](self._fd, n)
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        if not self._live():
            return len(b)              # the process is gone: its buffers vanish
        if not self._w:
            raise io.UnsupportedOperation("not writable")
        sim = self._sim
        data = bytes(b)[:sim.chunk]
        f = sim.point("write", self._path)
        if f is not None:
            part = data[:int(len(data) * (f.arg or 0))] if len(data) else b""
            if part:
                self._do(part)
            if f.kind in ("crash", "power"):
                sim.die()
            if part and f.kind == "short":
                return len(part)
            if f.kind == "short":
                self._do(data[:1])
                return min(1, len(data))
            raise sim.oserr(f, self._path)
        self._do(data)
        return len(data)

    def _do(self, data):
        k, sh = self._sim.shadow(self._fd)
        if self._a:
            os.lseek(self._fd, 0, os.SEEK_END)
        off = os.lseek(self._fd, 0, os.SEEK_CUR)
        REAL["os.write"](self._fd, data)
        sh.log.append(("w", off, data))
        self._wrote = True

    def seek(self, pos, whence=0):
        return os.lseek(self._fd, pos, whence)

    def tell(self):
        return os.lseek(self._fd, 0, os.SEEK_CUR)

    def truncate(self, size=None):
        if not self._live():
            return size
        if size is None:
            size = self.tell()
        f = self._sim.point("truncate", self._path)
        if f is not None:
            raise self._sim.oserr(f, self._path)
        REAL["os.ftruncate"](self._fd, size)
        self._sim.shadow(self._fd)[1].log.append(("t", size))
        return size

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            if SIM is self._sim and self._sim.fd_path.get(self._fd) is not None:
                if self._wrote and not self._sim.dead:
                    self._sim.stamp(self._fd)
                self._sim.fd_path.pop(self._fd, None)
            try:
                REAL["os.close"](self._fd)
            except OSError:
                pass


def _wrap_raw(raw, mode, buffering, encoding, errors, newline, sim):
    binary = "b" in mode
    if buffering == 0:
        return raw
    buf = io.BufferedRandom(raw, buffer_size=buffering if buffering > 1 else sim.buf)
    if binary:
        return buf
    txt = io.TextIOWrapper(buf, encoding, errors, newline)
    txt.mode = mode
    return txt


def _importing(what, path):
    """True when the code under test changes a file while it is imported: recorded, not done."""
    if IMPORTING is None or getattr(_tls, "bypass", 0) or isinstance(path, int):
        return False
    fr = sys._getframe(2)
    std = os.path.dirname(os.__file__) + os.sep
    while fr is not None:
        fn = fr.f_code.co_filename
        if fn.startswith(CODE_ROOTS):
            IMPORTING.append("%s(%r) when imported" % (what, os.fsdecode(path)))
            return True
        if not (fn.startswith("<frozen") or fn.startswith(std) and "site-packages" not in fn) and fn != __file__:
            return False
        fr = fr.f_back
    return False


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    sim = SIM
    if sim is None or getattr(_tls, "bypass", 0):
        if IMPORTING is not None and mode.strip("bt") != "r" and _importing("open", file):
            file, mode = os.devnull, mode.replace("x", "w")
        return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    base = mode.replace("b", "").replace("t", "").replace("U", "") or "r"
    upd = "+" in base
    c = base.replace("+", "")
    if isinstance(file, int):
        p = sim.fd_path.get(file)
        if p is None or not closefd:
            return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        raw = SimRaw(file, p, c == "r" or upd, c != "r" or upd, c == "a", sim, mode)
        if c == "a":
            os.lseek(file, 0, os.SEEK_END)
        return _wrap_raw(raw, mode, buffering, encoding, errors, newline, sim)
    writing = c != "r" or upd
    if not sim.inside(file):
        if writing and os.fsdecode(file) not in ("/dev/null", os.devnull):
            sim.escapes.append("open(%r,%r)" % (os.fsdecode(file), mode))
            raise PermissionError(_errno.EACCES, "outside the simulation", os.fsdecode(file))
        return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if opener is not None:
        flags = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
                 "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND, "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL}[c]
        if upd:
            flags = (flags & ~3) | os.O_RDWR
        fd = opener(file, flags)
    else:
        flags = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
                 "a": os.O_WRONLY | os.O_CREAT, "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL}[c]
        if writing:
            flags = (flags & ~3) | os.O_RDWR
        fd = sim_os_open(file, flags, 0o666)
    if sim.fd_path.get(fd) is None:
        sim.fd_path[fd] = sim.full(file)
    raw = SimRaw(fd, sim.full(file), c == "r" or upd, writing, c == "a", sim, mode)
    if c == "a":
        os.lseek(fd, 0, os.SEEK_END)
    return _wrap_raw(raw, mode, buffering, encoding, errors, newline, sim)


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    sim = SIM
    if sim is None or dir_fd is not None or getattr(_tls, "bypass", 0):
        if (IMPORTING is not None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
                and _importing("os.open", path)):
            path, flags = os.devnull, flags & ~(os.O_CREAT | os.O_EXCL)
        return REAL["os.open"](path, flags, mode, dir_fd=dir_fd)
    writing = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
    if not sim.inside(path):
        if writing and os.fsdecode(path) != "/dev/null":
            sim.escapes.append("os.open(%r)" % os.fsdecode(path))
            raise PermissionError(_errno.EACCES, "outside the simulation", os.fsdecode(path))
        return REAL["os.open"](path, flags, mode)
    full = sim.full(path)
    f = sim.point("open-w" if writing else "open-r", full, writing)
    if f is not None:
        raise sim.oserr(f, full)
    existed = os.path.lexists(full)
    osize = None
    if existed and flags & os.O_TRUNC:
        try:
            osize = REAL["os.stat"](full).st_size
        except OSError:
            pass
    if writing:                        # shadow reads need a readable descriptor
        flags = (flags & ~3) | os.O_RDWR
    fd = REAL["os.open"](path, flags & ~os.O_APPEND, mode)
    sim.fd_path[fd] = full
    if writing and not existed:
        sim.created(full)
        sim.stamp(fd)
    elif flags & os.O_TRUNC and osize is not None:
        sim.shadow(fd)[1].log.append(("t", 0))
    return fd


def sim_os_close(fd):
    sim = SIM
    if sim is not None:
        sim.fd_path.pop(fd, None)
    return REAL["os.close"](fd)


def sim_os_write(fd, data):
    sim = SIM
    p = sim.fd_path.get(fd) if sim is not None else None
    if p is None:
        return REAL["os.write"](fd, data)
    if sim.dead:
        raise SimCrash()
    data = bytes(data)[:sim.chunk]
    f = sim.point("write", p)
    off = os.lseek(fd, 0, os.SEEK_CUR)
    if f is not None:
        part = data[:int(len(data) * (f.arg or 0))]
        if part:
            REAL["os.write"](fd, part)
            sim.shadow(fd)[1].log.append(("w", off, part))
        if f.kind in ("crash", "power"):
            sim.die()
        if f.kind == "short" and part:
            return len(part)
        if f.kind != "short":
            raise sim.oserr(f, p)
    n = REAL["os.write"](fd, data)
    sim.shadow(fd)[1].log.append(("w", off, data))
    return n


def sim_os_read(fd, n):
    sim = SIM
    p = sim.fd_path.get(fd) if sim is not None else None
    if p is None:
        return REAL["os.read"](fd, n)
    f = sim.point("read", p, False)
    if f is not None and f.kind == "short":
        n = max(1, int(n * (f.arg or 0)))
    elif f is not None:
        raise sim.oserr(f, p)
    return REAL["os.read"](fd, n)


def _sync(name):
    def sync(fd):
        sim = SIM
        n = fd if isinstance(fd, int) else fd.fileno()
        p = sim.fd_path.get(n) if sim is not None else None
        if p is None:
            return REAL[name](fd)
        f = sim.point("fsync", p)
        if f is not None:
            raise sim.oserr(f, p)
        sim.synced(n)
    return sync


def sim_sync():
    sim = SIM
    if sim is None:
        return REAL["os.sync"]()
    for e in sim.nslog:
        e[-1] = True
    sim.rescan()


def _path_op(name, kind, record):
    real_name = name

    def op(path, *a, **kw):
        sim = SIM
        if sim is None or kw.get("dir_fd") is not None or getattr(_tls, "bypass", 0) or isinstance(path, int):
            if IMPORTING is not None and _importing(name, path):
                return None
            return REAL[real_name](path, *a, **kw)
        if not sim.inside(path):
            sim.escapes.append("%s(%r)" % (name, os.fsdecode(path)))
            raise PermissionError(_errno.EACCES, "outside the simulation", os.fsdecode(path))
        full = sim.full(path)
        f = sim.point(kind, full)
        if f is not None:
            raise sim.oserr(f, full)
        r = REAL[real_name](path, *a, **kw)
        record(sim, full, *a)
        return r
    op.__name__ = name.split(".")[-1]
    return op


def _two_op(name, kind, record):
    def op(src, dst, *a, **kw):
        sim = SIM
        if sim is None or getattr(_tls, "bypass", 0):
            if IMPORTING is not None and _importing(name, dst):
                return None
            return REAL[name](src, dst, *a, **kw)
        if not sim.inside(dst) or (kind == "rename" and not sim.inside(src)):
            sim.escapes.append("%s(%r,%r)" % (name, os.fsdecode(src), os.fsdecode(dst)))
            raise PermissionError(_errno.EACCES, "outside the simulation", os.fsdecode(dst))
        fs, fd = (sim.full(src) if kind != "symlink" else os.fsdecode(src)), sim.full(dst)
        f = sim.point(kind, fd)
        if f is not None:
            raise sim.oserr(f, fd)
        op_ = getattr(_tls, "op", None)
        if op_ is not None and kind == "rename" and getattr(_tls, "task", None) is None:
            op_.mut.append((kind + "-from", sim.rel(fs)))
        r = REAL[name](src, dst, *a, **kw)
        record(sim, fs, fd)
        return r
    op.__name__ = name.split(".")[-1]
    return op


def _stat_op(name):
    def op(path, *a, **kw):
        sim = SIM
        if (sim is None or isinstance(path, int) or kw.get("dir_fd") is not None or getattr(_tls, "bypass", 0)
                or getattr(_tls, "op", None) is None):
            return REAL[name](path, *a, **kw)
        try:
            ins = sim.inside_fast(path)
        except TypeError:
            return REAL[name](path, *a, **kw)
        if ins:
            f = sim.point("stat", sim.full_fast(path), False)
            if f is not None:
                raise sim.oserr(f, os.fsdecode(path))
        return REAL[name](path, *a, **kw)
    return op


def _inside_fast(self, path):
    p = os.path.abspath(os.fsdecode(path))
    return p == self.root or p.startswith(self.root + os.sep)


Sim.inside_fast = _inside_fast
Sim.full_fast = lambda self, path: os.path.abspath(os.fsdecode(path))


def _list_op(name):
    def op(path=".", *a, **kw):
        sim = SIM
        if sim is None or isinstance(path, int) or getattr(_tls, "bypass", 0) or not sim.inside_fast(path):
            return REAL[name](path, *a, **kw)
        f = sim.point("list", sim.full_fast(path), False)
        if f is not None:
            raise sim.oserr(f, os.fsdecode(path))
        if name == "os.listdir":
            r = REAL[name](path, *a, **kw)
            r.sort()                      # then a seeded order: directory order is not promised
            sim.rng.shuffle(r)
            return r
        it = REAL[name](path, *a, **kw)
        ents = sorted(it, key=lambda e: e.name)
        sim.rng.shuffle(ents)
        return _Scan(ents)
    return op


class _Scan:
    def __init__(self, ents):
        self._it = iter(ents)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def _blocked(name):
    def op(*a, **kw):
        sim = SIM
        if sim is None or getattr(_tls, "bypass", 0):
            return REAL[name](*a, **kw)
        sim.escapes.append("%s%r" % (name, a[:1]))
        raise PermissionError(_errno.EPERM, "blocked by the simulation")
    return op


# ---------------------------------------------------------------------------
# clock and entropy
# ---------------------------------------------------------------------------

class SimDatetime(_dt_mod.datetime):
    @classmethod
    def now(cls, tz=None):
        if SIM is None:
            return super().now(tz)
        return cls.fromtimestamp(SIM.clock(), tz)

    @classmethod
    def utcnow(cls):
        if SIM is None:
            return super().utcnow()
        return cls.fromtimestamp(SIM.clock(), _dt_mod.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


def _time_fn(name, scale):
    def fn():
        if SIM is None:
            return REAL[name]()
        t = SIM.clock()
        return int(t * 1e9) if scale == "ns" else t
    return fn


def sim_sleep(s):
    if SIM is None:
        return REAL["time.sleep"](s)
    SIM.now += s
    SIM.simtime += s
    op = getattr(_tls, "op", None)
    if op is not None:
        op.io += 1
        if op.io > MAX_POINTS_PER_OP:
            raise SimBudget("waiting without end")
    if SIM.tasks:
        t = getattr(_tls, "task", None)
        if t is not None:
            t.laps += 1
            SIM.pause(t)
        elif op is not None:
            SIM.pump_now()
    if SIM.sched is not None:
        SIM.sched.yield_()


# ---------------------------------------------------------------------------
# locks of the code under test: a thread that has to wait hands over to another
# ---------------------------------------------------------------------------

def _wait(sim, attempt, timeout=-1):
    """Attempt until it succeeds. Simulated threads take turns; anything else waits for real, but not for ever."""
    end = sim.now + timeout
    me = getattr(_tls, "task", None)
    if me is not None or sim.tasks:
        r = _wait_tasks(sim, attempt, timeout, end, me)
        if r is not None:
            return r
    while not attempt():
        if timeout >= 0 and sim.now >= end:
            return False
        if sim.sched is not None and sim.sched.block():
            continue
        if timeout >= 0:
            sim.now, sim.simtime = end, sim.simtime + timeout
            return attempt()
        t = REAL["time.monotonic"]() + 20
        while not attempt():
            if REAL["time.monotonic"]() > t:
                raise SimBudget("waiting for a lock without end")
            REAL["time.sleep"](0.002)
        return True
    return True


def _wait_tasks(sim, attempt, timeout, end, me):
    """Where threads of the code under test are about, they go on while somebody waits. -> None: nobody left to wait for"""
    stuck = 0
    while not attempt():
        if timeout >= 0 and sim.now >= end:
            return False
        if me is not None:
            me.deadline = end if timeout >= 0 else None
            sim.pause(me)
            me.deadline = None
            continue
        if sim.dead:
            raise SimCrash()
        if timeout >= 0:
            if not sim.pump_now():
                if sim.sched is not None and sim.sched.block():
                    continue
                sim.simtime += end - sim.now
                sim.now = end
            continue
        if sim.pump():
            stuck = 0
        elif sim.sched is not None:
            if not sim.sched.block():
                raise SimBudget("deadlock")
        elif not sim.tasks:
            return None
        else:
            stuck += 1
            if stuck > 3:
                raise SimBudget("deadlock")
    if me is not None:
        me.laps += 1
    return True


HOME = None
TWIN = None                      # the host of threads outside a run


def _host():
    """Who runs threads here? None: the system."""
    if getattr(_tls, "bypass", 0):
        return None
    if SIM is not None:
        return SIM if getattr(_tls, "op", None) is not None else None
    return TWIN if getattr(_tls, "task", None) is not None or _thread.get_ident() == HOME else None


def sim_start(self):
    h = _host()
    if h is None:
        return REAL["Thread.start"](self)
    if h.dead:
        raise SimCrash()
    h.spawn(self, getattr(_tls, "op", None) or OpCtx([]))


def _task_of(thread):
    h = _host()
    for t in h.tasks if h is not None else ():
        if t.thread is thread:
            return h, t
    return None, None


def sim_join(self, timeout=None):
    h, t = _task_of(self)
    if t is None:
        return REAL["Thread.join"](self, timeout)
    if _wait(h, lambda: t.done, -1 if timeout is None else max(timeout, 0)):
        with bypass():
            REAL["Thread.join"](self)


def sim_alive(self):
    h, t = _task_of(self)
    if t is None:
        return REAL["Thread.is_alive"](self)
    if not t.done and not t.active and getattr(_tls, "task", None) is None:
        h.slice(t)
    return not t.done


def twin(fresh=False):
    """Outside a run: threads that a call left go on to their end (or end with their process)."""
    global TWIN, HOME
    if TWIN is None:
        HOME = _thread.get_ident()
        TWIN = TaskHost("twin")
        TWIN.fine = 0
    if fresh:
        TWIN.kill_tasks()
    else:
        TWIN.settle()


class SimLock:
    _make = staticmethod(_thread.allocate_lock)

    def __init__(self):
        self._l = self._make()

    def acquire(self, blocking=True, timeout=-1):
        sim = _host() if blocking else None
        if sim is None or sim is TWIN and not sim.tasks:
            return self._l.acquire(blocking, timeout)
        return _wait(sim, lambda: self._l.acquire(False), timeout)

    def release(self):
        self._l.release()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self._l.release()

    def __getattr__(self, n):
        if n == "_l":
            raise AttributeError(n)
        return getattr(self._l, n)


class SimRLock(SimLock):
    _make = staticmethod(_thread.RLock)


def sim_flock(name):
    def op(fd, what, *a):
        sim = SIM
        if sim is None or getattr(_tls, "op", None) is None or what & fcntl.LOCK_NB or what & fcntl.LOCK_UN:
            return REAL[name](fd, what, *a)

        def attempt():
            try:
                REAL[name](fd, what | fcntl.LOCK_NB, *a)
                return True
            except (BlockingIOError, PermissionError):
                return False
        _wait(sim, attempt)
    return op


def sim_urandom(n):
    if SIM is None:
        return REAL["os.urandom"](n)
    return SIM.ent.randbytes(n)


def sim_uuid4():
    if SIM is None:
        return REAL["uuid4"]()
    return _uuid_mod.UUID(int=SIM.ent.getrandbits(128), version=4)


def sim_uuid1(node=None, clock_seq=None):
    if SIM is None:
        return REAL["uuid1"](node, clock_seq)
    return _uuid_mod.UUID(int=SIM.ent.getrandbits(128), version=1)


_installed = False


def install(code_roots):
    """Install the wrappers. Call before importing the code under test."""
    global _installed, CODE_ROOTS
    CODE_ROOTS = tuple(code_roots)
    if _installed:
        return
    _installed = True
    R = REAL
    R["open"] = builtins.open
    for n in ("open", "close", "write", "read", "fsync", "fdatasync", "sync", "replace", "rename", "link", "symlink",
              "remove", "unlink", "mkdir", "makedirs", "rmdir", "truncate", "ftruncate", "chmod", "chown", "utime",
              "stat", "lstat", "fstat", "listdir", "scandir", "system", "popen", "kill", "urandom", "mkfifo", "mknod"):
        R["os." + n] = getattr(os, n)
    _mk = R["os.makedirs"]

    def real_makedirs(p, exist_ok=False):
        _tls.bypass = getattr(_tls, "bypass", 0) + 1
        try:
            return _mk(p, exist_ok=exist_ok)
        finally:
            _tls.bypass -= 1
    R["os.makedirs"] = real_makedirs

    builtins.open = sim_open
    io.open = sim_open
    os.open = sim_os_open
    os.close = sim_os_close
    os.write = sim_os_write
    os.read = sim_os_read
    os.fsync = _sync("os.fsync")
    os.fdatasync = _sync("os.fdatasync")
    os.sync = sim_sync
    rec_un = lambda sim, p, *a: sim.nslog.append(["unlink", p, False])
    os.remove = _path_op("os.remove", "unlink", rec_un)
    os.unlink = _path_op("os.unlink", "unlink", rec_un)
    os.mkdir = _path_op("os.mkdir", "mkdir", lambda sim, p, *a: sim.nslog.append(["mkdir", p, False]))
    os.rmdir = _path_op("os.rmdir", "rmdir", lambda sim, p, *a: sim.nslog.append(["rmdir", p, False]))
    os.mkfifo = _path_op("os.mkfifo", "mknod", lambda *a: None)
    os.mknod = _path_op("os.mknod", "mknod", lambda *a: None)

    def rec_trunc(sim, p, n=0):
        fd = REAL["os.open"](p, os.O_RDONLY)
        try:
            sim.shadow(fd)[1].log.append(("t", n))
        finally:
            REAL["os.close"](fd)
    os.truncate = _path_op("os.truncate", "truncate", rec_trunc)

    def ftruncate(fd, n):
        sim = SIM
        p = sim.fd_path.get(fd) if sim is not None else None
        if p is None:
            return REAL["os.ftruncate"](fd, n)
        f = sim.point("truncate", p)
        if f is not None:
            raise sim.oserr(f, p)
        REAL["os.ftruncate"](fd, n)
        sim.shadow(fd)[1].log.append(("t", n))
    os.ftruncate = ftruncate
    os.chmod = _path_op("os.chmod", "chmod", lambda *a: None)
    os.chown = _path_op("os.chown", "chown", lambda *a: None)
    os.utime = _path_op("os.utime", "utime", lambda *a: None)
    rec_rn = lambda sim, a, b: sim.nslog.append(["rename", a, b, False])
    os.rename = _two_op("os.rename", "rename", rec_rn)
    os.replace = _two_op("os.replace", "rename", rec_rn)
    os.link = _two_op("os.link", "link", lambda sim, a, b: sim.nslog.append(["link", a, b, False]))
    os.symlink = _two_op("os.symlink", "symlink", lambda sim, a, b: sim.nslog.append(["symlink", b, a, False]))
    os.stat = _stat_op("os.stat")
    os.lstat = _stat_op("os.lstat")
    os.listdir = _list_op("os.listdir")
    os.scandir = _list_op("os.scandir")
    # fast C helpers of posixpath go through os.stat in this Python; make sure of it
    import genericpath
    import posixpath

    def exists(p):
        try:
            os.stat(p)
        except (OSError, ValueError):
            return False
        return True
    for m in (genericpath, posixpath, os.path):
        m.exists = exists
    for n in ("system", "popen", "kill"):
        setattr(os, n, _blocked("os." + n))
    R["subprocess.Popen"] = subprocess.Popen.__init__

    def popen_init(self, *a, **kw):
        if SIM is None or getattr(_tls, "bypass", 0):
            return R["subprocess.Popen"](self, *a, **kw)
        SIM.escapes.append("subprocess.Popen")
        raise PermissionError("blocked by the simulation")
    subprocess.Popen.__init__ = popen_init
    shutil._use_fd_functions = False
    shutil._USE_CP_SENDFILE = False
    shutil.rmtree.avoids_symlink_attacks = False

    R["time.time"] = _time_mod.time
    R["time.sleep"] = _time_mod.sleep
    for n in ("monotonic", "perf_counter", "process_time"):
        R["time." + n] = getattr(_time_mod, n)
        R["time." + n + "_ns"] = getattr(_time_mod, n + "_ns")
        setattr(_time_mod, n, _time_fn("time." + n, "s"))
        setattr(_time_mod, n + "_ns", _time_fn("time." + n + "_ns", "ns"))
    R["time.time_ns"] = _time_mod.time_ns
    _time_mod.time = _time_fn("time.time", "s")
    _time_mod.time_ns = _time_fn("time.time_ns", "ns")
    _time_mod.sleep = sim_sleep
    for n in ("start", "join", "is_alive"):
        R["Thread." + n] = getattr(threading.Thread, n)
    threading.Thread.start, threading.Thread.join, threading.Thread.is_alive = sim_start, sim_join, sim_alive
    queue.SimpleQueue = queue._PySimpleQueue
    threading._allocate_lock = SimLock
    import concurrent.futures.thread as pool
    pool._global_shutdown_lock = SimLock()
    threading.Lock = SimLock
    threading.RLock = SimRLock
    for n in ("flock", "lockf"):
        R["fcntl." + n] = getattr(fcntl, n)
        setattr(fcntl, n, sim_flock("fcntl." + n))
    _dt_mod.datetime = SimDatetime

    os.urandom = sim_urandom
    _random_mod._urandom = sim_urandom
    R["uuid4"] = _uuid_mod.uuid4
    R["uuid1"] = _uuid_mod.uuid1
    _uuid_mod.uuid4 = sim_uuid4
    _uuid_mod.uuid1 = sim_uuid1

    class _Names:
        def __iter__(self):
            return self

        def __next__(self):
            if SIM is None:
                return "%016x" % int.from_bytes(REAL["os.urandom"](8), "big")
            return "%016x" % SIM.ent.getrandbits(64)
    _names = _Names()
    tempfile._get_candidate_names = lambda: _names


# ---------------------------------------------------------------------------
# operations and function-entry faults
# ---------------------------------------------------------------------------

class OpCtx:
    __slots__ = ("io", "fn", "faults", "mut", "fired", "kinds", "lines", "live")

    def __init__(self, faults):
        self.io = 0
        self.fn = 0
        self.faults = [Fault(f) for f in faults]
        self.mut = []
        self.fired = []
        self.kinds = {}
        self.lines = None
        self.live = True


def _tracer(frame, event, arg):
    if event != "call":
        return None
    fn = frame.f_code.co_filename
    if not fn.startswith(CODE_ROOTS):
        return None
    sim = SIM
    op = getattr(_tls, "op", None)
    if sim is None or op is None:
        return None
    if sim.sched is not None and suspicious(frame):
        sim.sched.hot_point()
        share = True
    else:
        share = False
    hot = op.lines is None or zlib.crc32(frame.f_code.co_name.encode()) % op.lines[0] == op.lines[1]
    if sim.sched is not None and hot:
        sim.sched.point("fn")
    n = op.fn
    op.fn += 1
    for f in op.faults:
        if f.cls == "fn" and not f.fired and f.at == n and not sim.dead:
            f.fired = True
            sim.count(f.kind)
            sim.log("FAULT", f.kind, frame.f_code.co_name)
            op.fired.append((f.kind, frame.f_code.co_name))
            if f.kind == "nomem":
                raise MemoryError("simulated")
            if f.kind == "intr":
                raise KeyboardInterrupt("simulated")
            if f.kind in ("crash", "power"):
                sim.die()
            if f.kind == "delay":
                sim.now += f.arg or 1.0
                sim.simtime += f.arg or 1.0
    if share:
        return _shared_line
    return _line if op.lines is not None and hot and sim.sched is not None else None


_MUTABLE = (list, dict, set, bytearray, collections.deque)
_code = {}


def _mutable(v):
    return (isinstance(v, _MUTABLE) or type(v).__name__ in ("ndarray", "local", "OrderedDict", "defaultdict")
            or getattr(type(v), "__module__", "").startswith("hyperstatic"))


def _stores(code):
    """Does the function bind a name of its module, or an attribute of a class or a module?"""
    last = None
    for i in dis.get_instructions(code):
        if i.opname in ("STORE_GLOBAL", "DELETE_GLOBAL"):
            return True
        if i.opname == "STORE_ATTR" and last is not None and (
                last.opname == "LOAD_GLOBAL" or last.argval == "__class__" or last.argval == "cls"):
            return True
        if i.opname not in ("CACHE", "NOP"):
            last = i
    return False


def suspicious(frame):
    """Does the function use state that sessions of a process share? Switching there finds what sharing breaks."""
    code = frame.f_code
    me = frame.f_locals.get("self", frame.f_locals.get("cls")) if code.co_varnames[:1] in (("self",), ("cls",)) else None
    cls = me if isinstance(me, type) else type(me)
    key = code, cls
    r = _code.get(key)
    if r is None:
        g = frame.f_globals
        r = _stores(code)
        owners = [c for c in cls.__mro__ if c.__module__.startswith("hyperstatic")] if me is not None else []
        for n in code.co_names:
            v = g.get(n)
            if n in g and _mutable(v):
                r = True
            if isinstance(v, type) and v.__module__.startswith("hyperstatic"):
                owners.append(v)
        for c in owners:
            r = r or any(_mutable(c.__dict__.get(n)) for n in code.co_names)
        for n in code.co_freevars:
            r = r or _mutable(frame.f_locals.get(n))
        _code[key] = r
    return r


def _shared_line(frame, event, arg):
    if event == "line" and SIM is not None and SIM.sched is not None:
        SIM.sched.hot_point()
    return _shared_line


def _line(frame, event, arg):
    if event == "line" and SIM is not None and SIM.sched is not None:
        SIM.sched.point("line")
    return _line


def run_op(fn, faults, trace_fn):
    """Run one operation of the code under test. -> (outcome, value, OpCtx)"""
    try:
        return run_op_(fn, OpCtx(faults), trace_fn)
    finally:
        if SIM is not None and SIM.tasks and not SIM.dead:
            SIM.drain()


def run_op_(fn, ctx, trace_fn):
    _tls.op = ctx
    if isinstance(trace_fn, list):           # lines of the functions of one class are switch points
        ctx.lines = trace_fn
    need = trace_fn or any(f.cls == "fn" for f in ctx.faults)
    if need:
        sys.settrace(_tracer)
    try:
        try:
            v = fn()
            out = "ret"
        finally:
            if need:
                sys.settrace(None)
            _tls.op = None
            ctx.live = False
            if SIM is not None and SIM.tasks:
                ctx.faults = []              # a fault belongs to the call
    except (SimCrash, SimKill):
        return "crash", None, ctx
    except SimAbort:
        raise
    except SimBudget as e:
        return "hang", str(e), ctx
    except KeyboardInterrupt:
        return "intr", None, ctx
    except BaseException as e:               # noqa
        if SIM is not None and SIM.dead:
            return "crash", None, ctx
        return "raise", "%s: %s" % (type(e).__name__, e), ctx
    if SIM is not None and SIM.dead:
        return "crash", None, ctx            # the call outlived its process
    return out, v, ctx


class bypass:
    """Harness file access, invisible to the simulation."""

    def __enter__(self):
        _tls.bypass = getattr(_tls, "bypass", 0) + 1

    def __exit__(self, *a):
        _tls.bypass -= 1


def begin(sim):
    global SIM
    SIM = sim


def end():
    global SIM
    SIM = None
    _tls.op = None


# ---------------------------------------------------------------------------
# cooperative scheduler
# ---------------------------------------------------------------------------

def _gate():
    g = _thread.allocate_lock()
    g.acquire()
    return g


class Scheduler:
    """Real threads, one runs at a time; who runs next is data.

    `switches` is a list of [point number, choice]: when the global seam-point
    counter reaches the number, control goes to the choice-th other runnable
    thread. Everything else runs to completion in thread order.
    """

    def __init__(self, sim, fns, switches, hot=0, wr=0):
        self.sim = sim
        self.fns = fns
        self.switches = {int(p): int(c) for p, c in switches}
        self.n = 0
        self.done = [False] * len(fns)
        self.sems = [_gate() for _ in fns]
        self.main = _gate()
        self.stalls = 0
        self.hot = hot
        self.nh = 0
        self.wr = wr
        self.nw = 0
        self.dirty = set()           # threads whose last step changed a file
        self.lender = {}
        self.taken = 0
        self.err = []
        self.cur = None

    def run(self):
        ths = []
        self.sim.sched = self
        for i in range(len(self.fns)):
            t = threading.Thread(target=self._body, args=(i,), daemon=True)
            ths.append(t)
            t.start()
        self.cur = 0
        self.sems[0].release()
        self.main.acquire()
        for t in ths:
            t.join()
        self.sim.sched = None
        if self.err:
            raise self.err[0]

    def _body(self, i):
        self.sems[i].acquire()
        _tls.tid = i + 1
        try:
            self.fns[i]()
        except BaseException as e:          # noqa
            self.err.append(e)
        finally:
            self.done[i] = True
            self._next(i)

    def _next(self, i):
        run = [k for k in range(len(self.fns)) if not self.done[k]]
        if not run:
            self.main.release()
            return
        back = self.lender.pop(i, None)
        if back in run:
            run.insert(0, back)
        self.cur = run[0]
        self.sems[run[0]].release()

    def point(self, cls):
        me = getattr(_tls, "tid", 0) - 1
        if me < 0:
            return
        n = self.n
        self.n += 1
        self.stalls = 0
        c = self.switches.get(n)
        if c is None:
            if me in self.dirty:
                self.lend(me)
            return
        self.dirty.discard(me)
        others = [k for k in range(len(self.fns)) if not self.done[k] and k != me]
        if not others:
            return
        self.taken += 1
        self._give(me, others[c % len(others)])

    def lend(self, me):
        """Just after a file was changed: the bits of `wr` say when another thread gets the turn for one call."""
        self.dirty.discard(me)
        n = self.nw
        self.nw += 1
        others = [k for k in range(len(self.fns)) if not self.done[k] and k != me and k not in self.lender.values()]
        if others and me not in self.lender and self.wr >> n % 61 & 1:
            to = others[n // 61 % len(others) if n % 7 else n % len(others)]
            self.taken += 1
            self.lender[to] = me
            self._give(me, to)

    def turn(self):
        """A call begins: a lent turn goes back."""
        me = getattr(_tls, "tid", 0) - 1
        back = self.lender.pop(me, None)
        if back is not None and not self.done[back]:
            self._give(me, back)

    def hot_point(self):
        """A line of a function that uses what the sessions share: the bits of `hot` say when to switch."""
        me = getattr(_tls, "tid", 0) - 1
        if me < 0 or self.nh > 4000:
            return
        n = self.nh
        self.nh += 1
        self.stalls = 0
        others = [k for k in range(len(self.fns)) if not self.done[k] and k != me]
        if others and self.hot >> n % 61 & 1:
            self.taken += 1
            self._give(me, others[n // 61 % len(others)])

    def _give(self, me, to):
        self.sim.log("SWITCH", me, to)
        tr = sys.gettrace()
        self.cur = to
        self.sems[to].release()
        self.sems[me].acquire()
        if tr is not None and sys.gettrace() is not tr:
            sys.settrace(tr)

    def yield_(self):
        """The thread waits a while: the next one in turn goes on."""
        me = getattr(_tls, "tid", 0) - 1
        if me < 0:
            return False
        k = len(self.fns)
        others = [(me + i) % k for i in range(1, k) if not self.done[(me + i) % k]]
        if not others:
            return False
        self._give(me, others[0])
        if self.sim.dead:
            raise SimCrash()
        return True

    def block(self):
        """The thread cannot go on. -> False when nobody else can either."""
        self.stalls += 1
        if self.stalls > 50 * len(self.fns):
            raise SimBudget("deadlock")
        return self.yield_()
