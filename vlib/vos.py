"""
Controlled execution of real Python code as a set of virtual processes (real threads, one runs at a time).

Every file system operation, clock access, sleep, Event/Thread operation of an actor is a scheduling point.
The explorer enumerates all schedules up to a preemption bound, and all crash points (process kill) up to a crash bound.
The files are real files in a scratch directory; file mtimes and the clock are virtual (they only advance by sleeping).
A killed process does not do anything anymore (its buffered writes are lost, finally blocks have no effect).
"""

from __future__ import annotations
import os, sys, time, threading, builtins, shutil, io, errno

_tl = threading.local()
_real = {}


class Died(BaseException):
    """this virtual process got killed"""


class Deadlock(Exception):
    pass


class Horizon(Exception):
    """execution exceeded the step bound (livelock)"""


class Divergence(Exception):
    """replay of a prefix gave something else: nondeterminism not under control"""


def cur():
    return getattr(_tl, "actor", None)


class Proc:
    def __init__(self, world, name):
        self.world, self.name = world, name
        self.dead = False
        self.files = []  # open proxies


class Actor:
    def __init__(self, proc, name, func, daemon=False):
        self.proc, self.name, self.func, self.daemon = proc, name, func, daemon
        self.world = proc.world
        self.sem = threading.Semaphore(0)
        self.state = "ready"  # ready|sleep|wait|done
        self.until = None
        self.pred = None
        self.result = None
        self.exc = None
        self.thread = _real["Thread"](target=self._main, daemon=True)
        self.last_run = -1000 + len(self.world.actors)

    def _main(self):
        _tl.actor = self
        self.sem.acquire()
        try:
            if self.world.aborting or self.proc.dead:
                raise Died()
            self.result = self.func()
        except Died:
            pass
        except BaseException as exc:
            self.exc = exc
        finally:
            self.state = "done"
            _tl.actor = None
            self.world._switch_from(self)

    def enabled(self):
        w = self.world
        if self.state == "done" or self.proc.dead:
            return False
        if self.state == "ready":
            return True
        if self.state == "sleep":
            return self.until <= w.clock
        if self.state == "wait":
            return self.pred() or (self.until is not None and self.until <= w.clock)
        raise ValueError(self.state)


class World:
    """one execution"""

    def __init__(self, prefix, *, max_preempt, max_crash=0, crashable=(), max_steps=5000, t0=1.7e9, yield_ops=None, crash_skip_reads=False):
        self.prefix = list(prefix)
        self.pos = 0
        self.points = []  # (num options, costs (preempt, crash) of each option, desc)
        self.choices = []
        self.actors = []
        self.procs = []
        self.clock = t0
        self.cost = (0, 0)
        self.max_cost = (max_preempt, max_crash)
        self.crashable = set(crashable)
        self.max_steps = max_steps
        self.steps = 0
        self.aborting = False
        self.error = None
        self.done_sem = threading.Semaphore(0)
        self.trace = []
        self.crashed = []
        self.root = None
        self.on_step = None  # called after every completed op, with world. raises for a violation
        self.yield_ops = yield_ops
        self.crash_skip_reads = crash_skip_reads  # a kill before a read-only op is the same as before the next op (if no other process runs)
        self.disk_free = 1 << 40

    def proc(self, name):
        p = Proc(self, name)
        self.procs.append(p)
        return p

    def spawn(self, proc, name, func, daemon=False):
        a = Actor(proc, name, func, daemon)
        self.actors.append(a)
        me = cur()
        _tl.actor = None  # the start of the real thread itself is not an operation of the virtual process
        try:
            a.thread.start()
        finally:
            _tl.actor = me
        return a

    # -- choice
    def choose(self, options, desc):
        """:param options: list of (label, cost)"""
        if len(options) == 1:
            return 0
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
            if c >= len(options):
                self.error = Divergence(f"choice {c} of {len(options)} at {desc}")
                self._abort()
        else:
            c = 0
        self.pos += 1
        self.points.append((len(options), [o[1] for o in options], self.cost, desc))
        self.choices.append(c)
        k = options[c][1]
        self.cost = (self.cost[0] + k[0], self.cost[1] + k[1])
        return c

    def _abort(self):
        self.aborting = True
        raise Died()

    # -- scheduling
    def _pick(self, me, desc):
        """choose the next actor to run. me: the current actor (may be not enabled anymore, or None)."""
        while True:
            en = [a for a in self.actors if a.enabled()]
            if not [a for a in self.actors if not a.daemon and a.state != "done" and not a.proc.dead]:
                return None  # all main actors finished
            if not en:
                sl = [a.until for a in self.actors if a.state in ("sleep", "wait") and a.until is not None and not a.proc.dead]
                if not sl:
                    self.error = Deadlock("no enabled actor: " + ", ".join(f"{a.name}:{a.state}" for a in self.actors if a.state != "done"))
                    return None
                self.clock = max(self.clock, min(sl))
                continue
            break
        opts = []
        if me is not None and me in en:
            opts.append((("run", me), (0, 0)))
            for a in en:
                if a is not me and self.cost[0] < self.max_cost[0]:
                    opts.append((("run", a), (1, 0)))
        else:
            # fair default: the one which waits longest. every deviation from it costs.
            en.sort(key=lambda a: a.last_run)
            for i, a in enumerate(en):
                if i == 0 or self.cost[0] < self.max_cost[0]:
                    opts.append((("run", a), (1 if i else 0, 0)))
        if me is not None and me.state == "ready" and me.proc.name in self.crashable and not me.proc.dead and self.cost[1] < self.max_cost[1] and not (self.crash_skip_reads and _is_read(desc)):
            opts.append((("crash", me), (0, 1)))
        c = self.choose(opts, (me.name if me else None, desc))
        kind, a = opts[c][0]
        a.last_run = self.steps
        if kind == "crash":
            self.kill(me.proc, desc)
            return self._pick(None, desc)
        return a

    def kill(self, proc, desc):
        proc.dead = True
        self.crashed.append((proc.name, desc))
        for f in proc.files:
            f._lose()
        self.trace.append((proc.name, "KILLED before " + str(desc)))

    def point(self, desc):
        """called by actor before each op"""
        me = cur()
        if self.aborting or me.proc.dead:
            raise Died()
        self.steps += 1
        if self.steps > self.max_steps:
            self.error = Horizon(f"more than {self.max_steps} steps; last {self.trace[-6:]}")
            self._end()
            raise Died()
        nxt = self._pick(me, desc)
        if nxt is None:
            self._end()
            raise Died()
        if nxt is not me:
            nxt.state = "ready"
            nxt.sem.release()
            me.sem.acquire()
        else:
            me.state = "ready"
        if self.aborting or me.proc.dead:
            raise Died()
        self.trace.append((me.name, desc))

    def _switch_from(self, me):
        """me is done"""
        if self.aborting:
            return
        try:
            nxt = self._pick(None, "end of " + me.name)
        except Died:
            nxt = None
        if nxt is None:
            self._end()
        else:
            nxt.state = "ready"
            nxt.sem.release()

    def block(self, desc, *, until=None, pred=None):
        me = cur()
        if self.aborting or me.proc.dead:
            raise Died()
        me.state = "sleep" if pred is None else "wait"
        me.until = until
        me.pred = pred
        try:
            self.point(desc)
        finally:
            if me.state != "done":
                me.state = "ready"

    def _end(self):
        self.aborting = True
        self.done_sem.release()

    def run(self):
        nxt = self._pick(None, "start")
        nxt.sem.release()
        if not self.done_sem.acquire(timeout=60):
            self.aborting = True
            raise Divergence(f"execution stuck (an operation blocks outside of the scheduler); trace {self.trace[-8:]}")
        for a in self.actors:
            a.sem.release()
        for a in self.actors:
            _real["Thread.join"](a.thread, 20)
            if _real["is_alive"](a.thread):
                raise Divergence(f"actor {a.name} does not terminate")
        for p in self.procs:
            for f in p.files:
                f._lose()
        if self.error is not None:
            raise self.error


def _is_read(desc):
    return isinstance(desc, tuple) and (desc[0] in ("stat", "lstat", "listdir", "scandir") or (desc[0] == "open" and len(desc) == 3 and desc[1] in ("r", "rt", "rb")))


class FileProxy:
    """file object opened by an actor"""

    def __init__(self, f, path, writing, proc):
        self._f, self._path, self._writing, self._proc = f, path, writing, proc
        self._lost = False
        proc.files.append(self)

    def _lose(self):
        """process died: drop everything buffered"""
        if self._lost or self._f.closed:
            return
        self._lost = True
        try:
            null = _real["os.open"]("/dev/null", os.O_RDWR)
            os.dup2(null, self._f.fileno())
            _real["os.close"](null)
            self._f.close()
        except Exception:
            pass

    def _touch(self):
        w = self._proc.world
        if self._writing:
            try:
                _real["os.utime"](self._path, (w.clock, w.clock))
            except OSError:
                pass

    def write(self, data):
        w = self._proc.world
        w.point(("write", os.path.basename(str(self._path)), len(data)))
        r = self._f.write(data)
        self._touch()
        return r

    def close(self):
        if self._f.closed:
            return
        if self._writing:
            self._proc.world.point(("close", os.path.basename(str(self._path))))
        elif self._proc.dead or self._proc.world.aborting:
            raise Died()
        self._f.close()
        if self in self._proc.files:
            self._proc.files.remove(self)
        self._touch()

    def flush(self):
        if self._writing:
            self._proc.world.point(("flush", os.path.basename(str(self._path))))
        r = self._f.flush()
        self._touch()
        return r

    def truncate(self, *args):
        self._proc.world.point(("truncate", os.path.basename(str(self._path))))
        r = self._f.truncate(*args)
        self._touch()
        return r

    def read(self, *args):
        if self._proc.dead or self._proc.world.aborting:
            raise Died()
        return self._f.read(*args)

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        self.close()

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, k):
        return getattr(self._f, k)

    def __del__(self):
        pass


def _in_scope(w, p):
    """only the files below the root of this execution are visible to the scheduler"""
    try:
        p = os.fspath(p)
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = p.decode()
    return w.root is not None and (p == w.root or p.startswith(w.root + "/"))


def _wrap_os(name, path_args=1, post=None):
    f = _real["os." + name]

    def g(*args, **kw):
        a = cur()
        if a is None:
            return f(*args, **kw)
        w = a.world
        if not args or not _in_scope(w, args[0]):
            return f(*args, **kw)
        w.point((name,) + tuple(os.path.basename(os.fspath(x)) for x in args[:path_args]))
        try:
            r = f(*args, **kw)
        finally:
            if w.on_step:
                w.on_step(w)
        if post:
            post(w, r, *args, **kw)
        return r

    g.__name__ = name
    return g


def _post_open(w, r, path, flags, *_a, **_kw):
    if flags & (os.O_CREAT | os.O_WRONLY | os.O_RDWR):
        _real["os.utime"](path, (w.clock, w.clock))


def _post_mkdir(w, r, path, *_a, **_kw):
    _real["os.utime"](path, (w.clock, w.clock))


def _utime(path, times=None, **kw):
    a = cur()
    if a is None:
        return _real["os.utime"](path, times, **kw)
    w = a.world
    if not _in_scope(w, path):
        return _real["os.utime"](path, times, **kw)
    w.point(("utime", os.path.basename(os.fspath(path))))
    if times is None and not kw:
        times = (w.clock, w.clock)
    return _real["os.utime"](path, times, **kw)


def _open(file, mode="r", *args, **kw):
    a = cur()
    if a is None or isinstance(file, int) or not _in_scope(a.world, file):
        return _real["open"](file, mode, *args, **kw)
    w = a.world
    writing = any(c in mode for c in "wax+")
    w.point(("open", mode, os.path.basename(os.fspath(file))))
    f = _real["open"](file, mode, *args, **kw)
    p = FileProxy(f, file, writing, a.proc)
    p._touch()
    if w.on_step:
        w.on_step(w)
    return p


World.tick = 0.0  # how much the virtual clock advances with each access


def _time():
    a = cur()
    if not a:
        return _real["time.time"]()
    a.world.clock += a.world.tick
    return a.world.clock


def _monotonic():
    a = cur()
    return _time() - 1.6e9 if a else _real["time.monotonic"]()


class native:
    """run code in an actor outside of the control of the scheduler"""

    def __enter__(self):
        self.a = cur()
        _tl.actor = None

    def __exit__(self, *exc):
        _tl.actor = self.a


def wait_until(pred, desc):
    cur().world.block(desc, pred=pred)


def _sleep(dt):
    a = cur()
    if a is None:
        return _real["time.sleep"](dt)
    a.world.block(("sleep", dt), until=a.world.clock + dt)


def _ev_wait(self, timeout=None):
    a = cur()
    if a is None:
        return _real["Event.wait"](self, timeout)
    if self._flag:
        return True
    w = a.world
    w.block("Event.wait", until=None if timeout is None else w.clock + timeout, pred=lambda: self._flag)
    return self._flag


def _ev_set(self):
    a = cur()
    if a is not None:
        if a.proc.dead or a.world.aborting:
            return
        self._flag = True
        return
    return _real["Event.set"](self)


def _th_start(self):
    a = cur()
    if a is None:
        return _real["Thread.start"](self)
    w = a.world
    w.point("Thread.start")
    self._vos_actor = w.spawn(a.proc, f"{a.name}.t{sum(1 for x in w.actors if x.proc is a.proc)}", self.run, daemon=True)


def _th_join(self, timeout=None):
    act = getattr(self, "_vos_actor", None)
    a = cur()
    if act is None or a is None:
        if act is None:
            return _real["Thread.join"](self, timeout)
        return
    w = a.world
    w.block("Thread.join", until=None if timeout is None else w.clock + timeout, pred=lambda: act.state == "done")


def _th_is_alive(self):
    act = getattr(self, "_vos_actor", None)
    if act is None:
        return _real["is_alive"](self)
    return act.state != "done"


def _disk_usage(path):
    a = cur()
    if a is None:
        return _real["disk_usage"](path)
    w = a.world
    used = 0
    for root, _, files in os.walk(w.root):
        for f in files:
            try:
                used += _real["os.stat"](root + "/" + f).st_size
            except OSError:
                pass
    return shutil._ntuple_diskusage(w.disk_total, used, max(0, w.disk_total - used)) if getattr(w, "disk_total", None) else shutil._ntuple_diskusage(1 << 40, 1 << 30, (1 << 40) - (1 << 30))


def _posix_fallocate(fd, off, ln):
    a = cur()
    if a is None:
        return _real["os.posix_fallocate"](fd, off, ln)
    w = a.world
    w.point("posix_fallocate")
    if w.fault_nospace and w.fault_nospace(w, a):
        raise OSError(errno.ENOSPC, "No space left on device")
    r = _real["os.posix_fallocate"](fd, off, ln)
    for f in a.proc.files:
        f._touch()
    return r


World.fault_nospace = None

_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    for n in "open close remove unlink rename replace stat lstat utime mkdir rmdir listdir scandir posix_fallocate link symlink".split():
        _real["os." + n] = getattr(os, n)
    _real["open"] = builtins.open
    _real["time.time"], _real["time.sleep"], _real["time.monotonic"] = time.time, time.sleep, time.monotonic
    _real["Event.wait"], _real["Event.set"] = threading.Event.wait, threading.Event.set
    _real["Thread.start"], _real["Thread.join"], _real["is_alive"] = threading.Thread.start, threading.Thread.join, threading.Thread.is_alive
    _real["disk_usage"] = shutil.disk_usage

    class RealThread(threading.Thread):
        def start(self):
            _real["Thread.start"](self)

        def join(self, timeout=None):
            _real["Thread.join"](self, timeout)

    _real["Thread"] = RealThread
    for n, k in [("remove", 1), ("unlink", 1), ("rename", 2), ("replace", 2), ("stat", 1), ("lstat", 1), ("rmdir", 1), ("listdir", 1), ("scandir", 1), ("link", 2), ("symlink", 2)]:
        setattr(os, n, _wrap_os(n, k))
    os.open = _wrap_os("open", 1, _post_open)
    os.mkdir = _wrap_os("mkdir", 1, _post_mkdir)
    os.utime = _utime
    os.posix_fallocate = _posix_fallocate

    def _close(fd):
        a = cur()
        if a is not None and (a.proc.dead or a.world.aborting):
            try:
                _real["os.close"](fd)
            except OSError:
                pass
            raise Died()
        return _real["os.close"](fd)

    os.close = _close
    builtins.open = _open
    io.open = _open
    time.time, time.sleep, time.monotonic = _time, _sleep, _monotonic
    threading.Event.wait, threading.Event.set = _ev_wait, _ev_set
    threading.Thread.start, threading.Thread.join, threading.Thread.is_alive = _th_start, _th_join, _th_is_alive
    shutil.disk_usage = _disk_usage
    os.register_at_fork(after_in_child=lambda: setattr(_tl, "actor", None))  # a forked helper process runs natively


def explore(make, check, *, max_preempt, max_crash=0, crashable=(), max_runs=10**7, stats=None, part=0, parts=1, **kw):
    """
    Enumerates all executions.

    :param make: func(world): sets up a fresh scenario (files, procs, actors) for the world
    :param check: func(world): judges the complete execution, raises Violation
    :param part, parts: this call only handles every parts-th subtree (branching at the default execution)
    :return: number of executions
    """
    install()
    stack = [()]
    n = 0
    while stack:
        prefix = stack.pop()
        w = World(prefix, max_preempt=max_preempt, max_crash=max_crash, crashable=crashable, **kw)
        make(w)
        try:
            w.run()
        except (Deadlock, Horizon) as exc:
            w.run_error = exc
        else:
            w.run_error = None
        is_root_default = not prefix
        if not is_root_default or part == 0:
            n += 1
            check(w)
            if stats is not None:
                stats(w)
        subtree = 0
        for i in range(len(prefix), len(w.points)):
            nopt, costs, before, _ = w.points[i]
            for alt in range(1, nopt):
                k = costs[alt]
                if before[0] + k[0] > max_preempt or before[1] + k[1] > max_crash:
                    continue
                subtree += 1
                if is_root_default and parts > 1 and subtree % parts != part:
                    continue
                stack.append(tuple(w.choices[:i]) + (alt,))
        if n >= max_runs:
            raise Divergence(f"more than {max_runs} executions")
    return n
