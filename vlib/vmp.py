"""
Virtual multiprocessing for vos: processes of NonDaemonicSpawnContext are virtual processes (actors), pipes are virtual,
each pipe operation and process start/join is a scheduling point. What goes through a pipe or to a new process is pickled (no sharing).
"""

from __future__ import annotations
import io, os, pickle
from multiprocessing.connection import Connection
from multiprocessing.reduction import ForkingPickler
from vlib import vos


class _End:
    def __init__(self):
        self.refs = 0
        self.q = []
        self.peer = None


class VConn(Connection):
    _handle = None

    def __init__(self, end, readable=True, writable=True):
        self._end = end
        end.refs += 1
        self._isopen = True
        self._r, self._w = readable, writable

    def dup(self):
        self._check_closed()
        return VConn(self._end, self._r, self._w)

    def _check_closed(self):
        if not self._isopen:
            raise OSError("handle is closed")

    closed = property(lambda self: not self._isopen)
    readable = property(lambda self: self._r)
    writable = property(lambda self: self._w)

    def fileno(self):
        raise OSError("virtual pipe")

    def close(self):
        if getattr(self, "_isopen", False):
            self._isopen = False
            self._end.refs -= 1

    def __del__(self):
        self.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __reduce__(self):
        raise TypeError("pickling of a virtual connection is only possible for process args")

    def send(self, obj):
        self._check_closed()
        data = bytes(_dumps(obj))
        a = vos.cur()
        if a is None:
            raise BrokenPipeError("world ended")
        a.world.point(("send", a.name, _short(obj)))
        _enter(a)
        if not self._w:
            raise OSError("connection is read-only")
        if self._end.peer.refs <= 0:
            raise BrokenPipeError(32, "Broken pipe")
        self._end.peer.q.append(data)

    def recv(self):
        self._check_closed()
        a = vos.cur()
        if a is None:
            raise EOFError
        e = self._end
        a.world.block(("recv", a.name), pred=lambda: e.q or e.peer.refs <= 0)
        _enter(a)
        if not e.q:
            raise EOFError
        return pickle.loads(e.q.pop(0))

    def poll(self, timeout=0.0):
        self._check_closed()
        a = vos.cur()
        if a is None:
            return True
        e = self._end
        if timeout is None:
            a.world.block(("poll", a.name), pred=lambda: e.q or e.peer.refs <= 0)
        elif timeout > 0:
            if not _slow(a.world, lambda: e.q or e.peer.refs <= 0, timeout, ("poll", a.name)):
                a.world.block(("poll", a.name), pred=lambda: e.q or e.peer.refs <= 0, until=a.world.clock + timeout)
        else:
            a.world.point(("poll", a.name))
        _enter(a)
        return bool(e.q) or e.peer.refs <= 0

    def send_bytes(self, buf, offset=0, size=None):
        self.send(("__bytes__", bytes(buf)))

    def recv_bytes(self, maxlength=None):
        return self.recv()[1]


def _slow(w, pred, timeout, desc):
    """choice (costs like a preemption): what we wait for needs longer than the timeout"""
    w.point(desc)
    if pred():
        return False
    opts = [("wait", (0, 0))]
    if w.cost[0] < w.max_cost[0]:
        opts.append(("timeout", (1, 0)))
    if w.choose(opts, desc + ("timeout",)) == 0:
        return False
    w.clock += timeout
    return True


def _short(obj):
    return obj[0] if isinstance(obj, tuple) and obj and isinstance(obj[0], str) else type(obj).__name__


def _enter(a):
    """after a switch: environment of this process"""
    env = getattr(a.proc, "env", None)
    if env is not None:
        for k, v in env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


ENV_KEYS = ("RETURNN_RANDOM_SEED_OFFSET",)


def pipe(duplex=True):
    e1, e2 = _End(), _End()
    e1.peer, e2.peer = e2, e1
    return VConn(e1, True, duplex), VConn(e2, duplex, True)


def _dumps(obj, conns=None):
    buf = io.BytesIO()

    class P(ForkingPickler):
        def persistent_id(self, o):
            if conns is not None and isinstance(o, VConn):
                conns.append(o.dup())
                return len(conns) - 1
            return None

    P(buf).dump(obj)
    return buf.getvalue()


def _loads(data, conns):
    class U(pickle.Unpickler):
        def persistent_load(self, pid):
            return conns[pid]

    return U(io.BytesIO(data)).load()


class VProcess:
    _count = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self.name, self._target, self._args, self._kwargs = name, target, args, kwargs or {}
        self._actor = None
        self.daemon = False

    def start(self):
        a = vos.cur()
        w = a.world
        w.point(("Process.start", self.name))
        _enter(a)
        conns = []
        data = _dumps((self._target, self._args, self._kwargs), conns)
        n = len(w.procs)
        p = w.proc(f"{a.proc.name}.{n}")
        p.env = {k: os.environ.get(k) for k in ENV_KEYS}
        p.children_conns = conns
        del self._target, self._args

        def run():
            try:
                target, args, kw = _loads(data, conns)
                _enter(vos.cur())
                target(*args, **kw)
            except vos.Died:
                raise
            except SystemExit:
                pass
            except BaseException as exc:
                w.child_errors.append((self.name, exc))
                raise
            finally:
                if not w.aborting:
                    for c in list(conns):
                        c.close()

        self._actor = w.spawn(p, f"{p.name}", run, daemon=True)

    def join(self, timeout=None):
        a = vos.cur()
        if a is None:
            return
        act = self._actor
        if timeout is not None and _slow(a.world, lambda: act.state == "done", timeout, ("join", self.name)):
            _enter(a)
            return
        a.world.block(("join", self.name), pred=lambda: act.state == "done", until=None if timeout is None else a.world.clock + timeout)
        _enter(a)

    def is_alive(self):
        return self._actor is not None and self._actor.state != "done"

    exitcode = property(lambda self: None if self.is_alive() else 0)
    pid = ident = property(lambda self: 10**6)

    def terminate(self):
        pass

    kill = close = terminate


def install():
    vos.install()
    from returnn.util.multi_proc_non_daemonic_spawn import NonDaemonicSpawnContext
    from returnn.util import better_exchook

    NonDaemonicSpawnContext.Pipe = lambda self, duplex=True: pipe(duplex)
    NonDaemonicSpawnContext.Process = lambda self, *args, **kw: VProcess(*args, **kw)
    better_exchook.setup_all = lambda *a, **k: None
    vos.World.child_errors = property(lambda self: self.__dict__.setdefault("_child_errors", []))
