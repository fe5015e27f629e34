"""C12: FileCache: for all schedules of several processes, crash points and disk-full faults, get_file gives the complete current content; in-use files stay."""
import os, shutil
from vlib import harness, vos
from vlib.harness import Violation, expect, expect_eq

PID = "C12"
LEVEL = "model_checking"
RULE = (
    "case = (scenario, bounds, subtree); every schedule (deviation bound) x crash point is one execution of the real FileCache + LockFile +"
    " touch-thread code on real files under the controlled scheduler with a virtual clock; invariant evaluated after every file operation;"
    " state = step trace; outcome = result of each process"
)
BOUNDS = {
    "quick": "2 processes (+ their touch threads) with <=2 deviations, 3 with <=1, 1 process killed at every operation with <=1 deviation, ENOSPC at try 1..2, source changes between/before/during (at every operation), cleanup pressure with used/released files",
    "thorough": "one more deviation",
}
ASSUMPTIONS = [
    "rename, O_EXCL creation are atomic; a killed process loses its unflushed buffers only",
    "time passes only while all processes wait (no process is suspended for longer than the lock timeout)",
    "a modification of the source replaces it atomically (write aside + rename), with a later mtime and possibly the same size",
]
A1 = bytes(range(97, 107)) * 3
B1 = b"B" * 30
A3 = b"3" + A1[1:]
A2 = b"2" + A1[1:]  # same size, other content


def gen_cases(tier):
    x = 0 if tier == "quick" else 1
    sc = [
        dict(t="get", procs=["a", "a"], p=2 + x, c=0),
        dict(t="get", procs=["a", "b"], p=1 + x, c=0),
        dict(t="get", procs=["a", "a", "a"], p=1 + x, c=0),
        dict(t="get", procs=["a", "a"], p=1 + x, c=1),
        dict(t="get", procs=["a"], p=0 + x, c=1, then=True),
        dict(t="get", procs=["a"], p=0, c=1, then=True, pre="old"),
        dict(t="get", procs=["a", "a"], p=2 + x, c=0, pre="old"),
        dict(t="get", procs=["a", "a"], p=2 + x, c=0, pre="cached"),
        dict(t="get", procs=["a"], p=0, c=0, pre="short"),
        dict(t="get", procs=["a"], p=0, c=0, pre="noinfo"),
        dict(t="get", procs=["a", "a"], p=0 + x, c=1, pre="old"),
    ]
    sc.append(dict(t="get", procs=["a"], p=2 + x, c=0, mod=True, then=True))
    sc.append(dict(t="get", procs=["a", "a"], p=1 + x, c=0, mod=True, then=True))
    sc.append(dict(t="get", procs=["a"], p=1 + x, c=1, mod=True, then=True))
    sc.append(dict(t="get", procs=["a"], p=1 + x, c=0, mod=True, then=True, pre="old"))
    sc.append(dict(t="get", procs=["a"], p=1 + x, c=0, mod=True, then=True, pre="cached"))
    for k in range(0, 4):
        sc.append(dict(t="nospace", k=k, p=0))
    sc.append(dict(t="use", p=2 + x))
    sc.append(dict(t="clean", p=1 + x, rel=False))
    sc.append(dict(t="clean", p=1 + x, rel=True))
    for n in range(1, 6):
        for first in ("ga", "gb"):
            sc.append(dict(t="seq", p=0, n=n, first=first))
    for s in sc:
        parts = 8 if s["p"] >= 1 else 1
        for part in range(parts):
            yield dict(s, part=part, parts=parts)


def _setup(w):
    root = os.environ["TMPDIR"] + "/fc"
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root + "/src/d")
    w.root = root
    w.cache = root + "/cache"
    w.src = {"a": root + "/src/d/a.bin", "b": root + "/src/d/b.bin"}
    _put(w.src["a"], A1, w.clock - 1000)
    _put(w.src["b"], B1, w.clock - 1000)
    w.cont = {"a": A1, "b": B1}


def _put(fn, data, mtime):
    with open(fn, "wb") as f:
        f.write(data)
    os.utime(fn, (mtime, mtime))


def _fc(w, **kw):
    from returnn.util.file_cache import FileCache

    return FileCache(cache_directory=w.cache, **kw)


def _read(fn):
    with open(fn, "rb") as f:
        return f.read()


def _inv(w):
    """a file under its final name in the cache is never partial"""
    for k, src in w.src.items():
        dst = w.cache + src
        try:
            size = vos._real["os.stat"](dst).st_size
            with vos._real["open"](dst, "rb") as f:
                data = f.read()
        except OSError:
            continue
        if data not in w.valid[k] and w.bad is None:
            w.bad = f"cached file {k} is visible with wrong/partial content (size {size}) after {w.trace[-1]}"


def _pre(w, pre):
    """prepare the cache dir by a real earlier run, then modify"""
    w.valid = {"a": {A1}, "b": {B1}}
    w.bad = None
    if not pre:
        return
    fc = _fc(w)
    dst = _plain_get(fc, w.src["a"])
    old = w.clock - 500
    for fn in [dst, dst + ".returnn-info"]:
        os.utime(fn, (old, old))
    if pre == "old":
        # source got modified after it was cached. same size
        _put(w.src["a"], A2, w.clock - 100)
        w.cont["a"] = A2
        w.valid["a"] = {A1, A2}
    elif pre == "short":
        _put(dst, A1[:7], w.clock - 500)
        w.valid["a"] = {A1, A1[:7]}
    elif pre == "noinfo":
        os.remove(dst + ".returnn-info")
    else:
        assert pre == "cached"


def _plain_get(fc, fn):
    """outside of the scheduler; without background thread"""
    fc._touch_files_thread.start_once = lambda: None
    import builtins, contextlib, io

    with contextlib.redirect_stdout(io.StringIO()):
        return fc.get_file(fn)


def _info(case, w):
    tr = " ".join(f"{n}:{d if isinstance(d, str) else '/'.join(map(str, d))}" for n, d in w.trace)[-1800:]
    return f"{case} schedule {w.choices}: trace {tr}"


def _case_get(case, ctx):
    def make(w):
        _setup(w)
        _pre(w, case.get("pre"))
        w.on_step = _inv

        def body(key, proc):
            def f():
                fc = _fc(w)
                fn = fc.get_file(w.src[key])
                data = _read(fn)
                fc.release_files(fn)
                return data

            return f

        for i, key in enumerate(case["procs"]):
            p = w.proc(f"P{i}")
            w.spawn(p, f"P{i}", body(key, p))
        if case.get("mod"):
            w.valid["a"] = w.valid["a"] | {A3}
            w.now_a = w.cont["a"]
            w.cont["a"] = A3

            def modify():
                with open(w.src["a"] + ".new", "wb") as f:
                    f.write(A3)
                os.utime(w.src["a"] + ".new", (w.clock - 1, w.clock - 1))
                os.rename(w.src["a"] + ".new", w.src["a"])

            w.spawn(w.proc("M"), "M", modify)
        if case.get("then"):

            def later():
                import time

                time.sleep(2)
                return body("a", None)()

            w.spawn(w.proc("Q"), "Q", later)

    def check(w):
        if w.bad:
            raise Violation(w.bad + "; " + _info(case, w))
        if w.run_error is not None:
            raise Violation(f"no progress: {w.run_error}; {_info(case, w)}")
        for a in w.actors:
            if a.proc.dead or a.daemon:
                continue
            if a.exc is not None:
                raise Violation(f"{a.name}: get_file failed: {a.exc!r}; {_info(case, w)}")
            if a.name == "M":
                continue
            key = case["procs"][int(a.name[1:])] if a.name[0] == "P" else "a"
            if case.get("mod") and a.name[0] == "P" and a.result == w.now_a:
                continue  # modified while the file was requested: old or new
            if a.result != w.cont[key]:
                raise Violation(f"{a.name}: get_file delivers {a.result!r}, source is {w.cont[key]!r}; {_info(case, w)}")
        for a in w.actors:
            if a.daemon and a.exc is not None and not a.proc.dead:
                raise Violation(f"background thread that protects the used files died: {a.exc!r}; {_info(case, w)}")
        left = [f for _, _, fs in os.walk(w.cache) for f in fs if f.endswith(".lock")]
        if not w.crashed:
            expect(not left, lambda: f"lock left over {left}; {_info(case, w)}")

    _explore(case, ctx, make, check, ["P0"] if case["c"] else ())


def _explore(case, ctx, make, check, crashable=(), **kw):
    def stats(w):
        ctx.trans(len(w.trace))
        ctx.trace()
        ctx.state((case["t"], tuple(w.trace)))
        ctx.outcome((case["t"], str(case.get("procs")), case.get("pre"), tuple(w.crashed), tuple(repr(a.result) for a in w.actors), tuple(a.state for a in w.actors)))
        ctx.count("schedules")
        if w.crashed:
            ctx.count("crash_executions")

    vos.explore(make, check, max_preempt=case["p"], max_crash=case.get("c", 0), crashable=crashable, stats=stats, part=case["part"], parts=case["parts"], max_steps=6000, **kw)


def _case_nospace(case, ctx):
    """the first k copy attempts fail with ENOSPC. the default is 3 tries."""

    def make(w):
        _setup(w)
        _pre(w, None)
        w.on_step = _inv
        w.count = 0

        def fault(w, a):
            w.count += 1
            return w.count <= case["k"]

        w.fault_nospace = fault

        def f():
            fc = _fc(w)
            fn = fc.get_file(w.src["a"])
            return _read(fn)

        def g():
            import time

            time.sleep(60)
            w.fault_nospace = None
            return _read(_fc(w).get_file(w.src["a"]))

        w.spawn(w.proc("P0"), "P0", f)
        w.spawn(w.proc("P1"), "P1", g)

    def check(w):
        a, b = [x for x in w.actors if not x.daemon]
        if w.bad:
            raise Violation(w.bad + "; " + _info(case, w))
        if w.run_error is not None:
            raise Violation(f"no progress: {w.run_error}; {_info(case, w)}")
        if case["k"] < 3:
            if a.exc is not None or a.result != A1:
                raise Violation(f"disk full in the first {case['k']} of 3 tries, then ok: get_file gives {a.result!r} / {a.exc!r}; {_info(case, w)}")
        else:
            expect(isinstance(a.exc, OSError), lambda: f"all tries failed but get_file gives {a.result!r} {a.exc!r}; {_info(case, w)}")
        expect(b.exc is None and b.result == A1, lambda: f"after the disk full: {b.result!r} {b.exc!r}; {_info(case, w)}")

    _explore(case, ctx, make, check)


def _case_use(case, ctx):
    """files in use stay protected (kept recent) over time, also while other files are fetched and released"""

    def make(w):
        _setup(w)
        _pre(w, None)
        w.on_step = _inv

        def f():
            import time

            fc = _fc(w)
            fa = fc.get_file(w.src["a"])
            fb = fc.get_file(w.src["b"])
            fc.release_files(fb)
            time.sleep(3.5)
            fb = fc.get_file(w.src["b"])
            time.sleep(15)
            r = [time.time() - vos._real["os.stat"](fn + e).st_mtime for fn in (fa, fb) for e in ("", ".returnn-info")]
            return r

        w.spawn(w.proc("P0"), "P0", f)

    def check(w):
        a = w.actors[0]
        if w.bad:
            raise Violation(w.bad + "; " + _info(case, w))
        if w.run_error is not None or a.exc is not None:
            raise Violation(f"failed: {w.run_error or a.exc!r}; {_info(case, w)}")
        if max(a.result) > 5:
            raise Violation(f"mtime of used files not kept up to date, ages {a.result}; thread: {[x.exc for x in w.actors]}; {_info(case, w)}")

    _explore(case, ctx, make, check)


def _case_clean(case, ctx):
    """P0 uses file a; P1 needs space for file b, where not both fit (if a released and old: must work, else must fail without touching a)"""

    def make(w):
        _setup(w)
        _pre(w, None)
        w.disk_total = 30 + 30 + 8192 + 8192  # sources, plus room. see below: sizes count by blocks in the cleanup
        big = 6000
        for k, c in [("a", b"a"), ("b", b"b")]:
            w.cont[k] = c * big
            w.valid[k] = {w.cont[k]}
            _put(w.src[k], w.cont[k], w.clock - 1000)
        w.disk_total = 2 * big + 4096 + big  # one cached file fits
        w.on_step = _inv
        w.p0_done = False

        def f():
            import time

            fc = _fc(w)
            fn = fc.get_file(w.src["a"])
            if case["rel"]:
                fc.release_files(fn)
            time.sleep(40)
            w.exists = vos._real["os.stat"](fn).st_size if os.path.exists(fn) else None
            if not case["rel"]:
                time.sleep(40)
                return _read(fn)
            return None

        def g():
            import time

            time.sleep(60)
            fc = _fc(w)
            return _read(fc.get_file(w.src["b"]))

        w.spawn(w.proc("P0"), "P0", f)
        w.spawn(w.proc("P1"), "P1", g)

    def check(w):
        a, b = [x for x in w.actors if not x.daemon]
        if w.bad:
            raise Violation(w.bad + "; " + _info(case, w))
        if w.run_error is not None:
            raise Violation(f"no progress: {w.run_error}; {_info(case, w)}")
        if a.exc is not None:
            raise Violation(f"P0 failed: {a.exc!r}; {_info(case, w)}")
        if not case["rel"]:
            if a.result != w.cont["a"]:
                raise Violation(f"file in use was removed/changed: {str(a.result)[:40]!r}; {_info(case, w)}")
            expect(b.exc is not None and not isinstance(b.exc, FileNotFoundError), lambda: f"P1 {b.exc!r}; {_info(case, w)}")
        else:
            expect(b.exc is None and b.result == w.cont["b"], lambda: f"P1 could not get space from released files: {b.exc!r}; {_info(case, w)}")

    _explore(case, ctx, make, check)


def _case_seq(case, ctx):
    """all op sequences of length <=5 over get a/b, release, change source, delete cached/info file: always the current content"""
    import itertools

    ops = ["ga", "gb", "ma", "da", "ia", "new"]
    for n in [case["n"]]:
        for seq in itertools.product(ops, repeat=n):
            if seq[0] != case["first"] or not seq[-1].startswith("g") or any(x == y for x, y in zip(seq, seq[1:]) if x[0] != "g"):
                continue

            def make(w):
                _setup(w)
                w.bad = None
                w.disk_total = None

                def f():
                    import time

                    fc = _fc(w)
                    ver = 0
                    used = []
                    for op in seq:
                        time.sleep(1)
                        if op[0] == "g":
                            fn = fc.get_file(w.src[op[1]])
                            used.append(fn)
                            d = _read(fn)
                            if d != w.cont[op[1]]:
                                raise Violation(f"{seq}: {op} delivers {d!r}, source is {w.cont[op[1]]!r}")
                        elif op[0] == "m":
                            ver += 1
                            w.cont["a"] = bytes([48 + ver]) + A1[1:]
                            _put(w.src["a"], w.cont["a"], time.time())
                        elif op[0] in "di":
                            fc.release_files(used)
                            used = []
                            fn = w.cache + w.src["a"] + (".returnn-info" if op[0] == "i" else "")
                            if os.path.exists(fn):
                                os.remove(fn)
                        elif op == "new":
                            fc.release_files(used)
                            used = []
                            fc = _fc(w)
                    fc.release_files(used)
                    return True

                w.spawn(w.proc("P0"), "P0", f)

            def check(w):
                a = w.actors[0]
                if a.exc is not None or w.run_error is not None:
                    raise Violation(f"sequence {seq}: {a.exc.msg if isinstance(a.exc, Violation) else repr(a.exc)} {w.run_error}")
                ctx.trace()
                ctx.trans(len(seq))
                ctx.state(("seq", seq))

            vos.explore(make, check, max_preempt=0)


def run_case(case, ctx):
    globals()["_case_" + case["t"]](case, ctx)


def check_vacuity(total):
    if total.extra.get("schedules", 0) < 1000 or total.extra.get("crash_executions", 0) < 50 or len(total.outcomes) < 20:
        return f"too few schedules/outcomes: {total.extra} {len(total.outcomes)}"


if __name__ == "__main__":
    harness.main(__name__)
