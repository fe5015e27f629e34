"""C49: on-the-fly compiled native code: every process gets a complete, up-to-date lib, for all schedules and crash points."""
import os, shutil
from vlib import harness, vos
from vlib.harness import Violation, expect, expect_eq

PID = "C49"
LEVEL = "model_checking"
RULE = (
    "case = (scenario, number of processes, deviation bound, crash bound, subtree); every schedule/crash point within the bounds is one"
    " execution of the real NativeCodeCompiler on real files under the controlled scheduler, with a stand-in for the compiler binary which"
    " writes its output file in two steps; state = step trace; outcome = which processes compiled / crashed"
)
BOUNDS = {
    "quick": "2 procs with <=2 deviations (different versions: 3), 3 procs with <=1 deviation, every crash point of a compiling process (<=1 deviation), each for: empty cache, outdated dependency, other code version, old other versions to clean up, failing compiler",
    "thorough": "one more deviation",
}
ASSUMPTIONS = [
    "the compiler stand-in removes an existing output file and writes the new one non-atomically, as ld does",
    "virtual clock: time passes only while all processes wait; the lock timeout is set to 20 s",
    "the same code is compiled by all processes of the same cache entry",
]
TIMEOUT = 20


def parent_init():
    import platform

    platform.platform()
    import returnn.util.native_code_compiler  # noqa


def worker_init():
    import subprocess, returnn.util.basic as util

    vos.install()
    subprocess.Popen = FakePopen

    class Lock(util.LockFile):
        """only another timeout"""

        def __init__(self, directory, name="lock_file", lock_timeout=TIMEOUT):
            super().__init__(directory, name, TIMEOUT)

    util.LockFile = Lock


class FakePopen:
    """stand-in for gcc/g++"""

    def __init__(self, args, **kw):
        self.args, self.pid, self.stdout, self.stderr, self.stdin = args, 99, None, None, None
        out = args[args.index("-o") + 1]
        src = [a for a in args if a.endswith((".cc", ".c", ".cpp"))][0]
        w = vos.cur().world
        st = w.st
        with open(src) as f:
            code = f.read()
        st.ncompile.append(vos.cur().name)
        if "FAIL" in code and len(st.ncompile) == 1:
            self.returncode = 1
            return
        content = _compiled(code, st)
        try:
            os.unlink(out)
        except FileNotFoundError:
            pass
        with open(out, "wb") as f:
            f.write(content[:10])
            f.flush()
            f.write(content[10:])
            f.flush()
        self.returncode = 0

    def communicate(self, input=None, timeout=None):
        return b"compiler output", None

    def wait(self, timeout=None):
        return self.returncode

    def poll(self):
        return self.returncode

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass


def _compiled(code, st):
    dep = ""
    if st.dep:
        with open(st.dep) as f:
            dep = f.read()
    return ("<lib: %s | dep: %s>" % (code, dep)).encode()


def gen_cases(tier):
    x = 0 if tier == "quick" else 1
    scen = [
        dict(t="empty", n=2, p=2 + x, c=0),
        dict(t="empty", n=3, p=1 + x, c=0),
        dict(t="empty", n=2, p=1 + x, c=1),
        dict(t="present", n=2, p=2 + x, c=0),
        dict(t="dep", n=2, p=2 + x, c=0),
        dict(t="dep", n=3, p=1 + x, c=0),
        dict(t="dep", n=2, p=x, c=1),
        dict(t="versions", n=2, p=3 + x, c=0),
        dict(t="versions", n=3, p=1 + x, c=0),
        dict(t="versions", n=2, p=x, c=1),
        dict(t="fail", n=2, p=2 + x, c=0),
        dict(t="mydir", n=1, p=0, c=0),
        dict(t="old", n=1, p=0, c=0),
        dict(t="old", n=2, p=1 + x, c=0),
    ]
    for s in scen:
        parts = 8 if s["n"] * (s["p"] + s["c"]) >= 4 else 2
        for part in range(parts):
            yield dict(s, part=part, parts=parts)


class _St:
    pass


def _make(case):
    def make(w):
        from returnn.util.native_code_compiler import NativeCodeCompiler

        root = os.environ["TMPDIR"] + "/ncc"
        shutil.rmtree(root, ignore_errors=True)
        os.mkdir(root)
        os.environ["RETURNN_CACHE_DIR"] = root
        w.root = root
        st = w.st = _St()
        st.ncompile = []
        st.dep = None
        st.code = {}
        st.libs = {}
        t = case["t"]
        if t in ("dep", "mydir"):
            st.dep = root + "/dep.h"
            with open(st.dep, "w") as f:
                f.write("dep v1")
            os.utime(st.dep, (w.clock - 1000, w.clock - 1000))

        def create(i, **kw):
            code = f"code v{i}" if t == "versions" else "FAIL code" if t == "fail" else "code"
            st.code[i] = code
            return NativeCodeCompiler(
                base_name="mod", code_version=i if t == "versions" else 1, code=code, include_deps=[st.dep] if st.dep else None,
                should_cleanup_old_mydir=t == "mydir", **kw,
            ).get_lib_filename()

        def setup():
            # compile before, in the real clock of the world but without scheduling
            def f():
                fn = create(0)
                return fn

            return f

        st.create = create
        if t in ("present", "dep", "mydir", "old"):
            w2 = vos.World([], max_preempt=0, t0=w.clock - 500)
            w2.root, w2.st = root, st
            a = w2.spawn(w2.proc("setup"), "setup", setup())
            w2.run()
            if a.exc is not None:
                raise a.exc
            st.ncompile = []
        if t in ("dep", "mydir"):
            with open(st.dep, "w") as f:
                f.write("dep v2")
            os.utime(st.dep, (w.clock - 10, w.clock - 10))
        if t == "old":
            # an old version which is unused for long, one in use, one broken from a crash long ago
            base = os.path.dirname(os.path.dirname(a.result))
            st.olddirs = {}
            for name, days_so, days_info, so, info in [
                ("unused", 70, 70, 1, 1), ("used", 70, 1, 1, 1), ("new", 1, 1, 1, 1), ("broken", 5, 5, 0, 0), ("broken2", 5, 5, 0, 1),
            ]:
                d = f"{base}/{name}"
                os.mkdir(d)
                for fn, days, there in [("mod.so", days_so, so), ("info.py", days_info, info), ("mod.cc", days_so, 1)]:
                    if there:
                        with open(f"{d}/{fn}", "w") as f:
                            f.write("{}\n")
                        tt = w.clock - days * 24 * 3600
                        os.utime(f"{d}/{fn}", (tt, tt))
                tt = w.clock - days_so * 24 * 3600
                os.utime(d, (tt, tt))
                st.olddirs[name] = d

        def body(i):
            def f():
                try:
                    fn = create(i)
                except Exception as exc:
                    from subprocess import CalledProcessError

                    if t == "fail" and isinstance(exc, CalledProcessError):
                        return "failed"
                    raise
                with open(fn, "rb") as f:
                    content = f.read()
                st.libs[i] = (fn, content)
                return True

            return f

        for i in range(case["n"]):
            w.spawn(w.proc(f"P{i}"), f"P{i}", body(i))

    return make


def _explore(case, ctx):
    from returnn.util.native_code_compiler import NativeCodeCompiler  # noqa

    def check(w):
        st = w.st
        tr = " ".join(f"{n}:{d if isinstance(d, str) else '/'.join(map(str, d))}" for n, d in w.trace)[-1500:]
        info = f"{case} schedule {w.choices}: trace {tr}"
        if w.run_error is not None:
            raise Violation(f"no progress: {w.run_error}; {info}")
        for i, a in enumerate(w.actors):
            if a.proc.dead:
                continue
            if a.exc is not None:
                raise Violation(f"{a.name} failed: {a.exc!r}; {info}")
            if a.result == "failed":
                expect(case["t"] == "fail" and st.ncompile[0] == a.name, lambda: f"{a.name} failed but its compiler did not; {info}")
                continue
            exp = _compiled(st.code[i], st)
            fn, content = st.libs[i]
            expect_eq(content, exp, f"{a.name} loads lib {fn}; {info}")
        if case["t"] in ("present",):
            expect_eq(st.ncompile, [], f"up-to-date lib was compiled again; {info}")
        if case["t"] == "old":
            there = {k: os.path.exists(d) for k, d in st.olddirs.items()}
            expect(there["new"] and there["used"], lambda: f"cleanup removed a recently used lib: {there}; {info}")
            expect(not there["unused"] and not there["broken"], lambda: f"cleanup did not remove old libs: {there}; {info}")
        # afterwards (after a crash): a new process
        for i in sorted(st.code):
            w2 = vos.World([], max_preempt=0, t0=w.clock + 1)
            w2.root, w2.st = w.root, st

            def later():
                fn = st.create(i)
                with open(fn, "rb") as f:
                    return f.read()

            n0 = len(st.ncompile)
            a2 = w2.spawn(w2.proc("later"), "later", later)
            try:
                w2.run()
            except Exception as exc:
                raise Violation(f"later process: {exc!r}; {info}")
            if a2.exc is not None:
                raise Violation(f"later process failed: {a2.exc!r}; {info}")
            expect_eq(a2.result, _compiled(st.code[i], st), f"lib of later process; {info}")
            if f"P{i}" in [a.name for a in w.actors if a.result is True] and case["t"] != "versions":
                expect_eq(len(st.ncompile), n0, f"compiled again by a later process; {info}")

    def stats(w):
        ctx.trans(len(w.trace))
        ctx.trace()
        ctx.state((case["t"], case["n"], tuple(w.trace)))
        ctx.outcome((case["t"], tuple(w.st.ncompile), tuple(w.crashed)))
        ctx.count("schedules")
        if w.crashed:
            ctx.count("crash_executions")

    vos.explore(
        _make(case), check, max_preempt=case["p"], max_crash=case["c"], crashable=["P0"] if case["c"] else (),
        stats=stats, part=case["part"], parts=case["parts"], max_steps=3000,
    )


def run_case(case, ctx):
    _explore(case, ctx)


def check_vacuity(total):
    if total.extra.get("schedules", 0) < 500 or len(total.outcomes) < 10:
        return f"too few schedules/outcomes: {total.extra} {len(total.outcomes)}"


if __name__ == "__main__":
    harness.main(__name__)
