"""C13: LockFile: mutual exclusion between processes, progress, and recovery from crashed holders, for all schedules and crash points."""
import os, shutil, itertools
from vlib import harness, vos
from vlib.harness import Violation, expect, expect_eq

PID = "C13"
LEVEL = "model_checking"
RULE = (
    "case = (scenario, number of processes, deviation bound, crash bound, subtree); every schedule/crash point within the bounds is"
    " one execution of the real LockFile code on real files under the controlled scheduler; state = step trace; outcome = order of critical sections"
)
BOUNDS = {
    "quick": "2 procs x 2 rounds with <=3 deviations, 3 procs x 1 round with <=2 deviations, every crash point of any holder/waiter with <=1 deviation, stale lock file with <=2 waiters (<=3 deviations) and 3 waiters (<=1 deviation; 2 deviations: known finding)",
    "thorough": "one more deviation everywhere",
}
ASSUMPTIONS = [
    "processes are not suspended longer than the lock timeout while holding the lock (the contract of the timeout)",
    "virtual clock: time passes only while all processes wait",
    "O_EXCL file creation is atomic",
]
TIMEOUT = 20


def gen_cases(tier):
    x = 0 if tier == "quick" else 1
    scen = [
        dict(t="mutex", n=2, rounds=2, p=3 + x, c=0),
        dict(t="mutex", n=3, rounds=1, p=2 + x, c=0),
        dict(t="mutex", n=2, rounds=2, p=2 + x, c=0, nodir=True),
        dict(t="mutex", n=2, rounds=1, p=1 + x, c=1),
        dict(t="mutex", n=3, rounds=1, p=1, c=1),
        dict(t="mutex", n=1, rounds=2, p=0, c=0, stale=True),
        dict(t="mutex", n=2, rounds=1, p=3 + x, c=0, stale=True),
        dict(t="mutex", n=3, rounds=1, p=1, c=0, stale=True),
        dict(t="mutex", n=3, rounds=1, p=2, c=0, stale=True),
        dict(t="mutex", n=2, rounds=1, p=2, c=0, fresh=True),
        dict(t="query", p=2),
    ]
    for s in scen:
        parts = 8 if s.get("n", 2) * s["p"] >= 3 else 1
        for part in range(parts):
            yield dict(s, part=part, parts=parts)


class _St:
    pass


def _make(case):
    def make(w):
        from returnn.util.basic import LockFile

        root = os.environ["TMPDIR"] + "/lk"
        shutil.rmtree(root, ignore_errors=True)
        os.mkdir(root)
        w.root = root
        st = w.st = _St()
        st.holders = {}
        st.log = []
        st.viol = None
        d = root + "/sub/dir"
        if not case.get("nodir"):
            os.makedirs(d)
        st.lf = d + "/the.lock"
        if case.get("stale") or case.get("fresh"):
            os.close(os.open(st.lf, os.O_CREAT | os.O_RDWR))
            t = w.clock - (TIMEOUT + 5 if case.get("stale") else 3)
            os.utime(st.lf, (t, t))
        st.t0 = w.clock

        def body(name, proc):
            def f():
                for r in range(case["rounds"]):
                    with LockFile(d, "the.lock", lock_timeout=TIMEOUT) as lock:
                        others = [n for n, p in st.holders.items() if not p.dead]
                        if others and st.viol is None:
                            st.viol = (f"{name} got the lock while {others} hold it", w.clock)
                        st.holders[name] = proc
                        st.log.append((name, w.clock))
                        expect(lock.is_locked(), "lock holder sees is_locked() == False")
                        os.stat(d)  # scheduling points in the critical section
                        os.stat(d)
                        st.holders.pop(name, None)
                return True

            return f

        for i in range(case["n"]):
            p = w.proc(f"P{i}")
            w.spawn(p, f"P{i}", body(f"P{i}", p))

    return make


def _case_mutex(case, ctx):
    known = []

    def check(w):
        if case.get("stale") and case["n"] >= 3 and _removed_live_lock(w):
            # known finding, see known_findings.json: only accepted for exactly this history
            known.append(w.choices)
            return
        st = w.st
        tr = " ".join(f"{n}:{d if isinstance(d, str) else '/'.join(map(str, d))}" for n, d in w.trace)[-1500:]
        info = f"{ {k: v for k, v in case.items()} } schedule {w.choices}: trace {tr}"
        if st.viol:
            raise Violation(f"mutual exclusion violated: {st.viol[0]}; {info}")
        if w.run_error is not None:
            raise Violation(f"no progress: {w.run_error}; {info}")
        for a in w.actors:
            if a.proc.dead:
                continue
            if a.exc is not None:
                if isinstance(a.exc, Violation):
                    raise Violation(f"{a.exc.msg}; {info}")
                raise Violation(f"{a.name} failed: {a.exc!r}; {info}")
            expect(a.result is True, lambda: f"{a.name} did not finish; {info}")
        alive = [a for a in w.actors if not a.proc.dead]
        rounds = {}
        for n, _ in st.log:
            rounds[n] = rounds.get(n, 0) + 1
        for a in alive:
            expect_eq(rounds.get(a.name, 0), case["rounds"], f"rounds of {a.name}; {info}")
        if case.get("fresh"):
            # a lock which is not old must be respected until it is
            expect(min(t for _, t in st.log) >= st.t0 + TIMEOUT - 3, lambda: f"fresh lock of another process was broken after {min(t for _, t in st.log) - st.t0}s; {info}")
        limit = TIMEOUT * (1 + len(w.crashed)) + 10 + 3 * case["n"] * case["rounds"]
        expect(w.clock - st.t0 <= limit, lambda: f"needed {w.clock - st.t0}s, more than {limit}s; {info}")
        if not w.crashed:
            expect(not os.path.exists(st.lf), lambda: f"lock file left over; {info}")

    def stats(w):
        ctx.trans(len(w.trace))
        ctx.trace()
        ctx.state((case["t"], case["n"], tuple(w.trace)))
        ctx.outcome((tuple(n for n, _ in w.st.log), tuple(w.crashed)))
        ctx.count("schedules")
        if w.crashed:
            ctx.count("crash_executions")

    vos.explore(
        _make(case), check, max_preempt=case["p"], max_crash=case["c"], crashable=["P%i" % i for i in range(case["n"])] if case["c"] else (),
        stats=stats, part=case["part"], parts=case["parts"], max_steps=3000,
    )
    if known:
        raise Violation(
            f"a waiter which saw the old lock file removes the new lock file of another process: schedules {known[:2]}",
            key="stale-lock-toctou",
        )


def _removed_live_lock(w):
    """whether in this trace, a waiter (which found an old lock before) removed the lock file which was created by another proc in between"""
    holder = None
    for n, d in w.trace:
        if isinstance(d, tuple) and d[0] == "open" and d[-1] == "the.lock":
            holder = n if holder is None else holder
        if isinstance(d, tuple) and d[0] in ("remove", "unlink") and d[-1] == "the.lock":
            if holder is not None and holder != n:
                return True
            holder = None
    return False


def _case_query(case, ctx):
    """is_locked / is_old_lockfile for all ages"""
    from returnn.util.basic import LockFile

    for age in [None, 0, 1, TIMEOUT - 1, TIMEOUT + 1, 10 * TIMEOUT, -1, -TIMEOUT - 1]:
        res = {}

        def make(w):
            root = os.environ["TMPDIR"] + "/lk"
            shutil.rmtree(root, ignore_errors=True)
            os.mkdir(root)
            w.root = root
            if age is not None:
                os.close(os.open(root + "/l", os.O_CREAT | os.O_RDWR))
                os.utime(root + "/l", (w.clock - age, w.clock - age))

            def f():
                lk = LockFile(root, "l", lock_timeout=TIMEOUT)
                res["locked"] = lk.is_locked()
                res["old"] = lk.is_old_lockfile()
                lk.maybe_remove_old_lockfile()
                res["exists"] = os.path.exists(root + "/l")
                return True

            w.spawn(w.proc("P0"), "P0", f)

        def check(w):
            expect(w.actors[0].exc is None, f"age {age}: {w.actors[0].exc!r}")
            old = age is not None and abs(age) > TIMEOUT
            expect_eq(res, {"locked": age is not None and not old, "old": old, "exists": age is not None and not old}, f"lock file of age {age}")
            ctx.trace()
            ctx.trans(len(w.trace))

        vos.explore(make, check, max_preempt=0)
        ctx.state(("query", age))


def run_case(case, ctx):
    globals()["_case_" + case["t"]](case, ctx)


def check_vacuity(total):
    if total.extra.get("schedules", 0) < 1000 or len(total.outcomes) < 20:
        return f"too few schedules/outcomes: {total.extra} {len(total.outcomes)}"


if __name__ == "__main__":
    harness.main(__name__)
