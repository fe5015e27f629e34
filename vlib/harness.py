"""
Common driver for all checks.

A check module defines
  PID, LEVEL, TITLE, RULE, ASSUMPTIONS
  gen_cases(tier) -> iterable of JSON-able cases     (the bounded space; always enumerated completely)
  run_case(case, ctx) -> None                        (explores one case on the real code; raises Violation)
and calls harness.main(__name__ module).

``ctx`` collects what was measured: ctx.trans(n), ctx.state(canon), ctx.trace(n), ctx.outcome(x), ctx.sample(x).
"""

from __future__ import annotations
import os, sys, json, time, pickle, signal, traceback, tempfile, shutil, hashlib, itertools, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


class Violation(Exception):
    """The property is violated in this case. ``key`` identifies the specific failing input/history."""

    def __init__(self, msg, key=None, detail=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key
        self.detail = detail


class HarnessError(Exception):
    """A defect of the check, not of the code."""


class CaseTimeout(BaseException):
    """case did not terminate"""


def expect(cond, msg, key=None):
    if not cond:
        raise Violation(msg if isinstance(msg, str) else msg(), key=key)


def expect_eq(a, b, msg, key=None):
    if a != b:
        raise Violation(f"{msg}: got {a!r}, expected {b!r}"[:3000], key=key)


def _h(x) -> bytes:
    if not isinstance(x, bytes):
        x = repr(x).encode("utf8")
    return hashlib.blake2b(x, digest_size=10).digest()


class Ctx:
    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.extra = {}
        self.samples = []

    def state(self, canon):
        self.states.add(_h(canon))

    def outcome(self, x):
        self.outcomes.add(_h(x))

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, x, limit=2):
        if len(self.samples) < limit:
            self.samples.append(x)

    def merge(self, o: "Ctx"):
        self.states |= o.states
        self.outcomes |= o.outcomes
        self.transitions += o.transitions
        self.traces += o.traces
        self.evaluations += o.evaluations
        for k, v in o.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v
        self.samples += o.samples


def _from_repo(tb) -> bool:
    """whether the innermost frames of the exception belong to /repo or were called from it"""
    frames = traceback.extract_tb(tb)
    return any(f.filename.startswith(REPO + "/") for f in frames)


_case_timeout = 120


def _alarm(*_):
    raise CaseTimeout()


def _run_one(mod, case, ctx):
    """:return: None or violation dict"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, getattr(mod, "CASE_TIMEOUT", _case_timeout))
    try:
        mod.run_case(case, ctx)
        return None
    except Violation as exc:
        return {"msg": exc.msg, "key": exc.key, "detail": exc.detail, "case": case}
    except HarnessError:
        raise
    except CaseTimeout:
        return {
            "msg": "case did not terminate: " + "".join(traceback.format_exc())[-2500:],
            "key": "hang",
            "case": case,
        }
    except Exception as exc:
        if _from_repo(exc.__traceback__):
            return {
                "msg": "unexpected exception from the code: " + "".join(traceback.format_exc())[-2500:],
                "key": "exception:" + type(exc).__name__,
                "case": case,
            }
        if isinstance(exc, (ArithmeticError, AssertionError, LookupError, TypeError, ValueError, StopIteration)):
            # The output of the code does not even have the form which the oracle needs.
            return {
                "msg": "malformed result of the code: " + "".join(traceback.format_exc())[-2500:],
                "key": "malformed:" + type(exc).__name__,
                "case": case,
            }
        raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


MAX_VIOL_PER_PROC = int(os.environ.get("VERIF_MAXVIOL", "3"))


def _child(mod, cases, out_path, scratch):
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    if "torch" in sys.modules:
        sys.modules["torch"].set_num_threads(1)
    res = {"viol": [], "error": None, "done": 0, "known": {}}
    known = load_known(mod.PID)
    ctx = Ctx()
    try:
        if hasattr(mod, "worker_init"):
            mod.worker_init()
        for case in cases:
            v = _run_one(mod, case, ctx)
            ctx.evaluations += 1
            res["done"] += 1
            if v and v["key"] is not None and any(e["key"] == v["key"] for e in known):
                res["known"][v["key"]] = res["known"].get(v["key"], 0) + 1
            elif v:
                res["viol"].append(v)
                if len(res["viol"]) >= MAX_VIOL_PER_PROC or v.get("key") == "hang":
                    break
    except BaseException:
        res["error"] = traceback.format_exc()
    res["ctx"] = ctx
    with open(out_path + ".tmp", "wb") as f:
        pickle.dump(res, f)
    os.rename(out_path + ".tmp", out_path)


def load_known(pid):
    fn = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(fn):
        return []
    return [e for e in json.load(open(fn))["findings"] if e["property"] == pid and e["status"] == "open"]


def main(mod):
    if isinstance(mod, str):
        mod = sys.modules[mod]
    pid = mod.PID
    args = sys.argv[1:]
    sys.stdout.reconfigure(line_buffering=True)
    fast = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 1 << 30 else None
    base = tempfile.mkdtemp(prefix=f"verif-{pid}-", dir=fast)
    os.environ["HOME"] = base
    os.environ["TMPDIR"] = base
    os.environ["RETURNN_CACHE_DIR"] = base + "/returnn-cache"
    tempfile.tempdir = base
    rc = 2
    main_pid = os.getpid()
    try:
        rc = _main(mod, pid, args, base)
    except SystemExit as exc:
        rc = exc.code
    except BaseException:
        traceback.print_exc()
        rc = 2
    finally:
        if os.getpid() == main_pid:
            shutil.rmtree(base, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc if isinstance(rc, int) else 2)


def _main(mod, pid, args, base):
    t0 = time.time()
    if args and args[0] == "--replay":
        rep = json.load(open(args[1]))
        if hasattr(mod, "parent_init"):
            mod.parent_init()
        if hasattr(mod, "worker_init"):
            mod.worker_init()
        v = _run_one(mod, rep["case"], Ctx())
        if v:
            print("reproduced:", v["msg"])
            print(f"VIOLATION property={pid} replay={args[1]}")
            return 1
        print("not reproduced")
        return 0
    if hasattr(mod, "parent_init"):
        mod.parent_init()
    if "vlib.ds" in sys.modules:
        try:  # compile once, before the fork
            from returnn.util.literal_py_to_pickle import literal_eval

            literal_eval("[1]")
        except Exception:
            pass  # reported by the cases which need it
    cases = list(mod.gen_cases(TIER))
    if not cases:
        raise HarnessError("no cases")
    nproc = min(getattr(mod, "NPROC", 8), len(cases))
    if os.environ.get("VERIF_NPROC"):
        nproc = int(os.environ["VERIF_NPROC"])
    # interleave, deterministic shuffle for load balancing
    order = list(range(len(cases)))
    random.Random(12345).shuffle(order)
    parts = [[cases[j] for j in order[i::nproc]] for i in range(nproc)]
    pids = {}
    for i, part in enumerate(parts):
        sys.stdout.flush()
        sys.stderr.flush()
        out = os.path.join(base, f"out-{i}.pkl")
        scratch = os.path.join(base, f"w{i}")
        os.mkdir(scratch)
        p = os.fork()
        if p == 0:
            try:
                os.setpgid(0, 0)
                logf = os.open(os.path.join(base, f"log-{i}.txt"), os.O_WRONLY | os.O_CREAT, 0o600)
                if not os.environ.get("VERIF_VERBOSE"):
                    os.dup2(logf, 1)
                    os.dup2(logf, 2)
                _child(mod, part, out, scratch)
            finally:
                os._exit(0)
        pids[p] = (i, out)
    deadline = t0 + getattr(mod, "DEADLINE", {"quick": 840, "thorough": 6 * 3600})[TIER]
    total = Ctx()
    viols, errors = [], []
    known = load_known(pid)
    seen_known = {}
    left = dict(pids)
    while left:
        p, st = os.waitpid(-1, os.WNOHANG)
        if p in left:
            i, out = left.pop(p)
            try:
                os.killpg(p, signal.SIGKILL)  # leftovers of that worker
            except OSError:
                pass
            if os.path.exists(out):
                res = pickle.load(open(out, "rb"))
                total.merge(res["ctx"])
                viols += res["viol"]
                for k in res["known"]:
                    seen_known.setdefault(k, [e for e in known if e["key"] == k][0])
                if res["error"]:
                    errors.append(res["error"])
            else:
                log = open(os.path.join(base, f"log-{i}.txt"), errors="replace").read()[-3000:]
                errors.append(f"worker {i} died, status {st}\n{log}")
            continue
        if time.time() > deadline:
            for q in left:
                try:
                    os.killpg(q, signal.SIGKILL)
                except OSError:
                    pass
            errors.append("deadline reached")
            break
        if p == 0:
            time.sleep(0.02)
    real = viols
    for e in seen_known.values():
        print(f"KNOWN-FINDING: property={pid} {e['what']}")
    vacuous = None
    if not real and not errors and hasattr(mod, "check_vacuity"):
        vacuous = mod.check_vacuity(total)
    wall = time.time() - t0
    cov = {
        "evaluations": total.evaluations,
        "states": len(total.states),
        "transitions": total.transitions,
        "traces_validated_against_impl": total.traces,
        "distinct_nontrivial": len(total.outcomes),
        "rule": mod.RULE,
        "exhaustive": not errors and not real,
        "samples": (total.samples or [cases[0]])[:6],
        "bounds": getattr(mod, "BOUNDS", {}).get(TIER, "") if isinstance(getattr(mod, "BOUNDS", {}), dict) else mod.BOUNDS,
    }
    cov.update(total.extra)
    ev = {
        "property": pid,
        "tier": TIER,
        "seed": SEED,
        "level": mod.LEVEL,
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(real),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(
        f"{pid} tier={TIER} cases={total.evaluations}/{len(cases)} states={len(total.states)}"
        f" transitions={total.transitions} traces={total.traces} outcomes={len(total.outcomes)}"
        f" {total.extra} wall={wall:.1f}s"
    )
    if real:
        real.sort(key=lambda v: len(json.dumps(v["case"], default=str)))
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, f"{pid}.json")
        with open(fn, "w") as f:
            json.dump(real[0], f, indent=1, default=str)
        for v in real[: int(os.environ.get("VERIF_SHOWVIOL", "5"))]:
            print("---", json.dumps(v["case"], default=str)[:1500])
            print(v["msg"][:3000])
        print(f"VIOLATION property={pid} replay={fn}")
        return 1
    if errors:
        print("CHECK ERROR:", *errors, sep="\n")
        return 2
    if vacuous:
        print("CHECK ERROR: vacuous exploration:", vacuous)
        return 2
    print(f"OK property={pid}")
    return 0
