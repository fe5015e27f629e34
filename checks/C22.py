"""C22: cleanup_old_models keeps exactly the checkpoints which the options ask for; never the ones needed for resume or the best ones."""
import os, shutil, itertools, math
from vlib import harness
from vlib.harness import Violation, expect, expect_eq

PID = "C22"
LEVEL = "model_checking"
RULE = (
    "case = (number of epochs, existing checkpoints, keep options, second score key); run_case enumerates all score tables; each is executed on the real"
    " EngineBase.cleanup_old_models + torch Engine.delete_model on real (dummy) files; oracle = independent retention rule; state = (options, scores, survivors)"
)
BOUNDS = {
    "quick": "<=6 epochs, score tables over {1,2,3,missing,nan,inf} for the main key and 3 patterns for a second key, keep_last_n 1..3, keep_best_n 0..3, keep lists, default keep pattern for up to 260 epochs, cleanup after every epoch of a history",
    "thorough": "score values {1,2,3,4,missing,nan,inf}, 7 epochs",
}
ASSUMPTIONS = []
NAN, INF = float("nan"), float("inf")


def gen_cases(tier):
    nmax = 6 if tier == "quick" else 7
    for n in range(1, nmax + 1):
        for opts in [
            dict(keep_last_n=1, keep_best_n=1, keep=[]),
            dict(keep_last_n=1, keep_best_n=2, keep=[2]),
            dict(keep_last_n=2, keep_best_n=1, keep=[]),
            dict(keep_last_n=3, keep_best_n=0, keep=[1, 99]),
            dict(keep_last_n=1, keep_best_n=0, keep=[]),
            dict(keep_last_n=2, keep_best_n=3, keep=[]),
            dict(keep_last_n=1, keep_best_n=1),
            dict(),
        ]:
            for second in ["none", "rev", "part"]:
                for first in range(6):
                    if n < 2 and first:
                        continue
                    yield dict(t="table", n=n, opts=opts, second=second, first=first)
    for opts in [dict(keep_last_n=1, keep_best_n=1, keep=[]), dict(keep_last_n=2, keep_best_n=2, keep=[3]), dict()]:
        for interval in (1, 2):
            yield dict(t="history", opts=opts, n=5 if tier == "quick" else 6, interval=interval)
    for lo in range(1, 261, 20):
        yield dict(t="default", lo=lo)
    yield dict(t="misc")


def worker_init():
    from returnn.log import log

    log.initialize(verbosity=[0])
    from returnn.util.basic import BackendEngine, BehaviorVersion

    BackendEngine.select_engine(engine=BackendEngine.Torch)
    BehaviorVersion.set_min_behavior_version(0)
    import returnn.torch.engine  # noqa


def _engine(opts, scores, *, lr_in_memory=True, n=None, extra=None):
    from returnn.config import Config
    from returnn.engine.base import EngineBase
    from returnn.torch.engine import Engine
    from returnn.learning_rate_control import load_learning_rate_control_from_config

    class E(EngineBase):
        delete_model = staticmethod(Engine.delete_model)

    d = os.environ["TMPDIR"] + "/m"
    cfg = dict(model=d + "/net-model/network", num_epochs=n, learning_rate=1.0, learning_rate_file=d + "/lr.txt")
    cfg["cleanup_old_models"] = dict(opts) if opts else True
    cfg.update(extra or {})
    config = Config(cfg)
    e = E(config)
    lrc = load_learning_rate_control_from_config(config)
    for ep, err in scores.items():
        lrc.get_learning_rate_for_epoch(ep)
        lrc.set_epoch_error(ep, err)
    if lr_in_memory:
        e.learning_rate_control = lrc
    else:
        lrc.save()
    return e


def _fresh():
    d = os.environ["TMPDIR"] + "/m"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/net-model")
    return d + "/net-model"


def _put(d, ep, opt=True):
    for post in [".pt"] + ([".opt.pt"] if opt else []):
        with open(f"{d}/network.{ep:03d}{post}", "w") as f:
            f.write(f"{ep}")


def _ls(d):
    return {int(f.split(".")[1]) for f in os.listdir(d) if f.endswith(".pt") and not f.endswith(".opt.pt")}


def _ls_opt(d):
    return {int(f.split(".")[1]) for f in os.listdir(d) if f.endswith(".opt.pt")}


def _default_keep(last):
    if last <= 10:
        every, dbl = 4, 5
    elif last <= 50:
        every, dbl = 20, 5
    elif last <= 100:
        every, dbl = 40, 10
    else:
        p = 1
        while p < 1 + last // 240:
            p *= 2
        every, dbl = 80 * p, 20
    out = set(range(every, last + 1, every))
    while dbl <= last:
        out.add(dbl)
        dbl *= 2
    return out


def _bad(x):
    return x is None or math.isnan(x)


def _ref(epochs, opts, scores):
    """:return: (must keep, may keep)  (ties and non-finite scores leave some freedom)"""
    last_n, best_n = opts.get("keep_last_n", 2), opts.get("keep_best_n", 4)
    epochs = sorted(epochs)
    if max(last_n, best_n) >= len(epochs):
        return set(epochs), set(epochs)
    must = set(epochs[-last_n:]) | (set(opts["keep"]) if "keep" in opts else _default_keep(epochs[-1]))
    may = set(must)
    keys = {k for e in epochs for k in scores[e]}
    for k in keys:
        vals = {e: scores[e].get(k) for e in epochs}
        good = {e: v for e, v in vals.items() if not _bad(v)}
        if len(set(good.values())) <= 1 and all(v is not None for v in vals.values()) and not any(_bad(v) for v in vals.values()):
            continue  # all the same, no information
        # those which are strictly among the best N
        for e in epochs:
            if e in good:
                better = [e2 for e2 in good if good[e2] < good[e] or (good[e2] == good[e] and e2 != e)]
                if good[e] in (max(good.values()), INF):  # same as those without score
                    better = better + [e2 for e2 in epochs if e2 not in good]
                better_strict = [e2 for e2 in good if good[e2] < good[e]]
                if len(better) < best_n:
                    must.add(e)
                if len(better_strict) < best_n:
                    may.add(e)
            else:
                # no (usable) score: the worst. only kept if there are not enough others
                worst = max(good.values()) if good else None
                if len([e2 for e2 in good if good[e2] < worst]) < best_n if good else True:
                    may.add(e)
        if len(set(good.values())) <= 1:
            # freedom: the code might ignore this key or not
            may |= set(epochs) if best_n else set()
            must -= {e for e in epochs if e not in set(epochs[-last_n:]) and e not in (set(opts["keep"]) if "keep" in opts else _default_keep(epochs[-1])) and not any(_strict_best(e, k2, epochs, scores, best_n) for k2 in keys - {k})}
    return must & set(epochs), may & set(epochs)


def _strict_best(e, k, epochs, scores, best_n):
    vals = {x: scores[x].get(k) for x in epochs}
    good = {x: v for x, v in vals.items() if not _bad(v)}
    if len(set(good.values())) <= 1 or e not in good:
        return False
    if good[e] in (max(good.values()), INF):
        return False
    return len([x for x in good if x != e and good[x] <= good[e]]) < best_n


def _check(d, epochs, opts, scores, info, before_opt):
    got = _ls(d)
    must, may = _ref(epochs, opts, scores)
    expect(got <= set(epochs), lambda: f"{info}: new files {got - set(epochs)}")
    expect(must <= got, lambda: f"{info}: models of epochs {sorted(must - got)} deleted (remaining {sorted(got)}), must be kept; scores {scores}")
    expect(got <= may, lambda: f"{info}: models of epochs {sorted(got - may)} not deleted (remaining {sorted(got)}); scores {scores}")
    expect_eq(_ls_opt(d), before_opt & got, f"{info}: optimizer states")
    for ep in got:
        expect_eq(open(f"{d}/network.{ep:03d}.pt").read(), f"{ep}", f"{info}: content")
    return got


VALS = [1.0, 2.0, 3.0, None, NAN, INF]


def _case_table(case, ctx):
    n, opts = case["n"], case["opts"]
    vals = VALS if n <= 4 else [1.0, 2.0, 3.0, NAN] if n == 5 else [1.0, 2.0, 3.0]
    if case["first"] >= len(vals):
        return
    for i, rest in enumerate(itertools.product(vals, repeat=n - 1)):
        table = [vals[case["first"]]] + list(rest)
        scores = {}
        for ep in range(1, n + 1):
            s = {}
            if table[ep - 1] is not None:
                s["dev_score"] = table[ep - 1]
            if case["second"] == "rev":
                s["dev_error"] = -(table[ep - 1] or 0.5) if not _bad(table[ep - 1]) and table[ep - 1] != INF else 0.0
            elif case["second"] == "part" and ep % 2:
                s["dev_error"] = 5.0 - ep
            if not s:
                s["train_score"] = 1.0
            scores[ep] = s
        subsets = [range(1, n + 1)]
        if i % 3 == 0 and n > 2:
            subsets.append([e for e in range(1, n + 1) if e != 1 + i % n])
        for epochs in subsets:
            d = _fresh()
            opt = set()
            for ep in epochs:
                _put(d, ep, opt=ep > n - 2)
                if ep > n - 2:
                    opt.add(ep)
            e = _engine(opts, scores, lr_in_memory=bool(i % 2), n=n)
            e.cleanup_old_models()
            got = _check(d, epochs, opts, scores, f"cleanup_old_models {opts} with models {list(epochs)}", opt)
            ctx.trans()
            ctx.trace()
            ctx.state((opts.get("keep_last_n"), opts.get("keep_best_n"), str(opts.get("keep")), list(epochs), repr(scores)))
            ctx.outcome((n, sorted(got)))
            # again: nothing more to delete that must stay
            if i % 5 == 0:
                e = _engine(opts, {k: v for k, v in scores.items()}, lr_in_memory=True, n=n)
                e.cleanup_old_models()
                _check(d, sorted(got), opts, scores, f"second cleanup_old_models {opts} with models {sorted(got)}", _ls_opt(d) | opt & got)


def _case_history(case, ctx):
    """cleanup after each epoch: the overall best and the last always survive"""
    n, opts, iv = case["n"], case["opts"], case["interval"]
    for table in itertools.product([1.0, 2.0, 3.0, 4.0], repeat=n):
        d = _fresh()
        exist = set()
        for ep in range(1, n + 1):
            if ep % iv == 0 or ep == n:
                _put(d, ep)
                exist.add(ep)
            scores = {i + 1: {"dev_score": table[i]} for i in range(ep)}
            e = _engine(opts, scores, n=n)
            opt = _ls_opt(d)
            e.cleanup_old_models()
            got = _check(d, sorted(exist), opts, scores, f"cleanup_old_models {opts} after epoch {ep}, models {sorted(exist)}", opt)
            exist = got
            ctx.trans()
            if exist:
                expect(max(exist) == (ep // iv * iv if ep != n else n), f"last model {ep} not there")
        best = min(range(1, n + 1), key=lambda e_: (table[e_ - 1] if e_ % iv == 0 or e_ == n else 99, 0))
        if opts.get("keep_best_n", 4) and len([e_ for e_ in range(1, n + 1) if table[e_ - 1] == table[best - 1]]) == 1:
            expect(best in exist, f"{opts}: scores {table}: best model {best} lost, have {exist}")
        ctx.trace()
        ctx.state(("hist", str(opts), iv, table))


def _case_default(case, ctx):
    """default keep pattern"""
    for last in range(case["lo"], case["lo"] + 20):
        d = _fresh()
        scores = {}
        for ep in range(1, last + 1):
            _put(d, ep)
            scores[ep] = {"dev_score": 100.0 - ep}
        opts = dict(keep_last_n=2, keep_best_n=1) if last % 2 else {}
        e = _engine(opts, scores, n=last)
        e.cleanup_old_models()
        got = _check(d, list(range(1, last + 1)), opts, scores, f"default keep pattern, {last} epochs", set(range(1, last + 1)))
        ctx.trans()
        ctx.trace()
        ctx.state(("default", last))
        ctx.outcome(("default", sorted(got)))


def _case_misc(case, ctx):
    # dry run deletes nothing
    scores = {i: {"dev_score": float(i)} for i in range(1, 7)}
    d = _fresh()
    for ep in range(1, 7):
        _put(d, ep)
    e = _engine(dict(keep_last_n=1, keep_best_n=1, keep=[]), scores, n=6, extra={"dry_run": True})
    e.cleanup_old_models()
    expect_eq(_ls(d), set(range(1, 7)), "dry_run")
    # other files are never touched
    d = _fresh()
    for ep in range(1, 7):
        _put(d, ep)
    others = ["network.001.pt.bak", "network.pt", "network.1000.pt", "other.001.pt", "network.001.index", "network.007.pt"]
    for o in others:
        open(d + "/" + o, "w").write(o)
    e = _engine(dict(keep_last_n=1, keep_best_n=1, keep=[]), scores, n=6)
    e.cleanup_old_models()
    expect_eq({f for f in os.listdir(d) if f in others}, set(others), "other files")
    expect_eq({f for f in os.listdir(d) if f not in others}, {f"network.{e:03d}{p}" for e in (1, 6) for p in (".pt", ".opt.pt")}, "models")
    ctx.trans(2)
    ctx.trace(2)


def run_case(case, ctx):
    globals()["_case_" + case["t"]](case, ctx)


def check_vacuity(total):
    if len(total.outcomes) < 50:
        return f"too few outcomes {len(total.outcomes)}"


if __name__ == "__main__":
    harness.main(__name__)
