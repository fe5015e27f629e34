"""C20: learning rate control: policy semantics for all score histories, file roundtrip, restart at any epoch / crash in save."""
import os, shutil, itertools, math
from vlib import harness, vos
from vlib.harness import Violation, expect, expect_eq

PID = "C20"
LEVEL = "model_checking"
RULE = (
    "case = (policy config, first score, restart mode); run_case enumerates all score histories of the depth bound; each history is executed on the real controller epoch by epoch"
    " with and without restarts from the file; oracle = independent reference of the documented policy; state = (config, scores, lrs)"
)
BOUNDS = {
    "quick": "score histories of length 4 over {0.5, 0.9, 0.995, 1, missing} and length 5 over {0.5, 1, missing} for the multi-epoch options; ~60 policy configs; restart before every epoch / never / at each single epoch; every crash point of save",
    "thorough": "one epoch more",
}
ASSUMPTIONS = ["a crashed process loses unflushed buffers; rename is atomic"]

SC = [0.5, 0.9, 0.995, 1.0, None]


def _configs():
    out = []
    base = dict(learning_rate=0.01)
    out.append(dict(base, learning_rate_control="constant"))
    out.append(dict(base, learning_rate_control="constant", learning_rates=[0.1, 0.2, 0.3]))
    out.append(dict(base, learning_rate_control="constant", learning_rates={2: 0.5, 4: 0.25}))
    for pol in ("newbob_rel", "newbob_abs", "newbob"):
        for opts in [
            {},
            dict(newbob_learning_rate_decay=0.5, newbob_learning_rate_growth=1.25),
            dict(min_learning_rate=0.004),
            dict(learning_rate_decay=0.25, min_learning_rate=0.003, learning_rate_growth=1.5),
            dict(learning_rates=[0.1, 0.2]),
            dict(learning_rates={3: 0.7}),
            dict(learning_rate_control_min_num_epochs_per_new_lr=2),
            dict(learning_rate_control_min_num_epochs_per_new_lr=3),
            dict(thr=0.0),
            dict(thr=-0.2),
        ]:
            out.append(dict(base, learning_rate_control=pol, **opts))
        if pol == "newbob_rel":
            out.append(dict(base, learning_rate_control=pol, newbob_relative_error_div_by_old=True, thr=-0.09))
            out.append(dict(base, learning_rate_control=pol, thr=-0.1))
            out.append(dict(base, learning_rate_control=pol, learning_rate_control_relative_error_relative_lr=True))
            out.append(dict(base, learning_rate_control=pol, learning_rate_decay="call"))
    for n, i in [(1, 1), (2, 1), (2, 2), (3, 2), (2, 3), (5, None)]:
        for opts in [{}, dict(newbob_relative_error_grow_threshold=-0.3, learning_rate_growth=2.0), dict(min_learning_rate=0.004), dict(learning_rates=[0.1, 0.2])]:
            c = dict(base, learning_rate_control="newbob_multi_epoch", newbob_multi_num_epochs=n, **opts)
            if i is not None:
                c["newbob_multi_update_interval"] = i
            out.append(c)
    return out


def _decay_call(lr):
    return lr * 0.5 - 0.0001


def gen_cases(tier):
    n = 4 if tier == "quick" else 5
    for ci, c in enumerate(_configs()):
        for first in range(len(SC)):
            yield dict(t="hist", cfg=c, first=first, n=n, sc=SC)
        if "newbob_multi_num_epochs" in c or "learning_rate_control_min_num_epochs_per_new_lr" in c:
            for first in (0, 1, 2):
                yield dict(t="hist", cfg=c, first=first, n=n + 1, sc=[0.5, 1.0, None])
    for key in ["plain", "dict1", "dict2", "measure", "measure_list", "train", "two", "switch"]:
        yield dict(t="keys", key=key)
    for m in [None, "dev_error", ["dev_foo", "dev_error"], "dev_bar", ["dev_error"]]:
        yield dict(t="subsets", measure=m)
    for first in range(len(SC)):
        yield dict(t="best", first=first, n=4 if tier == "quick" else 5)
    for p in range(4):
        yield dict(t="crash", k=p)
    yield dict(t="round")


def _mk(cfg, filename):
    from returnn.config import Config
    from returnn.learning_rate_control import load_learning_rate_control_from_config

    c = dict(cfg)
    thr = c.pop("thr", None)
    if thr is not None:
        c["newbob_error_threshold" if c["learning_rate_control"] == "newbob_abs" else "newbob_relative_error_threshold"] = thr
    if c.get("learning_rate_decay") == "call":
        c["learning_rate_decay"] = _decay_call
    if isinstance(c.get("learning_rates"), dict):
        c["learning_rates"] = {int(k): v for k, v in c["learning_rates"].items()}
    if filename:
        c["learning_rate_file"] = filename
    return load_learning_rate_control_from_config(Config(c))


def _ref(cfg, scores):
    """reference: list of lrs for epoch 1..len(scores)+1"""
    pol = cfg["learning_rate_control"]
    lr0 = cfg["learning_rate"]
    preset = cfg.get("learning_rates") or {}
    if isinstance(preset, list):
        preset = {i + 1: v for i, v in enumerate(preset)}
    preset = {int(k): v for k, v in preset.items()}
    decay = cfg.get("learning_rate_decay", cfg.get("newbob_learning_rate_decay", 0.5))
    growth = cfg.get("learning_rate_growth", cfg.get("newbob_learning_rate_growth", 1.0))
    minlr = cfg.get("min_learning_rate", 0.0)
    thr = cfg.get("thr", -0.01)
    minep = cfg.get("learning_rate_control_min_num_epochs_per_new_lr", 0)
    lrs = []

    def dec(lr):
        lr = _decay_call(lr) if decay == "call" else lr * decay
        return max(lr, minlr)

    def rel(a, b, e):
        """from epoch e-1 to e (0-based e index in scores)"""
        r = (b - a) / abs(a if cfg.get("newbob_relative_error_div_by_old") else b)
        if cfg.get("learning_rate_control_relative_error_relative_lr") and lrs[e] > 0:
            r /= lrs[e] / lr0
        return r

    for ep in range(1, len(scores) + 2):
        if ep in preset:
            lrs.append(preset[ep])
            continue
        if ep == 1:
            lrs.append(lr0)
            continue
        prev = lrs[-1]
        if minep > 1:
            last = lrs[-minep:]
            if len(set(last)) > 1 or len(last) < minep:
                lrs.append(prev)
                continue
        if pol == "constant":
            lrs.append(prev)
            continue
        if pol == "newbob_multi_epoch":
            n = cfg["newbob_multi_num_epochs"]
            iv = cfg.get("newbob_multi_update_interval", n)
            if iv > 1 and (ep - 1) % iv != 0:
                lrs.append(prev)
                continue
            first = max(0, ep - 1 - (n + 1))
            s = scores[first : ep - 1]
            if len(s) < 2 or any(x is None for x in s):
                lrs.append(prev)
                continue
            m = sum(rel(s[i], s[i + 1], first + i + 1) for i in range(len(s) - 1)) / (len(s) - 1)
            g = cfg.get("newbob_relative_error_grow_threshold", thr)
            if abs(m - thr) < 1e-12 or abs(m - g) < 1e-12:
                return None  # rounding
            if m > thr:
                lrs.append(dec(prev))
            elif m < g:
                lrs.append(prev * growth)
            else:
                lrs.append(prev)
            continue
        if ep < 3 or scores[ep - 2] is None or scores[ep - 3] is None:
            lrs.append(prev)
            continue
        a, b = scores[ep - 3], scores[ep - 2]
        d = b - a if pol == "newbob_abs" else rel(a, b, ep - 2)
        if abs(d - thr) < 1e-12 and d != thr:
            return None
        lrs.append(dec(prev) if d > thr else prev * growth)
    return lrs


def _run(cfg, scores, restarts, fn):
    """:param restarts: set of epochs before which the process is restarted"""
    if fn and os.path.exists(fn):
        os.remove(fn)
    c = _mk(cfg, fn)
    lrs = []
    for ep in range(1, len(scores) + 2):
        if ep in restarts:
            c = _mk(cfg, fn)
        lrs.append(c.get_learning_rate_for_epoch(ep))
        if ep <= len(scores):
            s = scores[ep - 1]
            c.set_epoch_error(ep, {"train_score": 3.0 + 0.1 * ep})
            c.save()
            if s is not None:
                c.set_epoch_error(ep, {"dev_score": s})
            else:
                c.epoch_data[ep].error.clear()
            c.save()
    return lrs, c


def _close(a, b):
    return len(a) == len(b) and all(math.isclose(x, y, rel_tol=1e-9, abs_tol=1e-15) for x, y in zip(a, b))


def _case_hist(case, ctx):
    cfg, n = case["cfg"], case["n"]
    fn = os.environ["TMPDIR"] + "/lr.txt"
    for i, rest in enumerate(itertools.product(case["sc"], repeat=n - 1)):
        scores = [case["sc"][case["first"]]] + list(rest)
        ref = _ref(cfg, scores)
        lrs, _ = _run(cfg, scores, (), None)
        ctx.trans(n)
        ctx.trace()
        ctx.state((sorted(cfg.items(), key=str), scores))
        ctx.outcome((cfg["learning_rate_control"], lrs))
        if ref is not None:
            expect(_close(lrs, ref), lambda: f"{cfg}: dev scores {scores}: learning rates {lrs}, expected {ref}")
        for r in [set(range(1, n + 2)), {2 + i % n}]:
            lrs2, _ = _run(cfg, scores, r, fn)
            expect(lrs == lrs2, lambda: f"{cfg}: dev scores {scores}: learning rates {lrs}, but with restart before epochs {r}: {lrs2}")


def _case_keys(case, ctx):
    """which score is used"""
    key = case["key"]
    cfg = dict(learning_rate=1.0, learning_rate_control="newbob_abs", thr=-0.01)
    if key == "measure":
        cfg["learning_rate_control_error_measure"] = "dev_error"
    if key == "measure_list":
        cfg["learning_rate_control_error_measure"] = ["dev_foo", "dev_error"]

    def err(ep, v, other):
        if key == "plain":
            return [{"train_score": other}, {"dev_score": v, "dev_error": other}]
        if key == "dict1":
            return [{"train_score": {"cost:output": other}}, {"dev_score": {"cost:output": v}, "dev_error": {"error:output": other}}]
        if key == "dict2":
            return [{"train_score": {"cost:output": other, "cost:aux": other}}, {"dev_score": {"cost:output": v, "cost:aux": other}, "dev_error": {"error:output": other, "error:aux": other}}]
        if key in ("measure", "measure_list"):
            return [{"train_score": other, "dev_score": other}, {"dev_error": v}]
        if key == "train":
            return [{"train_score": v, "zzz": other}]
        if key == "two":
            return [{"train_loss_ce": other, "train_loss_fer": other}, {"dev_loss_ce": v, "dev_loss_fer": other}]
        if key == "switch":  # other key in the second epoch: not comparable
            return [{"dev_score": v}] if ep == 1 else [{"dev_foo": v}]
        raise ValueError(key)

    fn = os.environ["TMPDIR"] + "/lr.txt"
    for vs in itertools.product([0.5, 0.9, 1.0], repeat=3):
        for others in itertools.product([0.4, 0.95, 1.1], repeat=2):
            if os.path.exists(fn):
                os.remove(fn)
            c = _mk(cfg, fn)
            lrs = []
            for ep in range(1, 4):
                if ep == 2:
                    c = _mk(cfg, fn)
                lrs.append(c.get_learning_rate_for_epoch(ep))
                for e in err(ep, vs[ep - 1], (others * 2)[ep - 1]):
                    c.set_epoch_error(ep, e)
                    c.save()
                expect_eq(c.get_epoch_error_value(ep), vs[ep - 1], f"get_epoch_error_value {key} {c.epoch_data[ep].error}")
            lrs.append(c.get_learning_rate_for_epoch(4))
            ref = [1.0, 1.0]
            for e in (1, 2):
                if key == "switch" and e == 1:
                    ref.append(ref[-1])
                else:
                    ref.append(ref[-1] * (0.5 if vs[e] - vs[e - 1] > -0.01 else 1.0))
            ctx.trans(4)
            ctx.trace()
            ctx.state((key, vs, others))
            expect(_close(lrs, ref), lambda: f"key kind {key}: relevant scores {vs}, others {others}: {lrs}, expected {ref}; {c.epoch_data}")


_KEYS = ["dev_error", "dev_error_output", "dev_foo", "dev_foo_output", "dev_score", "dev_score_output", "dev_score_output/aux", "dev_score_output/output", "dev_score_output/output_prob",
         "train_aaa", "train_score", "train_score_output"]


def _case_subsets(case, ctx):
    """the key which is used, over all subsets of reported scores"""
    from returnn.learning_rate_control import ConstantLearningRate

    measure = case["measure"]
    pref = []
    for m in measure if isinstance(measure, list) else [measure] if measure else []:
        pref += [[m], [m + "_output"]]
    pref += [["dev_score"], ["dev_score_output"], ["dev_score_output/output", "dev_score_output/output_prob"], ["dev_score_output/aux"],
             [k for k in _KEYS if k.startswith("dev_")], ["train_score"], ["train_score_output"], ["train_aaa"]]
    for bits in range(1, 1 << len(_KEYS)):
        keys = [k for i, k in enumerate(_KEYS) if bits >> i & 1]
        exp = next(k for grp in pref for k in sorted(grp) if k in keys)
        c = ConstantLearningRate(default_learning_rate=1.0, error_measure_key=measure)
        c.get_learning_rate_for_epoch(1)
        for k in reversed(keys):
            c.set_epoch_error(1, {k: float(_KEYS.index(k))})
        ctx.trans()
        ctx.state((str(measure), bits))
        expect_eq(c.get_error_key(1), exp, f"error measure {measure}, reported {keys}: used")
        expect_eq(c.get_epoch_error_value(1), float(_KEYS.index(exp)), f"error measure {measure}, reported {keys}: value")
    ctx.trace()


def _case_best(case, ctx):
    from returnn.learning_rate_control import ConstantLearningRate

    n = case["n"]
    for rest in itertools.product(SC, repeat=n - 1):
        scores = [SC[case["first"]]] + list(rest)
        c = ConstantLearningRate(default_learning_rate=1.0)
        for ep, s in enumerate(scores, 1):
            c.get_learning_rate_for_epoch(ep)
            if s is not None:
                c.set_epoch_error(ep, {"dev_score": s})
        for last in range(1, n + 1):
            for first in range(1, last + 2):
                for only_ep, only_n, filt, dist in [(None, -1, math.inf, 0.0), (2, -1, math.inf, 0.0), (None, 2, math.inf, 0.0), (None, -1, 0.9, 0.0), (None, -1, math.inf, 0.05), (3, 1, 0.995, 0.01)]:
                    kw = dict(last_epoch=last, first_epoch=first, only_last_epochs=only_ep, only_last_n=only_n, filter_score=filt, min_score_dist=dist)
                    got = c.get_last_best_epoch(**kw)
                    eps = [e for e in range(first, last + 1) if scores[e - 1] is not None and (not only_ep or e > last - only_ep)]
                    exp = None
                    if eps:
                        latest = scores[eps[-1] - 1]
                        cand = [e for e in eps if scores[e - 1] <= filt]
                        if only_n >= 1:
                            cand = cand[-only_n:]
                        cand = [e for e in cand if scores[e - 1] + dist < latest]
                        if cand:
                            exp = min(cand, key=lambda e: (scores[e - 1], e))
                    ctx.trans()
                    expect_eq(got, exp, f"get_last_best_epoch({kw}) for scores {scores}")
        ctx.trace()
        ctx.state(("best", scores))


def _case_crash(case, ctx):
    """kill at each operation of save: the file afterwards is either the old or the new state, and the resumed run is the same"""
    k = case["k"]
    cfg = _configs()[5] if k % 2 else _configs()[0]
    scores = [1.0, 0.995, 0.5, 0.5][: k + 1]
    seen = []

    def make(w):
        root = os.environ["TMPDIR"] + "/lrc"
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        w.root = root
        w.fn = root + "/d/lr.txt"
        ref_, w.c = _run(cfg, scores[:-1], (), root + "/lr0.txt")
        if k > 0:
            os.makedirs(root + "/d")
            shutil.copy(root + "/lr0.txt", w.fn)
        w.old = _canon(w.c.epoch_data) if k > 0 else None
        c = _mk(cfg, w.fn)
        c.get_learning_rate_for_epoch(k + 1)
        c.set_epoch_error(k + 1, {"dev_score": scores[-1]})
        w.new = _canon(c.epoch_data)
        if k > 0:
            w.old = _canon(_mk(cfg, w.fn).epoch_data)
        w.spawn(w.proc("P"), "P", c.save)

    def check(w):
        a = w.actors[0]
        if a.exc is not None:
            raise Violation(f"save failed: {a.exc!r}")
        info = f"save of {k + 1} epochs, killed {w.crashed}"
        if not os.path.exists(w.fn):
            expect(k == 0 and w.crashed, f"{info}: learning rate file is gone")
            return
        try:
            c = _mk(cfg, w.fn)
        except Exception as exc:
            raise Violation(f"{info}: learning rate file not loadable: {exc!r}")
        got = _canon(c.epoch_data)
        expect(got == w.new or (w.crashed and got == w.old), f"{info}: loaded {got}, old {w.old}, new {w.new}")
        if not w.crashed:
            expect(got == w.new, info)
        seen.append(tuple(w.crashed))
        ctx.trans(len(w.trace))
        ctx.trace()
        ctx.count("crash_points")
        ctx.state(("crash", k, tuple(w.trace)))

    vos.explore(make, check, max_preempt=0, max_crash=1, crashable=["P"])


def _canon(d):
    return repr({k: (v.learning_rate, sorted(v.error.items()), sorted(v.meta.items(), key=str)) for k, v in d.items()})


def _case_round(case, ctx):
    fn = os.environ["TMPDIR"] + "/lr.txt"
    import numpy

    floats = [0.0, -0.0, 1e-300, 0.1 + 0.2, 1 / 3, -1e22, float("inf"), float("-inf"), float("nan"), 5e-324, 123456789.123456789]
    metas = [{}, {"a": 1, "b": "x'\"\n\\ü"}, {"d": None, "t": True, "l": [1, "a"], "n": {"x": 1.5}}, {"f": float("nan")}, {"z": (1, 2)}]
    from returnn.learning_rate_control import ConstantLearningRate

    for x in floats:
        for m in metas:
            for lr in (0.1, 1e-7, 1.0):
                if os.path.exists(fn):
                    os.remove(fn)
                c = ConstantLearningRate(default_learning_rate=lr, filename=fn)
                for ep in (1, 2, 10):
                    c.get_learning_rate_for_epoch(ep)
                    c.set_epoch_error(ep, {"dev_score": x, "train:score/x": {"a:b": 1.5, "c:d": x}})
                    c.epoch_data[ep].meta.update(m)
                c.save()
                c2 = ConstantLearningRate(default_learning_rate=0.3, filename=fn)
                expect_eq(_canon(c2.epoch_data), _canon(c.epoch_data), "roundtrip of the learning rate file")
                with open(fn) as f:
                    s = f.read()
                c2.save()
                expect_eq(open(fn).read(), s, "second save")
                ctx.trans(2)
                ctx.trace()
                ctx.state(("round", repr(x), repr(m), lr))


def worker_init():
    from returnn.log import log

    log.initialize(verbosity=[0])


def run_case(case, ctx):
    globals()["_case_" + case["t"]](case, ctx)


def check_vacuity(total):
    if len(total.outcomes) < 300 or total.extra.get("crash_points", 0) < 12:
        return f"too few outcomes: {len(total.outcomes)} {total.extra}"


if __name__ == "__main__":
    harness.main(__name__)
