"""C26: forwarding and evaluation: every sequence is delivered to the callback exactly once, with its own tag and its own outputs without padding, for every batching and every pattern of out-of-memory failures; evaluation scores do not depend on the batching."""
import itertools, math, os
from vlib import harness, teng
from vlib.harness import Violation, expect, expect_eq

PID = "C26"
LEVEL = "model_checking"
RULE = (
    "forward case = (lengths, batching): the real torch Engine.forward_with_callback is executed for every pattern of out-of-memory errors (decision per executed step, explored depth first"
    " until all decisions up to the bound are covered); oracle = outputs of each sequence computed alone; if a batch of one sequence fails, the error must be raised and nothing delivered twice;"
    " eval case = (lengths, batching options): scores vs independent sums; state = (lengths, batching, decisions)"
)
BOUNDS = {
    "quick": "all length tuples of 1-4 seqs over {1,2,3} (up to 120 tuples), max_seqs 1-4, batch_size limits; all OOM patterns with <=3 failures (all subsets of the executed steps); outputs of 6 kinds of dims (time, no time, downsampled, per-seq new dim, beam with own lengths, time-major)",
    "thorough": "up to 5 seqs, <=5 OOM failures",
}
ASSUMPTIONS = ["CPU; an out-of-memory error is raised by the step function in place of the GPU allocator", "one process, num_workers=0", "float tolerance 1e-5"]
CASE_TIMEOUT = 800


def parent_init():
    teng.init()


def gen_cases(tier):
    q = tier == "quick"
    n = 4 if q else 5
    tuples = [t for k in range(1, n + 1) for t in itertools.product((1, 2, 3), repeat=k) if k <= 3 or t[0] == 2 or not q]
    for i in range(0, len(tuples), 3):
        yield dict(t="fwd", lens=tuples[i : i + 3], oom=2)
    for ms in ((2, 3, 4) if q else (2, 3, 4, 5)):
        yield dict(t="fwd", lens=[(2, 3, 1, 2)] if q else [(2, 3, 1, 2), (1, 2, 3, 3, 1)], ms=[ms], oom=3 if q else 5)
    for i in range(0, len(tuples), 6):
        yield dict(t="eval", lens=tuples[i : i + 6])


_F = None
_oom = None  # function () -> bool
_ran = []


def _make_model(**_kw):
    import returnn.frontend as rf
    import torch

    class M(rf.Module):
        def __init__(self):
            super().__init__()
            self.w = rf.Parameter([_F])

    m = M()
    with torch.no_grad():
        m.w.raw_tensor.copy_(torch.tensor([0.3, -0.8]))
    return m


def _forward_step(*, model, extern_data, **_kw):
    import torch
    import returnn.frontend as rf
    from returnn.tensor import Dim, Tensor

    x = extern_data["data"]
    B, T = x.dims[:2]
    n = B.get_dim_value()
    _ran.append(n)
    y = rf.matmul(x, model.w, reduce=_F)  # [B,T]
    if _oom is not None and _oom():
        raise torch.cuda.OutOfMemoryError("CUDA out of memory. (injected)")
    ctx = rf.get_run_ctx()
    ctx.mark_as_output(x * 2.0 + 1.0, "btf", dims=[B, T, _F])
    ctx.mark_as_output(y, "tb", dims=[T, B])
    s = rf.reduce_sum(y, axis=T)
    ctx.mark_as_output(s, "b", dims=[B])
    pooled, (T2,) = rf.pool1d(rf.expand_dim(y, Dim(1, name="one")), mode="max", pool_size=2, strides=2, padding="same", in_spatial_dim=T), (None,)
    yield_dim = pooled[1]
    ctx.mark_as_output(rf.squeeze(pooled[0], axis=[d for d in pooled[0].dims if d.dimension == 1][0]), "pool", dims=[B, yield_dim])
    # new dim with own length: T+1 .. (per seq)
    L = Dim(Tensor("L", [B], "int32", raw_tensor=(T.dyn_size_ext.raw_tensor * 2 - 1)), name="L")
    r = rf.range_over_dim(L)
    ctx.mark_as_output(rf.cast(r, "float32") + s, "own", dims=[B, L])
    # beam with own lengths
    beam = Dim(2, name="beam")
    lens = torch.stack([T.dyn_size_ext.raw_tensor, torch.clamp(T.dyn_size_ext.raw_tensor - 1, min=0)], dim=1)
    K = Dim(Tensor("K", [B, beam], "int32", raw_tensor=lens), name="K")
    kk = rf.cast(rf.range_over_dim(K), "float32") + s + rf.cast(rf.range_over_dim(beam), "float32") * 10
    ctx.mark_as_output(kk, "beam", dims=[beam, B, K])


def _forward_step_simple(**kw):
    _forward_step(**kw)


def _expected(seq):
    import numpy as np

    x = seq["data"].astype("float64")
    T = len(x)
    y = x @ np.array([0.3, -0.8])
    s = y.sum()
    out = {
        "btf": x * 2 + 1,
        "tb": y,
        "b": s,
        "pool": np.array([y[i : i + 2].max() for i in range(0, T, 2)]),
        "own": np.arange(2 * T - 1) + s,
    }
    out["beam"] = [(np.arange(T) + s), (np.arange(max(T - 1, 0)) + s + 10)]
    return out


def _config(extra):
    global _F
    from returnn.config import Config
    from returnn.tensor import Dim, batch_dim

    _F = Dim(2, name="F")
    time_dim = Dim(None, name="time")
    extern = {"data": {"dims": [batch_dim, time_dim, _F], "dtype": "float32"}, "target": {"dims": [batch_dim, time_dim, Dim(1, name="one")], "dtype": "float32"}}
    return Config(
        dict(device="cpu", extern_data=extern, get_model=_make_model, forward_step=_forward_step_simple, train_step=_train_step, torch_dataloader_opts={"num_workers": 0}, random_seed=3, backend="torch", **extra)
    )


def _forward(lens, ms, oom_f, split=True):
    """:return: (list of (tag, outputs), exception)"""
    global _oom
    from returnn.config import global_config_ctx
    from returnn.torch.engine import Engine
    from returnn.forward_iface import ForwardCallbackIface
    import numpy

    got = []

    class Cb(ForwardCallbackIface):
        def __init__(self):
            self.st = "new"

        def init(self, *, model):
            expect_eq(self.st, "new", "callback.init called twice")
            self.st = "init"

        def process_seq(self, *, seq_tag, outputs):
            expect_eq(self.st, "init", "process_seq outside of init/finish")
            o = {}
            for k, v in outputs.data.items():
                raw = numpy.array(v.raw_tensor)
                expect_eq(raw.shape, tuple(int(d.get_dim_value()) for d in v.dims), f"{seq_tag} output {k}: raw shape vs dims")
                ln = [d.dyn_size_ext.raw_tensor for d in v.dims if d.dyn_size_ext is not None]
                o[k] = (raw.copy(), [numpy.array(x).tolist() for x in ln], [str(d.name) for d in v.dims])
            got.append((str(seq_tag), o))

        def finish(self):
            expect_eq(self.st, "init", "finish")
            self.st = "done"

    cb = Cb()
    config = _config(dict(task="forward", max_seqs=ms, batch_size=100, forward_auto_split_batch_on_oom=split))
    _oom = oom_f
    del _ran[:]
    exc = None
    import io, contextlib

    with global_config_ctx(config), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        e = Engine(config=config)
        e.init_network_from_config()
        import torch

        try:
            e.forward_with_callback(dataset=teng.dataset("fwd", teng.seqs(lens)), callback=cb)
        except torch.cuda.OutOfMemoryError as ex:
            exc = ex
    return got, exc, cb.st


def _check_outputs(lens, got, what):
    import numpy as np

    data = teng.seqs(lens)
    for tag, o in got:
        i = int(tag.split("-")[-1])
        ex = _expected(data[i])
        expect_eq(set(o), set(ex), f"{what}: outputs of {tag}")
        T = lens[i]
        for k, e in ex.items():
            raw, ln, names = o[k]
            if k == "beam":
                # dims: without batch, own lengths per beam
                ax = names.index("beam")
                if ax != 0:
                    raw = np.moveaxis(raw, ax, 0)
                expect_eq(ln, [[T, max(T - 1, 0)]], f"{what}: {tag} lengths of the beam output")
                for b in range(2):
                    n = len(e[b])
                    expect(raw.shape[1] >= n and np.allclose(raw[b, :n], e[b], atol=1e-5), lambda: f"{what}: {tag} output beam[{b}]: {raw[b].tolist()}, expected {e[b].tolist()}")
            else:
                e = np.array(e)
                expect(raw.shape == e.shape and np.allclose(raw, e, atol=1e-5), lambda: f"{what}: {tag} output {k}: {raw.tolist()}, expected {e.tolist()}")


def _case_fwd(case, ctx):
    for lens in case["lens"]:
        lens = tuple(lens)
        for ms in case.get("ms") or range(1, len(lens) + 1):
            todo = [()]
            while todo:
                prefix = todo.pop()
                dec = []

                def oom():
                    k = len(dec)
                    d = prefix[k] if k < len(prefix) else False
                    dec.append(d)
                    return d

                what = f"lens {lens} max_seqs {ms} oom {[i for i, d in enumerate(prefix) if d]}"
                try:
                    got, exc, st = _forward(lens, ms, oom)
                except Violation:
                    raise
                except Exception as e:
                    raise Violation(f"forward fails: {type(e).__name__}: {e}; {what}"[:1200])
                tags = [t for t, _ in got]
                expect_eq(len(set(tags)), len(tags), f"{what}: delivered twice: {tags}")
                single = any(d and n == 1 for d, n in zip(dec, _ran))
                if single:
                    expect(exc is not None, f"{what}: out of memory for a single seq is not reported (delivered {tags})")
                else:
                    expect(exc is None, f"{what}: failed with {exc!r}")
                    expect_eq(sorted(tags), sorted(f"seq-{i}" for i in range(len(lens))), f"{what}: delivered seqs")
                    expect_eq(st, "done", f"{what}: callback.finish")
                    # longest first (sorted_reverse)
                    ls = [lens[int(t.split("-")[1])] for t in tags]
                    expect_eq(ls, sorted(ls, reverse=True), f"{what}: order")
                _check_outputs(lens, got, what)
                ctx.trans(len(dec))
                ctx.trace()
                ctx.state((lens, ms, tuple(dec)))
                ctx.outcome("oom" if exc else "ok%d" % sum(dec))
                # alternatives
                if sum(prefix) < case["oom"] and exc is None:
                    for k in range(len(prefix), len(dec)):
                        todo.append(tuple(dec[:k]) + (True,))
    # without the option: the error is raised
    got, exc, st = _forward((2, 1), 2, lambda: True, split=False)
    expect(exc is not None and not got, "out of memory is not reported without auto split")


def _train_step(*, model, extern_data, **_kw):
    import returnn.frontend as rf

    x = extern_data["data"]
    t = extern_data["target"]
    T = x.dims[1]
    y = rf.matmul(x, model.w, reduce=_F)
    d = (y - rf.squeeze(t, axis=t.dims[-1])) ** 2
    s = rf.reduce_sum(y, axis=T)
    ctx = rf.get_run_ctx()
    ctx.mark_as_loss(d, "mse")
    ctx.mark_as_loss(rf.dropout(s, 0.5, axis=s.dims) * 0.1, "seq", scale=0.3)
    ctx.mark_as_loss(rf.cast(y > 0, "float32"), "err", as_error=True)
    ctx.mark_as_loss(rf.reduce_sum(d, axis=T), "cust", custom_inv_norm_factor=rf.cast(T.dyn_size_ext, "float32") * 2 + 1)
    ctx.mark_as_loss(rf.reduce_sum(d, axis=d.dims), "scal", custom_inv_norm_factor=rf.cast(rf.reduce_sum(T.dyn_size_ext, axis=T.dyn_size_ext.dims), "float32"))


def _case_eval(case, ctx):
    from returnn.config import global_config_ctx
    from returnn.torch.engine import Engine
    import numpy as np

    for lens in case["lens"]:
        lens = tuple(lens)
        data = teng.seqs(lens, salt=0.7)
        sums = dict(mse=0.0, seq=0.0, err=0.0, cust=0.0)
        for q in data:
            x, t = q["data"].astype("float64"), q["target"][:, 0].astype("float64")
            y = x @ np.array([0.3, -0.8])
            sums["mse"] += ((y - t) ** 2).sum()
            sums["seq"] += 0.1 * y.sum()
            sums["err"] += (y > 0).sum()
            sums["cust"] += ((y - t) ** 2).sum()
        fr = sum(lens)
        exp = dict(mse=sums["mse"] / fr, seq=sums["seq"] / len(lens), err=sums["err"] / fr, cust=sums["cust"] / (2 * fr + len(lens)), scal=sums["mse"] / fr)
        for key in ("mse", "seq", "cust", "scal"):
            exp[key + ":exp"] = math.exp(exp[key])
        for ms, bs in [(m, 100) for m in range(1, len(lens) + 1)] + [(100, b) for b in range(max(lens), max(lens) * len(lens) + 1, 2)]:
            config = _config(dict(task="train", max_seqs=ms, batch_size=bs, learning_rate=0.0, optimizer={"class": "sgd"}, num_epochs=1, calculate_exp_loss=True))
            with global_config_ctx(config):
                e = Engine(config=config)
                try:
                    e.init_train_from_config(train_data=teng.dataset("train", teng.seqs((1,))), dev_data=teng.dataset("dev", data), eval_data=teng.dataset("eval", data, seq_ordering="reverse"))
                    e.train()
                except Exception as ex:
                    raise Violation(f"evaluation fails: {type(ex).__name__}: {ex}; lens {lens} max_seqs {ms} batch_size {bs}"[:1200])
                err = e.learning_rate_control.epoch_data[1].error
            for name in ("dev", "eval"):
                sc = {k[len(name) + 6 :]: v for k, v in err.items() if k.startswith(name + "_loss_")}
                expect_eq(set(sc), set(exp), f"{name} scores, lens {lens}")
                for k in exp:
                    expect(abs(sc[k] - exp[k]) < 1e-4 * max(1, abs(exp[k])), lambda: f"{name} score {k}: {sc[k]}, expected {exp[k]}; lens {lens} max_seqs {ms} batch_size {bs}")
            ctx.trans()
            ctx.state(("eval", lens, ms, bs))
        ctx.trace()
    ctx.outcome("eval")


def run_case(case, ctx):
    globals()["_case_" + case["t"]](case, ctx)


def check_vacuity(total):
    if total.transitions < 1000:
        return f"only {total.transitions} steps"


if __name__ == "__main__":
    harness.main(__name__)
