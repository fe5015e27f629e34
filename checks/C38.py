"""C38: TF layers on batches of sequences of different lengths: the result of a sequence does not depend on padding and on the other sequences."""
import itertools
from vlib import harness, tfnet
from vlib.harness import Violation, expect, expect_eq

PID = "C38"
LEVEL = "model_checking"
RULE = (
    "case = (net with the layer(s) under test, axis order of the input); the real net is built once, then run for every tuple of lengths of the bound with garbage in the padded frames;"
    " each sequence (cut to its output length) is compared with the run of this sequence alone, and with a plain Python oracle where there is one; state = (net, order, lengths); transition = sequence compared"
)
BOUNDS = {
    "quick": "all tuples of lengths in {1..4}^1, {0..4}^2 (1..4 where the layer has no result for an empty sequence), {1,2,4}^3; input [B,T,2] in the orders BTF, TBF, BFT; ~110 nets",
    "thorough": "all tuples of lengths in {0..6}^2, {0..4}^3, two kinds of garbage",
}
ASSUMPTIONS = ["CPU", "conv / pool with padding=same: only with use_time_mask=True (or handled by the layer itself)"]

NETS = {}


def net(name, *, ref=None, min_len=0, orders=("BTF", "TBF", "BFT"), out="output", tol=1e-4, lens_ok=None, train=False, two=False, config=None, loss=False, ylen=None):
    def deco(f):
        NETS[name] = dict(build=f, ref=ref, min_len=min_len, orders=orders, out=out, tol=tol, lens_ok=lens_ok, train=train, two=two, config=config, loss=loss, ylen=ylen)
        return f

    return deco


def simple(name, layer, ref=None, **kw):
    net(name, ref=ref, **kw)(lambda: {"output": dict({"from": "data"}, **layer)})


def _define():
    import numpy as np

    def red(f):
        return lambda x, y: f(x, axis=0)

    for mode, f in (("sum", np.sum), ("max", np.max), ("min", np.min), ("mean", np.mean)):
        simple("reduce-%s" % mode, {"class": "reduce", "mode": mode, "axis": "T"}, ref=red(f), min_len=0 if mode == "sum" else 1)
        net("reduce-%s-exp" % mode, ref=(lambda f: lambda x, y: f(np.exp(x / 3), axis=0))(f), min_len=0 if mode == "sum" else 1)(
            (lambda mode: lambda: {"a": {"class": "eval", "from": "data", "eval": "tf.exp(source(0)/3)"}, "output": {"class": "reduce", "from": "a", "mode": mode, "axis": "T"}})(mode)
        )
    for mode, f in (("argmax", np.argmax), ("argmin", np.argmin)):
        simple("reduce-%s" % mode, {"class": "reduce", "mode": mode, "axis": "T"}, ref=red(f), min_len=1)
    simple("reduce-logsumexp", {"class": "reduce", "mode": "logsumexp", "axis": "T"}, ref=lambda x, y: np.log(np.sum(np.exp(x), axis=0)), min_len=1)
    simple("reduce-tf", {"class": "reduce", "mode": "sum", "axes": ["T", "F"]}, ref=lambda x, y: np.sum(x))
    simple("reduce-mean-tf", {"class": "reduce", "mode": "mean", "axes": ["T", "F"]}, ref=lambda x, y: np.mean(x), min_len=1)
    simple("reduce-max-tf", {"class": "reduce", "mode": "max", "axes": ["T", "F"]}, ref=lambda x, y: np.max(x), min_len=1)
    simple("reduce-keepdims", {"class": "reduce", "mode": "mean", "axis": "T", "keep_dims": True}, ref=lambda x, y: np.mean(x, axis=0), min_len=1, lens_ok="squeeze")
    for mode, f in (("any", np.any), ("all", np.all)):
        net("reduce-%s" % mode, ref=(lambda f: lambda x, y: f(x > 0.5, axis=0))(f))(
            (lambda mode: lambda: {"a": {"class": "compare", "from": "data", "kind": "greater", "value": 0.5}, "output": {"class": "reduce", "from": "a", "mode": mode, "axis": "T"}})(mode)
        )

    def softmax(x, axis=0):
        e = np.exp(x - np.max(x, axis=axis, keepdims=True)) if x.shape[axis] else x
        return e / np.sum(e, axis=axis, keepdims=True)

    simple("softmax-spatial", {"class": "softmax_over_spatial", "axis": "T"}, ref=lambda x, y: softmax(x), min_len=1)
    simple("softmax-spatial-log", {"class": "softmax_over_spatial", "axis": "T", "log_space": True}, ref=lambda x, y: np.log(softmax(x)), min_len=1)
    simple("softmax-spatial-factor", {"class": "softmax_over_spatial", "axis": "T", "energy_factor": 0.5}, ref=lambda x, y: softmax(x * 0.5), min_len=1)
    simple("seq-len-mask", {"class": "seq_len_mask", "axis": "T", "mask_value": -1.5}, ref=lambda x, y: x)
    net("masked-sum", ref=lambda x, y: x.sum(axis=0))(
        lambda: {"m": {"class": "seq_len_mask", "axis": "T", "mask_value": 0.0, "from": "data"}, "output": {"class": "reduce", "mode": "sum", "axis": "T", "use_time_mask": False, "from": "m"}}
    )
    for rev in (False,):
        simple("cumsum%s" % ("-rev" if rev else ""), {"class": "cumsum", "axis": "T", "reverse": rev}, ref=(lambda rev: lambda x, y: np.cumsum(x[::-1] if rev else x, axis=0)[:: -1 if rev else 1])(rev))

    # norm
    simple("layer-norm", {"class": "layer_norm"}, tol=1e-3)
    simple("math-norm", {"class": "math_norm", "p": 2, "axis": "T"}, ref=lambda x, y: np.sqrt((x**2).sum(axis=0)))

    # shapes / time changes
    def window_ref(size, left, stride=1):
        def ref(x, y):
            T = x.shape[0]
            out = []
            for t in range(0, T, stride):
                out.append([x[t - left + k] if 0 <= t - left + k < T else np.zeros_like(x[0]) for k in range(size)])
            return np.array(out) if out else np.zeros((0, size, x.shape[1]))

        return ref

    for size, left in ((3, 2), (2, 1), (4, 3)):
        simple("window-%i-%i" % (size, left), {"class": "window", "window_size": size, "window_left": left, "window_right": size - 1 - left}, ref=window_ref(size, left))
    simple("window-valid", {"class": "window", "window_size": 2, "padding": "valid"}, ref=lambda x, y: np.array([[x[t], x[t + 1]] for t in range(len(x) - 1)]) if len(x) > 1 else None, min_len=1)
    for k in (1, 2):
        simple("prefix-%i" % k, {"class": "prefix_in_time", "prefix": 7.0, "repeat": k}, ref=(lambda k: lambda x, y: np.concatenate([np.full((k, x.shape[1]), 7.0), x]))(k))
        simple("postfix-%i" % k, {"class": "postfix_in_time", "postfix": 7.0, "repeat": k}, ref=(lambda k: lambda x, y: np.concatenate([x, np.full((k, x.shape[1]), 7.0)]))(k))
    net("postfix-layer", ref=lambda x, y: np.concatenate([x, x.sum(0, keepdims=True)]))(
        lambda: {"s": {"class": "reduce", "mode": "sum", "axis": "T", "from": "data"}, "output": {"class": "postfix_in_time", "postfix": "s", "from": "data"}}
    )
    for l, r in ((1, 0), (0, 2), (2, 1)):
        simple("pad-%i-%i" % (l, r), {"class": "pad", "axes": "T", "padding": (l, r), "value": 5.0, "handle_dynamic_dims": True}, ref=(lambda l, r: lambda x, y: np.pad(x, ((l, r), (0, 0)), constant_values=5.0))(l, r))
    simple("pad-sum", {"class": "pad", "axes": "F", "padding": (1, 2), "value": 5.0}, ref=lambda x, y: np.pad(x, ((0, 0), (1, 2)), constant_values=5.0))
    for n in (1, 2):
        simple("shift-right-%i" % n, {"class": "shift_axis", "axis": "T", "amount": n, "pad": True, "pad_value": 5.0, "adjust_size_info": False}, ref=(lambda n: lambda x, y: np.concatenate([np.full((n, x.shape[1]), 5.0), x])[: len(x)])(n))
        simple("shift-right-nopad-%i" % n, {"class": "shift_axis", "axis": "T", "amount": -n, "pad": False}, ref=(lambda n: lambda x, y: x[n:])(n), min_len=n)
    for a, b, s in ((1, None, None), (None, None, 2), (1, None, 2), (None, -1, None), (0, None, 3), (2, None, None)):
        simple("slice-%s-%s-%s" % (a, b, s), {"class": "slice", "axis": "T", "slice_start": a, "slice_end": b, "slice_step": s}, ref=(lambda a, b, s: lambda x, y: x[a:b:s])(a, b, s))
    simple("slice-0-2", {"class": "slice", "axis": "T", "slice_start": 0, "slice_end": 2}, ref=lambda x, y: x[0:2], min_len=2)
    simple("slice-1-3", {"class": "slice", "axis": "T", "slice_start": 1, "slice_end": 3}, ref=lambda x, y: x[1:3], min_len=3)
    net("slice-nd", ref=lambda x, y: _slice_nd(x, 1, 2), min_len=3)(
        lambda: {"st": {"class": "constant", "value": 1, "with_batch_dim": True, "dtype": "int32"}, "output": {"class": "slice_nd", "from": "data", "start": "st", "size": 2}}
    )
    for k in (2, 3):
        simple("repeat-%i" % k, {"class": "repeat", "repetitions": k, "axis": "T"}, ref=(lambda k: lambda x, y: np.repeat(x, k, axis=0))(k))
        simple("resize-%i" % k, {"class": "resize", "factor": k, "axis": "T"}, ref=(lambda k: lambda x, y: np.repeat(x, k, axis=0))(k), min_len=1)
        simple("resize-fill-%i" % k, {"class": "resize", "factor": k, "axis": "T", "kind": "fill", "fill_value": 9.0}, ref=(lambda k: lambda x, y: _resize_fill(x, k))(k))
    net("repeat-layer", ref=lambda x, y: np.repeat(x, _reps(x), axis=0))(
        lambda: {
            "r": {"class": "eval", "from": "rr", "eval": "tf.cast(tf.round(tf.abs(source(0))),tf.int32)%3", "out_type": {"dtype": "int32"}},
            "rr": {"class": "reduce", "mode": "sum", "axis": "F", "from": "data"},
            "output": {"class": "repeat", "repetitions": "r", "axis": "T", "from": "data"},
        }
    )
    for size, step in ((2, 1), (2, 2), (3, 2), (3, 1)):
        net("chunk-unchunk-%i-%i" % (size, step), ref=lambda x, y: x, min_len=1)(
            (lambda size, step: lambda: {"c": {"class": "time_chunking", "chunk_size": size, "chunk_step": step, "from": "data"}, "output": {"class": "time_unchunking", "chunking_layer": "c", "from": "c"}})(size, step)
        )
    # gather
    net("gather-last", ref=lambda x, y: x[-1], min_len=1)(
        lambda: {"l": {"class": "length", "from": "data", "axis": "T"}, "p": {"class": "eval", "from": "l", "eval": "source(0)-1"}, "output": {"class": "gather", "from": "data", "position": "p", "axis": "T"}}
    )
    net("gather-rev", ref=lambda x, y: x[::-1])(
        lambda: {
            "l": {"class": "length", "from": "data", "axis": "T"},
            "r": {"class": "range_in_axis", "from": "data", "axis": "T"},
            "p": {"class": "combine", "kind": "sub", "from": ["l", "r1"], "allow_broadcast_all_sources": True},
            "r1": {"class": "eval", "from": "r", "eval": "source(0)+1"},
            "output": {"class": "gather", "from": "data", "position": "p", "axis": "T", "clip_to_valid": True},
        }
    )
    net("gather-clip", ref=lambda x, y: x[[min(max(2 * t - 1, 0), len(x) - 1) for t in range(len(x))]] if len(x) else x)(
        lambda: {
            "r": {"class": "range_in_axis", "from": "data", "axis": "T"},
            "z": {"class": "constant", "value": 0, "dtype": "int32", "with_batch_dim": True},
            "p": {"class": "eval", "from": ["r", "z"], "eval": "source(0)*2-1+source(1)", "allow_broadcast_all_sources": True},
            "output": {"class": "gather", "from": "data", "position": "p", "axis": "T", "clip_to_valid": True},
        }
    )
    net("length", ref=lambda x, y: np.array(len(x)))(lambda: {"output": {"class": "length", "from": "data", "axis": "T"}})
    net("shift-softmax-att", min_len=1, ref=lambda x, y: softmax(x @ x.T, axis=1) @ x, tol=1e-3)(
        lambda: {
            "k": {"class": "reinterpret_data", "from": "data", "set_dim_tags": {"T": _dim("kt")}},
            "e": {"class": "dot", "from": ["k", "data"], "reduce": "F", "var1": "auto", "var2": "auto"},
            "w": {"class": "softmax_over_spatial", "from": "e", "axis": _dimof("kt")},
            "output": {"class": "dot", "from": ["k", "w"], "reduce": _dimof("kt")},
        }
    )
    net("dot-time", ref=lambda x, y: x.T @ x)(
        lambda: {"a": {"class": "eval", "from": "data", "eval": "source(0)*1."}, "f": {"class": "reinterpret_data", "from": "data", "set_dim_tags": {"F": _fdim("f2", 2)}}, "output": {"class": "dot", "from": ["a", "f"], "reduce": "T"}}
    )
    net("dot-time-mean", ref=lambda x, y: x.T @ np.exp(x / 3))(
        lambda: {"f0": {"class": "eval", "from": "data", "eval": "tf.exp(source(0)/3)"}, "f": {"class": "reinterpret_data", "from": "f0", "set_dim_tags": {"F": _fdim("f2", 2)}}, "output": {"class": "dot", "from": ["data", "f"], "reduce": "T"}}
    )
    for k in (1, 2):
        net("topk-%i" % k, ref=(lambda k: lambda x, y: -np.sort(-x.sum(1))[:k])(k), min_len=k, tol=1e-3)(
            (lambda k: lambda: {"s": {"class": "reduce", "mode": "sum", "axis": "F", "from": "data"}, "output": {"class": "top_k", "from": "s", "axis": "T", "k": k}})(k)
        )
    simple("topk-f", {"class": "top_k", "axis": "F", "k": 1}, ref=lambda x, y: np.max(x, axis=1, keepdims=True))
    # flatten / unflatten
    for bm in (True, False):
        net("flatten-%s" % bm, ref=lambda x, y: x * 2)(
            (lambda bm: lambda: {"f": {"class": "flatten_batch", "from": "data", "axis": "T", "batch_major": bm}, "g": {"class": "eval", "from": "f", "eval": "source(0)*2"}, "output": {"class": "unflatten_batch", "from": "g"}})(bm)
        )
    net("boolean-mask", ref=lambda x, y: x[x.sum(1) > 1], min_len=1)(
        lambda: {
            "s": {"class": "reduce", "mode": "sum", "axis": "F", "from": "data"},
            "m": {"class": "compare", "from": "s", "kind": "greater", "value": 1.0},
            "c": {"class": "masked_computation", "mask": "m", "from": "data", "unit": {"class": "copy", "from": "data"}},
            "output": {"class": "copy", "from": "c"},
        }
    )
    # recurrent
    for direction in (1, -1):
        for unit in ("lstm", "nativelstm2", "lstmp", "standardlstm", "gru", "basicrnn"):
            if unit == "lstmp" and direction == -1:
                continue
            net("rec-%s-%i" % (unit, direction), tol=1e-4, min_len=0 if unit in ("lstm", "nativelstm2") else 1)(
                (lambda u, d: lambda: {"output": {"class": "rec", "unit": u, "n_out": 2, "direction": d, "from": "data"}})(unit, direction)
            )
    net("rec-bidir", tol=1e-4)(
        lambda: {
            "f": {"class": "rec", "unit": "nativelstm2", "n_out": 2, "direction": 1, "from": "data"},
            "b": {"class": "rec", "unit": "nativelstm2", "n_out": 2, "direction": -1, "from": "data"},
            "f2": {"class": "rec", "unit": "nativelstm2", "n_out": 2, "direction": 1, "from": ["f", "b"]},
            "b2": {"class": "rec", "unit": "nativelstm2", "n_out": 2, "direction": -1, "from": ["f", "b"]},
            "output": {"class": "copy", "from": ["f2", "b2"]},
        }
    )
    # attention
    for left in (False, True):
        simple("self-att-%s" % left, {"class": "self_attention", "num_heads": 1, "total_key_dim": 2, "n_out": 2, "attention_left_only": left}, min_len=1)
    net("self-att-rel", min_len=1)(
        lambda: {"p": {"class": "relative_positional_encoding", "from": "data", "n_out": 2, "clipping": 2}, "output": {"class": "self_attention", "num_heads": 1, "total_key_dim": 2, "n_out": 2, "key_shift": "p", "from": "data"}}
    )
    net("pos-enc", orders=("BTF", "TBF"))(lambda: {"c": {"class": "copy", "from": ["data", "data"]}, "output": {"class": "positional_encoding", "add_to_input": True, "from": "c"}})
    # conv / pool
    for pad in ("same", "valid"):
        for stride in (1, 2) if pad == "valid" else (1,):
            for fs in (2, 3):
                simple(
                    "conv-%s-%i-%i" % (pad, fs, stride),
                    {"class": "conv", "n_out": 2, "filter_size": (fs,), "padding": pad, "strides": stride, "use_time_mask": True, "with_bias": True},
                    min_len=fs if pad == "valid" else 1,
                    orders=("BTF", "TBF", "BFT"),
                )
                for mode in ("max", "avg"):
                    if pad == "same" and (stride > 1 or mode == "avg"):
                        continue
                    simple(
                        "pool-%s-%s-%i-%i" % (mode, pad, fs, stride),
                        {"class": "pool", "mode": mode, "pool_size": (fs,), "padding": pad, "strides": stride, "use_time_mask": mode == "max"},
                        min_len=fs if pad == "valid" else 1,
                        ref=(lambda mode, fs, stride: lambda x, y: np.array([getattr(np, dict(max="max", avg="mean")[mode])(x[t : t + fs], axis=0) for t in range(0, len(x) - fs + 1, stride)]))(mode, fs, stride) if pad == "valid" else None,
                    )
    simple("tconv-same", {"class": "transposed_conv", "n_out": 2, "filter_size": (3,), "strides": (2,), "padding": "same", "use_time_mask": True}, min_len=1)
    simple("tconv-valid", {"class": "transposed_conv", "n_out": 2, "filter_size": (3,), "strides": (2,), "padding": "valid", "use_time_mask": True}, min_len=1)
    # losses
    lab = {"class": "eval", "from": "s", "eval": "tf.cast(tf.round(tf.abs(source(0)*3)),tf.int32)%3", "out_type": {"dtype": "int32", "sparse": True, "dim": 3}}
    s_ = {"class": "reduce", "mode": "sum", "axis": "F", "from": "data"}
    inp = {"class": "eval", "eval": "tf.exp(source(0)/3)", "from": "data"}
    net("loss-ce", loss=True)(lambda: {"s": s_, "lab": lab, "output": {"class": "softmax", "from": "data", "target": "layer:lab", "n_out": 3, "loss": "ce"}})
    net("loss-ce-smooth", loss=True)(lambda: {"s": s_, "lab": lab, "output": {"class": "softmax", "from": "data", "target": "layer:lab", "n_out": 3, "loss": "ce", "loss_opts": {"label_smoothing": 0.2}}})
    net("loss-ce-focal", loss=True)(lambda: {"s": s_, "lab": lab, "output": {"class": "softmax", "from": "data", "target": "layer:lab", "n_out": 3, "loss": "ce", "loss_opts": {"focal_loss_factor": 0.5}}})
    net("loss-ce-lstm", loss=True, min_len=1)(
        lambda: {"s": s_, "lab": lab, "r": {"class": "rec", "unit": "nativelstm2", "n_out": 2, "direction": -1, "from": "data"}, "output": {"class": "softmax", "from": "r", "target": "layer:lab", "n_out": 3, "loss": "ce"}}
    )
    net("loss-mse", loss=True, orders=("BTF", "TBF"))(lambda: {"inp": inp, "output": {"class": "linear", "activation": None, "n_out": 2, "from": "data", "target": "layer:inp", "loss": "mse"}})
    net("loss-mean-l1", loss=True, orders=("BTF", "TBF"))(lambda: {"inp": inp, "output": {"class": "linear", "activation": None, "n_out": 2, "from": "data", "target": "layer:inp", "loss": "mean_l1"}})
    net("loss-l1", loss=True, orders=("BTF", "TBF"))(lambda: {"inp": inp, "output": {"class": "linear", "activation": None, "n_out": 2, "from": "data", "target": "layer:inp", "loss": "l1"}})
    net("loss-as-is", loss=True)(lambda: {"output": {"class": "eval", "from": "data", "eval": "source(0)**2", "loss": "as_is"}})
    net("loss-as-is-scale", loss=True)(lambda: {"output": {"class": "eval", "from": "data", "eval": "source(0)**2", "loss": "as_is", "loss_scale": 0.3}})
    net("loss-as-is-seq", loss=True, min_len=1)(lambda: {"a": {"class": "reduce", "mode": "mean", "axis": "T", "from": "data"}, "output": {"class": "eval", "from": "a", "eval": "source(0)**2", "loss": "as_is"}})
    net("loss-ctc", loss=True, two=True, min_len=1, orders=("BTF", "BFT"), ylen=lambda n: (n + 1) // 2)(
        lambda: {
            "s": dict(s_, **{"from": "data:y"}),
            "lab": dict(lab, out_type={"dtype": "int32", "sparse": True, "dim": 3, "feature_dim_axis": None}),
            "output": {"class": "softmax", "from": "data", "target": "layer:lab", "n_out": 4, "loss": "ctc"},
        }
    )
    # two inputs
    net("concat-time", two=True, ref=lambda x, y: np.concatenate([x, y]))(lambda: {"output": {"class": "concat", "from": [("data", "T"), ("data:y", "T")]}})
    net("concat-time-3", two=True, ref=lambda x, y: np.concatenate([x, y, x]))(lambda: {"output": {"class": "concat", "from": [("data", "T"), ("data:y", "T"), ("data", "T")]}})
    net("cross-att", two=True, min_len=1, ref=lambda x, y: softmax(x @ y.T, axis=1) @ y, tol=1e-3)(
        lambda: {
            "e": {"class": "dot", "from": ["data:y", "data"], "reduce": "F"},
            "w": {"class": "softmax_over_spatial", "from": "e", "axis": "stag:y"},
            "output": {"class": "dot", "from": ["data:y", "w"], "reduce": "stag:y"},
        }
    )
    net("cross-sum", two=True, ref=lambda x, y: x * y.sum(axis=0) - y.sum() / 7)(
        lambda: {
            "s": {"class": "reduce", "mode": "sum", "axis": "T", "from": "data:y"},
            "s2": {"class": "reduce", "mode": "sum", "axes": ["T", "F"], "from": "data:y"},
            "output": {"class": "eval", "from": ["data", "s", "s2"], "eval": "source(0)*source(1)-source(2)/7"},
        }
    )
    net("edit-distance", two=True, ref=lambda x, y: np.array(_edit(_lab(x), _lab(y))))(
        lambda: {
            "a0": {"class": "reduce", "mode": "sum", "axis": "F", "from": "data"},
            "b0": {"class": "reduce", "mode": "sum", "axis": "F", "from": "data:y"},
            "a": {"class": "eval", "from": "a0", "eval": "tf.cast(tf.round(tf.abs(source(0))),tf.int32)%3", "out_type": {"dtype": "int32", "sparse": True, "dim": 3}},
            "b": {"class": "eval", "from": "b0", "eval": "tf.cast(tf.round(tf.abs(source(0))),tf.int32)%3", "out_type": {"dtype": "int32", "sparse": True, "dim": 3}},
            "output": {"class": "edit_distance", "a": "a", "b": "b"},
        }
    )


_DIMS = {}


def _dim(name):
    from returnn.tensor import Dim

    _DIMS[name] = Dim(kind=Dim.Types.Spatial, description=name, dimension=None)
    return _DIMS[name]


def _fdim(name, n):
    from returnn.tensor import Dim

    return Dim(kind=Dim.Types.Feature, description=name, dimension=n)


def _dimof(name):
    return _DIMS[name]


def _lab(x):
    import numpy as np

    return [int(v) for v in np.round(np.abs(x.sum(axis=1))).astype("int32") % 3]


def _reps(x):
    return _lab(x)


def _edit(a, b):
    d = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        e = [i]
        for j, y in enumerate(b, 1):
            e.append(min(d[j] + 1, e[j - 1] + 1, d[j - 1] + (x != y)))
        d = e
    return d[-1]


def _slice_nd(x, st, size):
    import numpy as np

    return x[st : st + size]


def _resize_fill(x, k):
    import numpy as np

    out = np.full((len(x) * k, x.shape[1]), 9.0)
    out[::k] = x
    return out


_define()


def parent_init():
    tfnet.init()


def gen_cases(tier):
    for n, d in NETS.items():
        for o in d["orders"]:
            yield dict(net=n, order=o, tier=tier)


def _value(key, t, f, seed):
    v = ((seed * 37 + t * 11 + f * 5 + (3 if key == "y" else 0)) * 2654435761 % 1009) / 1009.0
    return round(v * 4 - 2, 2)


def seq(key, seed, n):
    import numpy as np

    return np.array([[_value(key, t, f, seed) for f in range(2)] for t in range(n)], dtype="float32").reshape(n, 2)


def run_case(case, ctx):
    import numpy as np

    d = NETS[case["net"]]
    order, thorough = case["order"], case["tier"] != "quick"
    ax = [order.index(c) for c in "BTF"]
    import tensorflow as tf

    ext = {}
    for k in ("data", "y") if d["two"] else ("data",):
        shape = [2 if c == "F" else None for c in order if c != "B"]
        ext[k] = dict(shape=tuple(shape), batch_dim_axis=ax[0], time_dim_axis=ax[1], feature_dim_axis=ax[2], available_for_inference=True)
    try:
        n_ = tfnet.Net(d["build"](), ext, train=d["train"] or d["loss"], eval_flag=d["loss"], config=d["config"])
    except NotImplementedError:
        ctx.count("not_implemented", 1)
        return
    with n_ as net_:
        lo = d["min_len"]
        hi = 6 if thorough else 4
        tuples = [(a,) for a in range(lo, hi + 1)]
        tuples += list(itertools.product(range(lo, hi + 1), repeat=2))
        tuples += list(itertools.product(range(lo, 5) if thorough else [v for v in (lo, 2, 4) if v >= lo], repeat=3))
        alone = {}

        def run_(lens, seeds, garbage, fetch):
            fd = {}
            for k in ext:
                dd = net_.net.extern_data.data[k]
                ls = lens if k == "data" else [_ylen(n, s, lo) if not d["ylen"] else d["ylen"](n) for n, s in zip(lens, seeds)]
                T = max(ls)
                a = np.full((len(ls), T, 2), 0, dtype="float32")
                for b, n in enumerate(ls):
                    a[b, :n] = seq(k, seeds[b], n)
                    for t in range(n, T):
                        a[b, t] = [garbage + 3.3 * t + b, 7.7 - garbage * (t + 1)]
                perm = ["BTF".index(c) for c in order]
                fd[dd.placeholder] = a.transpose(perm)
                fd[dd.get_sequence_lengths()] = np.array(ls, dtype="int32")
            if hasattr(net_.net.extern_data, "get_batch_info"):
                bd = net_.net.extern_data.get_batch_info().dim
                if isinstance(bd, tf.Tensor) and bd.op.type == "Placeholder":
                    fd[bd] = len(lens)
            return net_.session.run(fetch, feed_dict=fd)

        with net_.graph.as_default():
            if d["loss"]:
                return _run_loss(case, ctx, net_, run_, tuples)
            o = net_.fetch_layer(d["out"])
            expect(o.have_batch_axis(), "output has a batch axis")
            o = o.copy_as_batch_major()
            perm_ = [0] + sorted(range(1, o.batch_ndim), key=lambda a: (not o.is_axis_dynamic(a), a == o.feature_dim_axis, a))
            o = o.copy_transpose(perm_)
            dyn = {a: o.get_dynamic_size(a) for a in range(o.batch_ndim) if a != 0 and o.is_axis_dynamic(a)}
            fetch = (o.placeholder, dyn)

        def run(lens, seeds, garbage):
            return run_(lens, seeds, garbage, fetch)

        def cut(res, b):
            arr, sizes = res
            idx = [b]
            for a in range(1, arr.ndim):
                if a in sizes:
                    s = sizes[a]
                    idx.append(slice(0, int(s[b]) if np.ndim(s) == 1 else int(s)))
                else:
                    idx.append(slice(None))
            return arr[tuple(idx)]

        def canon(v):
            if d["lens_ok"] == "squeeze":
                return v.reshape(-1)
            return v

        for lens in tuples:
            for g in (50.0, -40.0) if thorough else (50.0,):
                seeds = [3 * b + n + len(lens) for b, n in enumerate(lens)]
                res = run(lens, seeds, g)
                ctx.trace()
                ctx.state((case["net"], order, lens))
                for b, n in enumerate(lens):
                    key = (n, seeds[b])
                    if key not in alone:
                        r1 = canon(cut(run([n], [seeds[b]], 0.0), 0))
                        if d["ref"]:
                            x, y = seq("data", seeds[b], n), seq("y", seeds[b], _ylen(n, seeds[b], lo))
                            want = d["ref"](x.astype("float64"), y.astype("float64"))
                            if want is not None:
                                _close(r1, np.asarray(want), d["tol"], "%s: result for one sequence of length %i" % (case["net"], n))
                        alone[key] = r1
                    got = canon(cut(res, b))
                    _close(got, alone[key], d["tol"], "%s: lengths %r, sequence %i in the batch, vs alone" % (case["net"], lens, b))
                    ctx.trans()
                    ctx.outcome((case["net"], got.shape, len(lens)))
    ctx.sample(dict(case))


def _run_loss(case, ctx, net_, run_, tuples):
    import numpy as np
    import tensorflow as tf

    d = NETS[case["net"]]
    order = case["order"]
    losses, total, _ = net_.net.get_losses_initialized(with_total=True)
    expect_eq(len(losses), 1, "one loss")
    (h,) = losses.values()
    fetch = dict(loss=h.get_loss_value(), norm=tf.cast(1 / h.get_norm_factor(), tf.float32), grad=tf.gradients(h.get_loss_value(), net_.net.extern_data.data["data"].placeholder)[0], total=total)
    if h.get_error_value() is not None:
        fetch["error"] = h.get_error_value()
    alone = {}
    for lens in tuples:
        if sum(lens) == 0:
            continue
        seeds = [3 * b + n + len(lens) for b, n in enumerate(lens)]
        res = run_(lens, seeds, 2.0, fetch)
        ctx.trace()
        ctx.state((case["net"], order, lens))
        sums = {k: 0.0 for k in fetch if k not in ("grad", "total")}
        grad = res["grad"].transpose([order.index(c) for c in "BTF"])
        for b, n in enumerate(lens):
            if n:
                key = (n, seeds[b])
                if key not in alone:
                    alone[key] = run_([n], [seeds[b]], 0.0, fetch)
                for k in sums:
                    sums[k] += float(alone[key][k])
                _close(grad[b, :n], alone[key]["grad"].transpose([order.index(c) for c in "BTF"])[0], d["tol"], "%s: lengths %r: gradient w.r.t. the input for sequence %i in the batch, vs alone" % (case["net"], lens, b))
            _close(grad[b, n:], np.zeros_like(grad[b, n:]), 0, "%s: lengths %r: gradient w.r.t. the padded frames of sequence %i" % (case["net"], lens, b))
            ctx.trans()
        for k in sums:
            _close(np.array(res[k]), np.array(sums[k]), 1e-3, "%s: lengths %r: %s of the batch, vs sum over the sequences alone" % (case["net"], lens, k))
        ctx.outcome((case["net"], lens))
    ctx.sample(dict(case))


def _ylen(n, seed, lo):
    return max(lo, (n * 3 + seed) % 5)


def _close(got, want, tol, what):
    import numpy as np

    if got.size == 0 and want.size == 0:
        return
    if got.shape != want.shape:
        raise Violation("%s: shape %r, expected %r" % (what, got.shape, want.shape))
    if not np.allclose(np.asarray(got, dtype="float64"), np.asarray(want, dtype="float64"), rtol=tol, atol=tol, equal_nan=True):
        raise Violation(key="concat-dynamic-axis" if what.startswith("concat-time") else None, msg="%s: got %s expected %s" % (what, np.asarray(got).tolist(), np.asarray(want).tolist()))


if __name__ == "__main__":
    harness.main(__name__)
