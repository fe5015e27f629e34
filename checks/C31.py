"""C31: what a sequence gets does not depend on the other sequences of the batch nor on the padding; reductions over ragged dims cover exactly the valid frames."""
import importlib, itertools, math
from vlib import harness, rft
from vlib.harness import Violation, expect, expect_eq

PID = "C31"
LEVEL = "model_checking"
RULE = (
    "case = (op/module, axis order); run_case enumerates all batches (all tuples of sequence lengths up to the bound) and poison values in the padding, executed on the real frontend;"
    " oracle = the same sequence alone in a batch of one without padding (and a direct per-element reference for reductions over several dims);"
    " state = (op, lengths, poison)"
)
BOUNDS = {
    "quick": "batches of 1-3 seqs, all length tuples up to length 4-5 (two ragged inputs: 2 seqs, lengths up to 3 x 3), padding values {1e4, -1e4, nan where masking has to hide it}, axis orders",
    "thorough": "lengths up to 6-7, 3 seqs for two ragged inputs",
}
ASSUMPTIONS = ["torch backend on CPU", "behavior_version 24 (masking by default), eval mode, except batch norm in train mode with use_mask", "float tolerance 1e-4"]
BV = 24


def parent_init():
    rft.init(BV)
    import returnn.frontend.encoder.conformer, returnn.frontend.encoder.transformer, returnn.frontend.encoder.e_branchformer, returnn.frontend.decoder.transformer  # noqa


# ---- ops on one ragged input. signature: (rf, B, T, F, x) -> [(tensor, dims)]


def _seed_params(mod, salt=0):
    import torch

    for k, (name, p) in enumerate(sorted(mod.named_parameters())):
        raw = p.raw_tensor
        n = raw.numel()
        v = torch.sin(torch.arange(n, dtype=torch.float32) * 1.7 + k + salt + 1) * 0.5
        if name.endswith("running_variance"):
            v = v.abs() + 0.5
        if "norm" in name and name.endswith("scale"):
            v = v + 1.0
        with torch.no_grad():
            raw.copy_(v.reshape(raw.shape).to(raw.dtype))
    return mod


_mods = {}


def _mod(key, make):
    if key not in _mods:
        _mods[key] = _seed_params(make())
    return _mods[key]


def _dim(n, name, _cache={}):
    return _cache.setdefault((n, name), rft.static(n, name))


def _ops():
    """name -> (func, options)"""
    import returnn.frontend as rf
    from returnn.tensor import Dim

    ops = {}

    def add(name, func, **opts):
        assert name not in ops
        ops[name] = (func, opts)

    NANOK = dict(poison=["nan", 1e4, -1e4])
    for m in "sum max min mean logsumexp logmeanexp argmax argmin".split():
        add(f"reduce_{m}", lambda B, T, F, x, m=m: [(getattr(rf, "reduce_" + m)(x, axis=T), [B, F])], minlen=1, **NANOK)
    for m in "sum max min mean logsumexp".split():
        add(f"reduce_{m}_TF", lambda B, T, F, x, m=m: [(rf.reduce(x, mode=m, axis=[T, F]), [B])], minlen=1, **NANOK)
        add(f"reduce_{m}_FT", lambda B, T, F, x, m=m: [(rf.reduce(x, mode=m, axis=[F, T]), [B])], minlen=1, **NANOK)
    add("reduce_sum0", lambda B, T, F, x: [(rf.reduce_sum(x, axis=T), [B, F])], **NANOK)
    for m in ("any", "all"):
        add(f"reduce_{m}", lambda B, T, F, x, m=m: [(rf.reduce(x > 0.0, mode=m, axis=T), [B, F])], poison=[1e4, -1e4])
    add("softmax", lambda B, T, F, x: [(rf.softmax(x, axis=T), [B, T, F])], **NANOK)
    add("log_softmax", lambda B, T, F, x: [(rf.log_softmax(x, axis=T), [B, T, F])], **NANOK)
    add("moments", lambda B, T, F, x: [(t, [B, F]) for t in rf.moments(x, axis=T)], minlen=1, **NANOK)
    add("moments_corr", lambda B, T, F, x: [(t, [B, F]) for t in rf.moments(x, axis=T, correction=1)], minlen=2, **NANOK)
    add("moments_TF", lambda B, T, F, x: [(t, [B]) for t in rf.moments(x, axis=[T, F])], minlen=1, **NANOK)
    add("normalize", lambda B, T, F, x: [(rf.normalize(x, axis=T), [B, T, F])], minlen=1, **NANOK)
    add("cumsum", lambda B, T, F, x: [(rf.cumsum(x, spatial_dim=T), [B, T, F])], **NANOK)
    add("top_k", lambda B, T, F, x: _topk(rf, B, T, F, x), minlen=2, **NANOK)
    add("num_elements", lambda B, T, F, x: [(rf.num_elements_of_shape([T, F]), [B])])
    for n, cls in [("LayerNorm", rf.LayerNorm), ("RMSNorm", rf.RMSNorm)]:
        add(n, lambda B, T, F, x, n=n, cls=cls: [(_mod((n, F), lambda: cls(F))(x), [B, T, F])])
        # over the time
    add("GroupNorm", lambda B, T, F, x: [(_mod(("gn", F), lambda: rf.GroupNorm(F, num_groups=2))(x), [B, T, F])])
    add("BatchNorm_eval", lambda B, T, F, x: [(_mod(("bn", F), lambda: rf.BatchNorm(F, use_mask=True))(x), [B, T, F])])

    # attention
    def dot_att(B, T, F, x):
        q, T2 = rf.replace_dim(x, in_dim=T)
        return [(rf.dot_attention(q, x, x, key_dim=F, axis=T), [B, T2, F])]

    add("dot_attention", dot_att)
    kd, vd = _dim(8, "kd"), _dim(4, "vd")
    att_common = dict(key_dim_total=kd, value_dim_total=vd, num_heads=2, att_dropout=0.0)
    for n, cls in [("SelfAttention", rf.SelfAttention), ("CausalSelfAttention", rf.CausalSelfAttention), ("RelPosSelfAttention", rf.RelPosSelfAttention),
                   ("RotaryPosSelfAttention", rf.RotaryPosSelfAttention), ("RotaryPosCausalSelfAttention", rf.RotaryPosCausalSelfAttention), ("RelPosCausalSelfAttention", rf.RelPosCausalSelfAttention)]:
        def f(B, T, F, x, n=n, cls=cls):
            O = _dim(3, "o")
            mod = _mod((n, F), lambda: cls(F, O, **att_common))
            r = mod(x, axis=T)
            if isinstance(r, tuple):
                r = r[0]
            return [(r, [B, T, O])]

        add(n, f, minlen=1)

    def relpos_learned(B, T, F, x):
        O = _dim(3, "o")
        mod = _mod(("rl", F), lambda: rf.RelPosSelfAttention(F, O, learnable_pos_emb=True, learnable_pos_emb_clipping=2, **att_common))
        return [(mod(x, axis=T), [B, T, O])]

    add("RelPosSelfAttention_learned", relpos_learned, minlen=1)

    # conv, pool
    for k, s, pad, dil in [(1, 1, "same", 1), (3, 1, "same", 1), (2, 1, "same", 1), (3, 2, "same", 1), (2, 2, "same", 1), (4, 3, "same", 1), (3, 1, "valid", 1), (2, 2, "valid", 1), (3, 2, "valid", 1), (3, 1, "same", 2), (3, 2, "same", 2), (2, 1, "valid", 2)]:
        def f(B, T, F, x, k=k, s=s, pad=pad, dil=dil):
            O = _dim(2, "co")
            mod = _mod(("conv", k, s, pad, dil, F), lambda: rf.Conv1d(F, O, k, padding=pad, strides=s, dilation_rate=dil))
            r, T2 = mod(x, in_spatial_dim=T)
            return [(r, [B, T2, O])]

        add(f"Conv1d_{k}_{s}_{pad}_{dil}", f, minlen=1 if pad == "same" else (k - 1) * dil + 1)
        if dil == 1:
            for mode in ("max", "avg"):
                def g(B, T, F, x, k=k, s=s, pad=pad, mode=mode):
                    r, T2 = rf.pool1d(x, mode=mode, pool_size=k, padding=pad, strides=s, in_spatial_dim=T)
                    return [(r, [B, T2, F])]

                add(f"pool1d_{mode}_{k}_{s}_{pad}", g, minlen=1 if pad == "same" else k)

    def depthwise(B, T, F, x):
        mod = _mod(("dw", F), lambda: rf.Conv1d(F, F, 3, groups=F.dimension, padding="same"))
        r, T2 = mod(x, in_spatial_dim=T)
        return [(r, [B, T2, F])]

    add("Conv1d_depthwise", depthwise, minlen=1)

    def conv2d(B, T, F, x):
        Ch, O = _dim(1, "ch"), _dim(2, "co")
        x = rf.expand_dim(x, Ch)
        mod = _mod(("c2", F), lambda: rf.Conv2d(Ch, O, (3, 2), padding="same", strides=(2, 1)))
        r, (T2, F2) = mod(x, in_spatial_dims=[T, F])
        return [(r, [B, T2, F2, O])]

    add("Conv2d", conv2d, minlen=1)

    for w, st, pad in [(3, 1, "same"), (2, 1, "same"), (3, 2, "same"), (3, 1, "valid"), (2, 2, "valid")]:
        def f(B, T, F, x, w=w, st=st, pad=pad):
            W = _dim(w, "win")
            r, T2 = rf.window(x, spatial_dim=T, window_dim=W, padding=pad, pad_value=0.0, stride=st, use_mask=True)
            return [(r, [B, T2, W, F])]

        add(f"window_{w}_{st}_{pad}", f, minlen=1 if pad == "same" else w)

    # rec
    def lstm(B, T, F, x):
        H = _dim(3, "h")
        mod = _mod(("lstm", F), lambda: rf.LSTM(F, H))
        r, st = mod(x, state=mod.default_initial_state(batch_dims=[B]), spatial_dim=T)
        return [(r, [B, T, H]), (st.h, [B, H]), (st.c, [B, H])]

    add("LSTM", lstm, minlen=1)
    # signal
    def stft(B, T, F, x):
        x = rf.gather(x, indices=0, axis=F)
        r, T2, F2 = rf.stft(x, in_spatial_dim=T, frame_step=1, frame_length=2, fft_length=2)
        return [(rf.abs(r), [B, T2, F2])]

    add("stft", stft, minlen=2)

    def logmel(B, T, F, x):
        x = rf.gather(x, indices=0, axis=F)
        O = _dim(2, "mel")
        r, T2 = rf.audio.log_mel_filterbank_from_raw(x, in_spatial_dim=T, out_dim=O, sampling_rate=100, window_len=0.02, step_len=0.01, n_fft=8)
        return [(r, [B, T2, O])]

    add("log_mel", logmel, minlen=2, poison=[1e4, -1e4])
    # encoders
    def conformer_layer(B, T, F, x):
        D = _dim(4, "model")
        lin = _mod(("cl", F), lambda: rf.Linear(F, D))
        mod = _mod(("conf", F), lambda: importlib.import_module("returnn.frontend.encoder.conformer").ConformerEncoderLayer(D, ff_dim=_dim(5, "ff"), num_heads=2, conv_kernel_size=3, conv_norm_opts=dict(use_mask=True)))
        return [(mod(lin(x), spatial_dim=T), [B, T, D])]

    add("ConformerEncoderLayer", conformer_layer, minlen=1, poison=[100.0, -100.0])

    def subsample(B, T, F, x):
        mod = _mod(("sub", F), lambda: importlib.import_module("returnn.frontend.encoder.conformer").ConformerConvSubsample(F, out_dims=[_dim(2, "o1"), _dim(3, "o2")], filter_sizes=[(3, 3), (3, 3)], strides=[(1, 1), (2, 1)], pool_sizes=[(1, 1), (1, 1)]))
        r, T2 = mod(x, in_spatial_dim=T)
        return [(r, [B, T2, mod.out_dim])]

    add("ConformerConvSubsample", subsample, minlen=1, poison=[100.0, -100.0])

    def subsample_pool(B, T, F, x):
        mod = _mod(("subp", F), lambda: importlib.import_module("returnn.frontend.encoder.conformer").ConformerConvSubsample(F, out_dims=[_dim(2, "o1"), _dim(3, "o2")], filter_sizes=[(3, 3), (2, 2)], pool_sizes=[(2, 1), (1, 1)]))
        r, T2 = mod(x, in_spatial_dim=T)
        return [(r, [B, T2, mod.out_dim])]

    add("ConformerConvSubsample_pool", subsample_pool, minlen=1, poison=[100.0, -100.0])

    def ebranch(B, T, F, x):
        D = _dim(4, "model")
        lin = _mod(("cl", F), lambda: rf.Linear(F, D))
        from returnn.frontend.encoder.e_branchformer import EBranchformerLayer

        mod = _mod(("ebr", F), lambda: EBranchformerLayer(D, ff_dim=_dim(5, "ff"), num_heads=2, cgmlp_ff_dim=_dim(6, "cg"), cgmlp_conv_kernel=3))
        return [(mod(lin(x), spatial_dim=T), [B, T, D])]

    add("EBranchformerLayer", ebranch, minlen=1, poison=[100.0, -100.0])

    def tr_enc(B, T, F, x):
        V, D = _dim(5, "vocab"), _dim(4, "model")
        ids = rf.cast(rf.clip_by_value(rf.round(rf.reduce_sum(x, axis=F) * 3.0), 0.0, 4.0), "int32")
        ids.sparse_dim = V
        mod = _mod(("tre", F), lambda: importlib.import_module("returnn.frontend.encoder.transformer").TransformerEncoder(V, D, num_layers=1, num_heads=2))
        return [(mod(ids, spatial_dim=T), [B, T, D])]

    add("TransformerEncoder", tr_enc, minlen=1, poison=[100.0, -100.0])

    def tr_dec_seq(B, T, F, x):
        V, D = _dim(5, "vocab"), _dim(4, "model")
        ids = rf.cast(rf.clip_by_value(rf.round(rf.reduce_sum(x, axis=F) * 3.0), 0.0, 4.0), "int32")
        ids.sparse_dim = V
        lin = _mod(("tdl", F), lambda: rf.Linear(F, D))
        mod = _mod(("trd", F), lambda: importlib.import_module("returnn.frontend.decoder.transformer").TransformerDecoder(D, V, D, num_layers=1, num_heads=2))
        enc = mod.transform_encoder(lin(x), axis=T)
        ids2, T2 = rf.replace_dim(ids, in_dim=T)
        r, _ = mod(ids2, spatial_dim=T2, state=mod.default_initial_state(batch_dims=[B]), encoder=enc)
        return [(r, [B, T2, V])]

    add("TransformerDecoder", tr_dec_seq, minlen=1, poison=[100.0, -100.0])

    # losses
    def ce(B, T, F, x):
        ids = rf.cast(rf.clip_by_value(rf.round(rf.reduce_sum(x, axis=F)), 0.0, 1.0), "int32")
        ids.sparse_dim = F
        r = rf.cross_entropy(target=ids, estimated=x, axis=F, estimated_type="logits")
        return [(r, [B, T]), (rf.reduce_mean(r, axis=T), [B])]

    add("cross_entropy", ce, minlen=1, poison=[100.0, -100.0])
    return ops


def _topk(rf, B, T, F, x):
    v, i, K = rf.top_k(x, axis=T, k=2)
    return [(v, [B, K, F]), (i, [B, K, F])]


def _ops2():
    """two ragged inputs. (B, T, S, F, x[B,T,F], y[B,S,F]) -> ..."""
    import returnn.frontend as rf

    ops = {}

    def att(B, T, S, F, x, y):
        return [(rf.dot_attention(y, x, x, key_dim=F, axis=T), [B, S, F])]

    ops["cross_dot_attention"] = (att, {})

    def catt(B, T, S, F, x, y):
        O = _dim(3, "o")
        mod = _mod(("catt", F), lambda: rf.CrossAttention(F, F, O, key_dim_total=_dim(4, "kd"), value_dim_total=_dim(4, "vd"), num_heads=2, att_dropout=0.0))
        enc = mod.transform_encoder(x, axis=T)
        return [(mod(y, enc), [B, S, O])]

    ops["CrossAttention"] = (catt, {})

    def editd(B, T, S, F, x, y):
        a = rf.cast(rf.clip_by_value(rf.round(rf.reduce_sum(x, axis=F) * 3.0), 0.0, 2.0), "int32")
        b = rf.cast(rf.clip_by_value(rf.round(rf.reduce_sum(y, axis=F) * 3.0), 0.0, 2.0), "int32")
        a.sparse_dim = b.sparse_dim = _dim(3, "v")
        return [(rf.edit_distance(a, T, b, S), [B])]

    ops["edit_distance"] = (editd, dict(minlen2=0, poison=[0.5, 100.0, 0.2]))

    def ctc(B, T, S, F, x, y):
        V = _dim(3, "v")
        lin = _mod(("ctc", F), lambda: rf.Linear(F, V))
        b = rf.cast(rf.clip_by_value(rf.round(rf.reduce_sum(y, axis=F)), 0.0, 1.0), "int32")
        b.sparse_dim = V
        return [(rf.ctc_loss(logits=lin(x), targets=b, input_spatial_dim=T, targets_spatial_dim=S, blank_index=2), [B])]

    ops["ctc_loss"] = (ctc, dict(poison=[1.0, 100.0]))

    def gather_last(B, T, S, F, x, y):
        idx = rf.minimum(rf.cast(rf.range_over_dim(S), "int32"), rf.copy_to_device(T.get_dyn_size_ext_for_device("cpu"), "cpu") - 1)
        idx.sparse_dim = T
        return [(rf.gather(x, indices=idx, axis=T), [B, S, F])]

    ops["gather"] = (gather_last, {})
    return ops


def _x(b, t, f, salt=0):
    return math.sin(b * 2.3 + t * 1.1 + f * 0.7 + salt) * 0.8 + 0.1


def gen_cases(tier):
    q = tier == "quick"
    names = list(_ops())
    for n in names:
        for order in (["BTF", "TBF"] if q else ["BTF", "TBF", "FTB", "BFT"]):
            if n in ("TransformerEncoder", "TransformerDecoder", "ConformerEncoderLayer", "EBranchformerLayer"):
                mx = 4 if q else 5
            else:
                mx = 5 if q else 6
            yield dict(t="one", op=n, order=order, maxlen=mx)
    for n in _ops2():
        for order in ("BTF", "TBF"):
            yield dict(t="two", op=n, order=order, maxlen=3, nb=2 if q else 3)
    for order in ("BTF", "TBF", "FTB", "FBT", "BFT", "TFB"):
        yield dict(t="multi", order=order, maxlen=4 if q else 5)
    for order in ("BTF", "TBF"):
        yield dict(t="bn", order=order, maxlen=4 if q else 5)
    yield dict(t="use_mask_false", maxlen=4)
    yield dict(t="running_mean", maxlen=4)


def _get(outs, info):
    r = []
    for t, dims in outs:
        try:
            r.append(rft.get(t, dims))
        except ValueError as exc:
            raise Violation(f"{info}: {exc}")
    return r


def _cmp(got, outs, alone, b, info):
    for k, ((t, dims), g, al) in enumerate(zip(outs, got, alone)):
        mine = {key[1:]: v for key, v in g.items() if key[0] == b}
        d = rft.diff(mine, {key[1:]: v for key, v in al.items()}, 2e-4)
        if d:
            raise Violation(f"{info}: output {k} of seq {b} differs from the one computed alone: {d}")


def _mkx(B, T, F, order, poison, lens, ids, salt=0):
    import torch

    ds = {"B": B, "T": T, "F": F}
    dims = [ds[c] for c in order]
    pb, pt, pf = order.index("B"), order.index("T"), order.index("F")
    return rft.mk(dims, lambda i: _x(ids[i[pb]], i[pt], i[pf], salt), pad=poison, feature_dim=F)


def _case_one(case, ctx):
    import itertools as it

    func, opts = _ops()[case["op"]]
    minlen = opts.get("minlen", 0)
    F = _dim(2, "F")
    alone = {}
    order = case["order"]
    for b in range(3):
        for n in range(minlen, case["maxlen"] + 1):
            B = rft.static(1, "B")
            T = rft.dyn([n], [B], "T")
            outs = func(B, T, F, _mkx(B, T, F, order, 0.0, [n], [b]))
            alone[b, n] = _get(outs, f"{case['op']} single seq of length {n}")
            for o in alone[b, n]:
                for v in o.values():
                    if isinstance(v, float) and (v != v or abs(v) > 1e3):
                        raise Violation(f"{case['op']} of a single seq of length {n} (no padding): value {v}")
    for nb in (1, 2, 3):
        for lens in it.product(range(minlen, case["maxlen"] + 1), repeat=nb):
            if nb == 3 and max(lens) < 3 and case["maxlen"] > 3:
                continue
            for poison in opts.get("poison", [1e4, -1e4]):
                if len(set(lens)) == 1 and poison != opts.get("poison", [1e4])[0]:
                    continue  # no padding at all
                B = rft.static(nb, "B")
                T = rft.dyn(list(lens), [B], "T")
                x = _mkx(B, T, F, order, float(poison), lens, list(range(nb)))
                info = f"{case['op']} lens {lens}, padding {poison}, order {order}"
                outs = func(B, T, F, x)
                got = _get(outs, info)
                for b in range(nb):
                    _cmp(got, outs, alone[b, lens[b]], b, info)
                ctx.trans()
                ctx.state((case["op"], order, lens, poison))
    ctx.trace()


def _case_two(case, ctx):
    import itertools as it

    func, opts = _ops2()[case["op"]]
    F = _dim(2, "F")
    alone = {}
    order = case["order"]
    m2 = opts.get("minlen2", 1)
    rng = list(range(1, case["maxlen"] + 1))
    rng2 = list(range(m2, case["maxlen"] + 1))

    def run(lens, lens2, ids, poison):
        B = rft.static(len(lens), "B")
        T = rft.dyn(list(lens), [B], "T")
        S = rft.dyn(list(lens2), [B], "S")
        x = _mkx(B, T, F, order, poison, lens, ids)
        y = _mkx(B, S, F, order, poison, lens2, ids, salt=5)
        outs = func(B, T, S, F, x, y)
        return outs, _get(outs, f"{case['op']} lens {lens} {lens2}")

    for b in range(case["nb"]):
        for n in rng:
            for m in rng2:
                alone[b, n, m] = run([n], [m], [b], 0.0)[1]
    for lens in it.product(rng, repeat=case["nb"]):
        for lens2 in it.product(rng2, repeat=case["nb"]):
            for poison in opts.get("poison", [1e4, -1e4]):
                outs, got = run(lens, lens2, list(range(case["nb"])), float(poison))
                for b in range(case["nb"]):
                    _cmp(got, outs, alone[b, lens[b], lens2[b]], b, f"{case['op']} lens {lens} and {lens2}, padding {poison}, order {order}")
                ctx.trans()
                ctx.state((case["op"], order, lens, lens2, poison))
    ctx.trace()


def _red_ref(mode, vals):
    if mode == "sum":
        return sum(vals)
    if mode == "max":
        return max(vals)
    if mode == "min":
        return min(vals)
    if mode == "mean":
        return sum(vals) / len(vals)
    if mode == "logsumexp":
        m = max(vals)
        return m + math.log(sum(math.exp(v - m) for v in vals))
    if mode == "logmeanexp":
        m = max(vals)
        return m + math.log(sum(math.exp(v - m) for v in vals) / len(vals))
    if mode == "any":
        return any(v > 0.3 for v in vals)
    if mode == "all":
        return all(v > 0.3 for v in vals)


def _case_multi(case, ctx):
    """reductions over all subsets of dims (in all orders), direct reference"""
    import returnn.frontend as rf, itertools as it

    order = case["order"]
    F = _dim(2, "F")
    for nb in (1, 2, 3):
        for lens in it.product(range(0 if nb > 1 else 1, case["maxlen"] + 1), repeat=nb):
            if max(lens) == 0:
                continue
            B = rft.static(nb, "B")
            T = rft.dyn(list(lens), [B], "T")
            for poison in ("nan", 1e4, -1e4):
                x = _mkx(B, T, F, order, float(poison), lens, list(range(nb)))
                ref = rft.get(x, [B, T, F])
                for axes in ([B, T], [T, B], [B, T, F], [T, F, B], [F, B, T], [F]):
                    keep = [d for d in (B, T, F) if d not in axes]
                    groups = {}
                    for k, v in ref.items():
                        kk = tuple(i for i, d in zip(k, (B, T, F)) if d in keep)
                        groups.setdefault(kk, []).append(v)
                    for mode in "sum max min mean logsumexp logmeanexp any all".split():
                        if mode in ("any", "all") and poison == "nan":
                            continue
                        src = x > 0.3 if mode in ("any", "all") else x
                        r = getattr(rf, "reduce_" + mode)(src, axis=axes)
                        info = f"reduce {mode} over {[d.name for d in axes]}, lens {lens}, padding {poison}, order {order}"
                        got = _get([(r, keep)], info)[0]
                        d = rft.diff(got, {k: _red_ref(mode, v) for k, v in groups.items()}, 1e-4)
                        if d:
                            raise Violation(f"{info}: {d}")
                        ctx.trans()
                    if len(axes) > 1:
                        n = rf.num_elements_of_shape(axes)
                        g = int(n) if isinstance(n, int) else {k: int(v) for k, v in rft.get(n, n.dims).items()}[()]
                        expect_eq(g, len(next(iter(groups.values()))), f"num_elements_of_shape {axes}, lens {lens}")
                        mean, var = rf.moments(x, axis=axes)
                        gm, gv = _get([(mean, keep), (var, keep)], "moments")
                        for k, v in groups.items():
                            m = sum(v) / len(v)
                            expect(rft.same(gm[k], m, 1e-4) and rft.same(gv[k], sum((a - m) ** 2 for a in v) / len(v), 1e-3), lambda: f"moments over {[d.name for d in axes]}, lens {lens}, padding {poison}: {gm[k]}, {gv[k]} expected mean {m}")
                ctx.state(("multi", order, lens, poison))
    ctx.trace()


def _case_bn(case, ctx):
    """batch norm with use_mask in training: statistics and running stats over exactly the valid frames"""
    import returnn.frontend as rf, itertools as it, torch

    order = case["order"]
    F = _dim(2, "F")
    for nb in (1, 2, 3):
        for lens in it.product(range(1, case["maxlen"] + 1), repeat=nb):
            if sum(lens) < 2:
                continue
            for poison in ("nan", 1e4):
                rf.init_train_step_run_ctx(train_flag=True, step=0)
                try:
                    B = rft.static(nb, "B")
                    T = rft.dyn(list(lens), [B], "T")
                    x = _mkx(B, T, F, order, float(poison), lens, list(range(nb)))
                    mod = _seed_params(rf.BatchNorm(F, use_mask=True))
                    st0 = {n: p.raw_tensor.detach().clone() for n, p in mod.named_parameters()}
                    y = mod(x)
                finally:
                    rf.init_forward_step_run_ctx()
                ref = rft.get(x, [B, T, F])
                got = _get([(y, [B, T, F])], "batch norm")[0]
                for f in range(F.dimension):
                    vals = [v for k, v in ref.items() if k[2] == f]
                    m = sum(vals) / len(vals)
                    var = sum((v - m) ** 2 for v in vals) / len(vals)
                    ga, be = float(st0["gamma"][f]), float(st0["beta"][f])
                    for k, v in ref.items():
                        if k[2] == f:
                            e = (v - m) / math.sqrt(var + mod.eps) * ga + be
                            expect(rft.same(got[k], e, 1e-3), lambda: f"batch norm (train, use_mask) lens {lens}, padding {poison}, order {order} at {k}: {got[k]}, expected {e}")
                    rm = float(mod.running_mean.raw_tensor[f])
                    e = float(st0["running_mean"][f]) * 0.9 + 0.1 * m
                    expect(rft.same(rm, e, 1e-3), lambda: f"batch norm running mean, lens {lens}, padding {poison}: {rm}, expected {e}")
                    rv = float(mod.running_variance.raw_tensor[f])
                    n = len(vals)
                    ok = [float(st0["running_variance"][f]) * 0.9 + 0.1 * vv for vv in (var, var * n / (n - 1))]
                    expect(any(rft.same(rv, e, 1e-3) for e in ok), lambda: f"batch norm running variance, lens {lens}, padding {poison}: {rv}, expected {ok}")
                ctx.trans()
                ctx.state(("bn", order, lens, poison))
    ctx.trace()


def _case_running_mean(case, ctx):
    import returnn.frontend as rf, itertools as it

    F = _dim(2, "F")
    for order in ("BTF", "FTB"):
        mod = _seed_params(rf.RunningMean(F, alpha=0.25, update_only_in_train=False))
        cur = [float(v) for v in mod.mean.raw_tensor]
        for lens in it.product(range(1, case["maxlen"] + 1), repeat=2):
            B = rft.static(2, "B")
            T = rft.dyn(list(lens), [B], "T")
            x = _mkx(B, T, F, order, float("nan"), lens, [0, 1])
            ref = rft.get(x, [B, T, F])
            mod(x)
            for f in range(2):
                vals = [v for k, v in ref.items() if k[2] == f]
                cur[f] += 0.25 * (sum(vals) / len(vals) - cur[f])
                expect(rft.same(float(mod.mean.raw_tensor[f]), cur[f], 1e-3), lambda: f"RunningMean lens {lens}: {mod.mean.raw_tensor}, expected {cur}")
            ctx.trans()
            ctx.state(("rm", order, lens))
    ctx.trace()


def _case_use_mask_false(case, ctx):
    """use_mask=False: plain ops on the padded data"""
    import returnn.frontend as rf, itertools as it

    F = _dim(2, "F")
    for lens in it.product(range(1, case["maxlen"] + 1), repeat=2):
        B = rft.static(2, "B")
        T = rft.dyn(list(lens), [B], "T")
        x = _mkx(B, T, F, "BTF", 0.25, lens, [0, 1])
        raw = x.raw_tensor
        for mode, e in [("sum", raw.sum(1)), ("max", raw.amax(1)), ("mean", raw.mean(1)), ("min", raw.amin(1)), ("logsumexp", raw.logsumexp(1))]:
            r = rf.reduce(x, mode=mode, axis=T, use_mask=False)
            expect(bool((abs(r.copy_compatible_to_dims_raw([B, F]) - e) < 1e-5).all()), lambda: f"reduce {mode} use_mask=False lens {lens}: {r.raw_tensor} vs {e}")
        r = rf.softmax(x, axis=T, use_mask=False).copy_compatible_to_dims_raw([B, T, F])
        expect(bool((abs(r - raw.softmax(1)) < 1e-5).all()), "softmax use_mask=False")
        m, v = rf.moments(x, axis=T, use_mask=False)
        expect(bool((abs(v.copy_compatible_to_dims_raw([B, F]) - raw.var(1, unbiased=False)) < 1e-5).all()), lambda: f"moments use_mask=False lens {lens}: variance {v.raw_tensor}, expected {raw.var(1, unbiased=False)}")
        ctx.trans()
        ctx.state(("nomask", lens))
    ctx.trace()


def run_case(case, ctx):
    import torch

    with torch.no_grad():
        globals()["_case_" + case["t"]](case, ctx)
    ctx.outcome(case["t"] + case.get("op", ""))


def check_vacuity(total):
    if total.transitions < 20000:
        return f"only {total.transitions} evaluations"


if __name__ == "__main__":
    harness.main(__name__)
