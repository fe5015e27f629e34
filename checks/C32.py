"""C32: array ops on ragged tensors do per sequence what they say (slice, shift, pad, reverse, pack, mask, gather, scatter, window, merge/split dims, top_k, ...)."""
import importlib, itertools, math
from vlib import harness, rft
from vlib.harness import Violation, expect, expect_eq

PID = "C32"
LEVEL = "model_checking"
RULE = (
    "case = (op, options, axis order); run_case enumerates all batches (all tuples of sequence lengths up to the bound, all masks resp. all index tensors for small sizes),"
    " executed on the real frontend with poisoned padding; oracle = list/dict semantics per sequence; state = (op, options, lengths, order)"
)
BOUNDS = {
    "quick": "batches of 1-3 seqs, all length tuples up to 4, options (start/end/size/step/amount/padding) over all small values, all boolean masks for <=6 frames, all index tensors over <=3 targets for <=4 frames, axis orders",
    "thorough": "lengths up to 5, masks for <=8 frames, all axis orders",
}
ASSUMPTIONS = ["torch backend on CPU", "behavior_version 24"]


def parent_init():
    rft.init(24)


def _val(b, t, f):
    return b * 100.0 + t * 10.0 + f + 1.0


class W:
    """one batch"""

    def __init__(self, lens, order="BTF", nf=2, poison=float("nan"), dtype="float32", func=_val):
        self.lens = list(lens)
        self.B = rft.static(len(lens), "B")
        self.T = rft.dyn(self.lens, [self.B], "T")
        self.F = rft.static(nf, "F")
        ds = dict(B=self.B, T=self.T, F=self.F)
        dims = [ds[c] for c in order]
        pb, pt = order.index("B"), order.index("T")
        pf = order.index("F") if "F" in order else None
        self.x = rft.mk(dims, lambda i: func(i[pb], i[pt], i[pf] if pf is not None else 0), pad=poison, dtype=dtype)
        self.nf = nf
        self.func = func
        self.seqs = [[[func(b, t, f) for f in range(nf)] for t in range(n)] for b, n in enumerate(self.lens)]


def _as_dict(seqs):
    """[b][t][f] -> dict"""
    return {(b, t, f): v for b, s in enumerate(seqs) for t, fr in enumerate(s) for f, v in enumerate(fr)}


def _check(t, dims, exp, info, tol=1e-5):
    try:
        got = rft.get(t, dims)
    except ValueError as exc:
        raise Violation(f"{info}: {exc}")
    d = rft.diff(got, exp, tol)
    if d:
        raise Violation(f"{info}: {d}")


def gen_cases(tier):
    q = tier == "quick"
    ml = 4 if q else 5
    orders = ["BTF", "TBF", "FTB"] if q else ["BTF", "TBF", "FTB", "BFT", "TFB", "FBT"]
    for order in orders:
        for t in ("slice_end", "slice_size", "shift", "reverse", "pad", "pack", "select1", "gather", "window", "merge", "split", "concat", "cum_concat", "topk", "misc"):
            yield dict(t=t, order=order, maxlen=ml)
        for nmask in range(3):
            yield dict(t="mask", order=order, part=nmask, maxbits=6 if q else 8)
        for mode in ("sum", "max", "min", "logsumexp", "logmeanexp", "argmax"):
            for fill in {"argmax": [-1, 99], "sum": [None, 7], "max": [None, 7], "min": [None, -7]}.get(mode, [None]):
                yield dict(t="scatter", mode=mode, fill=fill, order=order, maxfr=4 if q else 5)
    for order in ("BTK", "KTB", "TKB"):
        yield dict(t="select2", order=order)
    yield dict(t="search_sorted")
    yield dict(t="static", maxlen=4)
    for part in range(8):
        yield dict(t="struct_gather", part=part)
        yield dict(t="struct_scatter", part=part)
    yield dict(t="struct_sorted")
    yield dict(t="struct_range")
    yield dict(t="struct_mask")
    yield dict(t="struct_meta")


def _batches(maxlen, minlen=0, nbs=(1, 2, 3), need=True):
    for nb in nbs:
        for lens in itertools.product(range(minlen, maxlen + 1), repeat=nb):
            if max(lens) == 0:
                continue
            if nb == 3 and max(lens) < maxlen:
                continue
            yield lens


def _case_slice_end(case, ctx):
    import returnn.frontend as rf

    for lens in _batches(case["maxlen"], nbs=(1, 2)):
        for start in (None, 0, 1, 2):
            for end in (None, -1, -2, 1, 2, 3):
                s = start or 0
                if end is not None and end > 0 and (min(lens) < end or end < s):
                    continue  # outside of the seq
                if end is None and min(lens) < s or (end is not None and end < 0 and min(lens) < s - end):
                    continue
                for step in (None, 1, 2, 3):
                    w = W(lens, case["order"])
                    r, T2 = rf.slice(w.x, axis=w.T, start=start, end=end, step=step)
                    exp = [q[s : end if end is None or end > 0 else len(q) + end : step] for q in w.seqs]
                    _check(r, [w.B, T2, w.F], _as_dict(exp), f"slice start={start} end={end} step={step}, lens {lens}, order {case['order']}")
                    ctx.trans()
                    ctx.state(("se", lens, start, end, step, case["order"]))
        for start in (-1, -2, -3):
            for end in (None, -1, -2):
                if min(lens) < -start or (end is not None and end <= start):
                    continue
                if len(set(lens)) > 1:
                    continue  # negative start is relative to the padded length
                w = W(lens, case["order"])
                r, T2 = rf.slice(w.x, axis=w.T, start=start, end=end)
                _check(r, [w.B, T2, w.F] if T2.dimension is None else [w.B, T2, w.F], _as_dict([q[start:end] for q in w.seqs]), f"slice start={start} end={end}, lens {lens}, order {case['order']}")
                ctx.trans()
    ctx.trace()


def _case_slice_size(case, ctx):
    import returnn.frontend as rf, torch
    from returnn.tensor import Tensor

    for lens in _batches(case["maxlen"], minlen=1, nbs=(1, 2)):
        for start in (0, 1, 2):
            for size in range(0, case["maxlen"] + 1):
                if start + size > min(lens):
                    continue
                w = W(lens, case["order"])
                r, T2 = rf.slice(w.x, axis=w.T, start=start, size=size)
                _check(r, [w.B, T2, w.F], _as_dict([q[start : start + size] for q in w.seqs]), f"slice start={start} size={size}, lens {lens}, order {case['order']}")
                ctx.trans()
                ctx.state(("ss", lens, start, size, case["order"]))
        # size per seq
        for sizes in itertools.product(range(0, max(lens) + 1), repeat=len(lens)):
            if any(s > n for s, n in zip(sizes, lens)) or max(sizes) == 0:
                continue
            w = W(lens, case["order"])
            S = rft.dyn(list(sizes), [w.B], "S")
            r, T2 = rf.slice(w.x, axis=w.T, size=S)
            _check(r, [w.B, S, w.F], _as_dict([q[:s] for q, s in zip(w.seqs, sizes)]), f"slice size=dim {sizes}, lens {lens}")
            ctx.trans()
            ctx.state(("sd", lens, sizes, case["order"]))
    ctx.trace()


def _case_shift(case, ctx):
    import returnn.frontend as rf

    for lens in _batches(case["maxlen"]):
        for amount in (1, 2, 3):
            w = W(lens, case["order"])
            r = rf.shift_right(w.x, axis=w.T, pad_value=-7.0, amount=amount)
            exp = [([[-7.0] * w.nf] * amount + q)[: len(q)] for q in w.seqs]
            _check(r, [w.B, w.T, w.F], _as_dict(exp), f"shift_right by {amount}, lens {lens}, order {case['order']}")
            r = rf.shift_left(w.x, axis=w.T, pad_value=-7.0, amount=amount)
            exp = [(q + [[-7.0] * w.nf] * amount)[amount:] for q in w.seqs]
            _check(r, [w.B, w.T, w.F], _as_dict(exp), f"shift_left by {amount}, lens {lens}, order {case['order']}")
            ctx.trans(2)
            ctx.state(("shift", lens, amount, case["order"]))
    ctx.trace()


def _case_reverse(case, ctx):
    import returnn.frontend as rf

    for lens in _batches(case["maxlen"]):
        w = W(lens, case["order"])
        r = rf.reverse_sequence(w.x, axis=w.T)
        _check(r, [w.B, w.T, w.F], _as_dict([q[::-1] for q in w.seqs]), f"reverse_sequence, lens {lens}, order {case['order']}")
        r2 = rf.reverse_sequence(r, axis=w.T)
        _check(r2, [w.B, w.T, w.F], _as_dict(w.seqs), f"reverse_sequence twice, lens {lens}")
        c = rf.cumsum(w.x, spatial_dim=w.T)
        exp = [[[sum(q[i][f] for i in range(t + 1)) for f in range(w.nf)] for t in range(len(q))] for q in w.seqs]
        _check(c, [w.B, w.T, w.F], _as_dict(exp), f"cumsum, lens {lens}, order {case['order']}")
        ctx.trans(3)
        ctx.state(("rev", lens, case["order"]))
    ctx.trace()


def _case_pad(case, ctx):
    import returnn.frontend as rf, torch
    import numpy as np
    from returnn.tensor import Tensor, Dim

    for lens in _batches(case["maxlen"], nbs=(1, 2, 3)):
        for left in (0, 1, 2):
            for right in (0, 1, 2):
                w = W(lens, case["order"])
                r, (T2,) = rf.pad(w.x, axes=[w.T], padding=[(left, right)], value=-3.0)
                p = [[-3.0] * w.nf]
                _check(r, [w.B, T2, w.F], _as_dict([p * left + q + p * right for q in w.seqs]), f"pad {left},{right}, lens {lens}, order {case['order']}")
                ctx.trans()
                ctx.state(("pad", lens, left, right, case["order"]))
                if len(lens) <= 2:
                    # value per seq and feature
                    v = rft.mk([w.B, w.F], lambda i: -1.0 - i[0] * 10 - i[1])
                    r, (T2,) = rf.pad(w.x, axes=[w.T], padding=[(left, right)], value=v)
                    _check(r, [w.B, T2, w.F], _as_dict([[[-1.0 - b * 10 - f for f in range(w.nf)]] * left + q + [[-1.0 - b * 10 - f for f in range(w.nf)]] * right for b, q in enumerate(w.seqs)]), f"pad {left},{right} with tensor value, lens {lens}, order {case['order']}")
                    # two axes
                    r, (T2, F2) = rf.pad(w.x, axes=[w.T, w.F], padding=[(left, right), (1, 0)], value=-3.0)
                    p = [[-3.0] * (w.nf + 1)]
                    _check(r, [w.B, T2, F2], _as_dict([p * left + [[-3.0] + fr for fr in q] + p * right for q in w.seqs]), f"pad two axes {left},{right}, lens {lens}, order {case['order']}")
                    ctx.trans(2)
                if len(lens) > 2:
                    continue
                # default value; padding given as dims (static, scalar, ragged)
                w = W(lens, case["order"])
                r, (T2,) = rf.pad(w.x, axes=[w.T], padding=[(left, right)])
                p = [[0.0] * w.nf]
                _check(r, [w.B, T2, w.F], _as_dict([p * left + q + p * right for q in w.seqs]), f"pad {left},{right} without value, lens {lens}, order {case['order']}")
                rights = [right, 2 - right][: len(lens)]
                Rd = Dim(rft.mk([w.B], lambda i: rights[i[0]], dtype="int32"), name="R")
                Sd = Dim(rft.mk([], lambda i: left, dtype="int32"), name="S")
                p = [[-3.0] * w.nf]
                for ld, rd, rs in ((Dim(left, name="L"), Rd, rights), (Sd, right, [right] * len(lens)), (left, Rd, rights), (Sd, Rd, rights)):
                    if isinstance(ld, Dim) and ld.dimension == 0:
                        continue
                    r, (T2,) = rf.pad(w.x, axes=[w.T], padding=[(ld, rd)], value=-3.0)
                    _check(r, [w.B, T2, w.F], _as_dict([p * left + q + p * rr for q, rr in zip(w.seqs, rs)]), f"pad {ld},{rd} ({left},{rs}), lens {lens}, order {case['order']}")
                    ctx.trans()
                # other modes, where they are implemented
                for mode in ("reflect", "replicate", "circular"):
                    if min(lens) <= max(left, right):
                        continue
                    try:
                        r, (T2,) = rf.pad(w.x, axes=[w.T], padding=[(left, right)], mode=mode)
                    except NotImplementedError:
                        continue
                    exp = [np.pad(np.array(q), [(left, right), (0, 0)], mode={"reflect": "reflect", "replicate": "edge", "circular": "wrap"}[mode]).tolist() for q in w.seqs]
                    _check(r, [w.B, T2, w.F], _as_dict(exp), f"pad {left},{right} mode {mode}, lens {lens}, order {case['order']}")
                    ctx.trans()
                    ctx.count("pad_" + mode)
    # static dim: all modes
    X, C, Y = Dim(4, name="x"), Dim(2, name="c"), Dim(3, name="y")
    x = rft.mk([Y, C, X], lambda i: 1.0 + i[0] * 100 + i[1] * 10 + i[2])
    for left, right, mode in itertools.product(range(4), range(4), ["constant", "reflect", "replicate", "circular"]):
        r, (X2,) = rf.pad(x, axes=[X], padding=[(left, right)], mode=mode)
        exp = np.pad(x.raw_tensor.numpy(), [(0, 0), (0, 0), (left, right)], mode={"constant": "constant", "reflect": "reflect", "replicate": "edge", "circular": "wrap"}[mode])
        _check(r, [Y, C, X2], {i: float(v) for i, v in np.ndenumerate(exp)}, f"pad static {left},{right} mode {mode}")
        ctx.trans()
        ctx.state(("pads", left, right, mode))
    ctx.trace()


def _case_pack(case, ctx):
    import returnn.frontend as rf

    for lens in _batches(case["maxlen"]):
        w = W(lens, case["order"])
        for dims, flat in [
            ([w.B, w.T], [fr for q in w.seqs for fr in q]),
            ([w.T, w.B], [q[t] for t in range(max(lens)) for q in w.seqs if t < len(q)]),
        ]:
            r, P = rf.pack_padded(w.x, dims=dims)
            _check(r, [P, w.F], {(i, f): v for i, fr in enumerate(flat) for f, v in enumerate(fr)}, f"pack_padded {[d.name for d in dims]}, lens {lens}, order {case['order']}")
            u = rf.pad_packed(r, in_dim=P, dims=dims)
            _check(u, [w.B, w.T, w.F], _as_dict(w.seqs), f"pad_packed {[d.name for d in dims]}, lens {lens}, order {case['order']}")
            ctx.trans(2)
            ctx.state(("pack", lens, dims[0].name, case["order"]))
    ctx.trace()


def _masks(lens):
    n = sum(lens)
    for bits in itertools.product((False, True), repeat=n):
        it = iter(bits)
        yield [[next(it) for _ in range(k)] for k in lens]


def _case_mask(case, ctx):
    """masked_select / masked_scatter, all masks"""
    import returnn.frontend as rf

    allb = [l for l in _batches(4) if sum(l) <= case["maxbits"]]
    for lens in allb[case["part"] :: 3]:
        for mk in _masks(lens):
            w = W(lens, case["order"])
            md = [w.B, w.T] if case["order"].index("B") < case["order"].index("T") else [w.T, w.B]
            mask = rft.mk(md, lambda i: mk[i[md.index(w.B)]][i[md.index(w.T)]], dtype="bool", pad=0)
            info = f"mask {mk}, lens {lens}, order {case['order']}"
            for dims in ([w.B, w.T], [w.T, w.B]):
                if dims[0] is w.B:
                    sel = [(b, t) for b in range(len(lens)) for t in range(lens[b]) if mk[b][t]]
                else:
                    sel = [(b, t) for t in range(max(lens)) for b in range(len(lens)) if t < lens[b] and mk[b][t]]
                r, P = rf.masked_select(w.x, mask=mask, dims=dims)
                _check(r, [P, w.F], {(i, f): w.seqs[b][t][f] for i, (b, t) in enumerate(sel) for f in range(w.nf)}, f"masked_select {[d.name for d in dims]} {info}")
                back = rft.mk([w.B, w.T, w.F], lambda i: -_val(*i), pad=float("nan"))
                u = rf.masked_scatter(r, back, mask=mask, dims=dims, in_dim=P)
                _check(u, [w.B, w.T, w.F], {k: v if mk[k[0]][k[1]] else -v for k, v in _as_dict(w.seqs).items()}, f"masked_scatter {[d.name for d in dims]} {info}")
                ctx.trans(2)
            ctx.state(("mask", lens, str(mk), case["order"]))
    ctx.trace()


def _case_select1(case, ctx):
    """masked_select / masked_scatter over the time dim only, all masks"""
    import returnn.frontend as rf

    for lens in [l for l in _batches(3, nbs=(1, 2)) if sum(l) <= 5]:
        for mk in _masks(lens):
            if not any(any(m) for m in mk):
                continue
            for padmask in (False, True):
                w = W(lens, case["order"])
                # the mask in the padded area can be anything
                mask = rft.mk([w.B, w.T], lambda i: mk[i[0]][i[1]], dtype="bool", pad=int(padmask))
                info = f"over T: mask {mk} (padding {padmask}), lens {lens}, order {case['order']}"
                r, P = rf.masked_select(w.x, mask=mask, dims=[w.T])
                exp = [[fr for fr, m in zip(q, ms) if m] for q, ms in zip(w.seqs, mk)]
                _check(r, [w.B, P, w.F], _as_dict(exp), f"masked_select {info}")
                u = rf.masked_scatter(r, mask=mask, dims=[w.T], in_dim=P)
                _check(u, [w.B, w.T, w.F], {k: v if mk[k[0]][k[1]] else 0 for k, v in _as_dict(w.seqs).items()}, f"masked_scatter {info}")
                u = rf.masked_scatter(r, -w.x, mask=mask, dims=[w.T], in_dim=P)
                _check(u, [w.B, w.T, w.F], {k: v if mk[k[0]][k[1]] else -v for k, v in _as_dict(w.seqs).items()}, f"masked_scatter with backup {info}")
                ctx.trans(3)
            ctx.state(("sel1", lens, str(mk), case["order"]))
    ctx.trace()


def _case_select2(case, ctx):
    """masked_select / masked_scatter over two of three mask dims, in both orders, all masks"""
    import returnn.frontend as rf
    from returnn.tensor import Dim

    K = Dim(2, name="K")
    for lens in [(1,), (2,), (1, 1), (2, 1), (1, 2), (0, 2), (2, 0)]:
        cells = [(b, t, k) for b, l in enumerate(lens) for t in range(l) for k in range(2)]
        for bits in itertools.product([False, True], repeat=len(cells)):
            if not any(bits):
                continue
            on = dict(zip(cells, bits))
            for first in "TK":
                w = W(lens, "BTF")
                dims3 = {"BTK": [w.B, w.T, K], "KTB": [K, w.T, w.B], "TKB": [w.T, K, w.B]}[case["order"]]
                names = case["order"]
                src = rft.mk(dims3, lambda i: 1.0 + 100 * i[names.index("B")] + 10 * i[names.index("T")] + i[names.index("K")])
                mask = rft.mk(dims3, lambda i: on[i[names.index("B")], i[names.index("T")], i[names.index("K")]], dtype="bool", pad=1)
                dims = [w.T, K] if first == "T" else [K, w.T]
                info = f"mask {on} dims {[d.name for d in dims]} lens {lens} order {names}"
                r, P = rf.masked_select(src, mask=mask, dims=dims)
                exp = {}
                for b in range(len(lens)):
                    sel = sorted([c for c in cells if c[0] == b and on[c]], key=lambda c: (c[1], c[2]) if first == "T" else (c[2], c[1]))
                    for i, c in enumerate(sel):
                        exp[b, i] = 1.0 + 100 * c[0] + 10 * c[1] + c[2]
                _check(r, [w.B, P], exp, f"masked_select {info}")
                for back in (None, -src):
                    u = rf.masked_scatter(r, back, mask=mask, dims=dims, in_dim=P)
                    _check(u, [w.B, w.T, K], {c: (1.0 + 100 * c[0] + 10 * c[1] + c[2]) * (1 if on[c] else (0 if back is None else -1)) for c in cells}, f"masked_scatter {info} backup {back is not None}")
                ctx.trans(3)
            ctx.state(("sel2", lens, bits, case["order"]))
    ctx.trace()


def _case_gather(case, ctx):
    import returnn.frontend as rf

    for lens in _batches(3, minlen=1, nbs=(1, 2)):
        nb = len(lens)
        # const
        for i in range(min(lens)):
            w = W(lens, case["order"])
            r = rf.gather(w.x, indices=i, axis=w.T)
            _check(r, [w.B, w.F], {(b, f): w.seqs[b][i][f] for b in range(nb) for f in range(w.nf)}, f"gather const {i}, lens {lens}, order {case['order']}")
            r = rf.gather(w.x, indices=1, axis=w.F)
            _check(r, [w.B, w.T], {(b, t): w.seqs[b][t][1] for b in range(nb) for t in range(lens[b])}, "gather const feature")
        K = rft.static(2, "K")
        # per batch indices [B,K] / [K,B] / [B] / [K]
        for idx in itertools.product(*[range(lens[b]) for b in range(nb) for _ in range(2)]):
            w = W(lens, case["order"])
            tab = [[idx[b * 2 + k] for k in range(2)] for b in range(nb)]
            for dims in ([w.B, K], [K, w.B]):
                ind = rft.mk(dims, lambda i: tab[i[dims.index(w.B)]][i[dims.index(K)]], dtype="int32", sparse_dim=w.T)
                r = rf.gather(w.x, indices=ind)
                _check(r, [w.B, K, w.F], {(b, k, f): w.seqs[b][tab[b][k]][f] for b in range(nb) for k in range(2) for f in range(w.nf)}, f"gather {tab} dims {dims}, lens {lens}, order {case['order']}")
                ctx.trans()
            ind = rft.mk([w.B], lambda i: tab[i[0]][0], dtype="int32", sparse_dim=w.T)
            r = rf.gather(w.x, indices=ind, axis=w.T)
            _check(r, [w.B, w.F], {(b, f): w.seqs[b][tab[b][0]][f] for b in range(nb) for f in range(w.nf)}, f"gather [B] {tab}, lens {lens}, order {case['order']}")
            ctx.state(("gather", lens, str(tab), case["order"]))
        for idx in itertools.product(range(min(lens)), repeat=2):
            w = W(lens, case["order"])
            ind = rft.mk([K], lambda i: idx[i[0]], dtype="int64", sparse_dim=w.T)
            r = rf.gather(w.x, indices=ind)
            _check(r, [w.B, K, w.F], {(b, k, f): w.seqs[b][idx[k]][f] for b in range(nb) for k in range(2) for f in range(w.nf)}, f"gather [K] {idx}, lens {lens}, order {case['order']}")
            ctx.trans()
        # clip to valid
        for idx in itertools.product(range(-2, 5), repeat=nb):
            w = W(lens, case["order"])
            ind = rft.mk([w.B], lambda i: idx[i[0]], dtype="int32", sparse_dim=w.T)
            r = rf.gather(w.x, indices=ind, axis=w.T, clip_to_valid=True)
            _check(r, [w.B, w.F], {(b, f): w.seqs[b][min(max(idx[b], 0), lens[b] - 1)][f] for b in range(nb) for f in range(w.nf)}, f"gather clip {idx}, lens {lens}, order {case['order']}")
            ctx.trans()
        # gather from batch (beam search like)
        for idx in itertools.product(range(nb), repeat=2):
            w = W(lens, case["order"])
            ind = rft.mk([K], lambda i: idx[i[0]], dtype="int32", sparse_dim=w.B)
            st = rft.mk([w.B, w.F] if case["order"][0] == "B" else [w.F, w.B], lambda i: i[0] * 3.0 + i[1])
            ref = rft.get(st, [w.B, w.F])
            r = rf.gather(st, indices=ind, axis=w.B)
            _check(r, [K, w.F], {(k, f): ref[idx[k], f] for k in range(2) for f in range(w.nf)}, f"gather batch {idx}")
            ctx.trans()
    ctx.trace()


def _case_scatter(case, ctx):
    import returnn.frontend as rf

    mode = case["mode"]
    O = rft.static(3, "O")
    for lens in [l for l in _batches(3, nbs=(1, 2)) if sum(l) <= case["maxfr"]]:
        nb = len(lens)
        for idx in itertools.product(range(3), repeat=sum(lens)):
            it = iter(idx)
            tab = [[next(it) for _ in range(n)] for n in lens]
            w = W(lens, case["order"], func=lambda b, t, f: math.sin(b * 5 + t * 3 + f * 2 + 1) * 2, poison=50.0)
            ind = rft.mk([w.B, w.T], lambda i: tab[i[0]][i[1]], dtype="int32", sparse_dim=O, pad=1)
            groups = {}
            for b in range(nb):
                for t in range(lens[b]):
                    for f in range(w.nf):
                        groups.setdefault((b, tab[b][t], f), []).append((w.seqs[b][t][f], t))
            keys = [(b, o, f) for b in range(nb) for o in range(3) for f in range(w.nf)]
            fill = case.get("fill")
            r = rf.scatter(w.x, indices=ind, indices_dim=w.T, mode=mode, **(dict(fill_value=fill) if fill is not None else {}))
            exp = {}
            for k in keys:
                g = groups.get(k)
                if g is None:
                    exp[k] = None
                    continue
                v = [a for a, _ in g]
                m = max(v)
                exp[k] = {
                    "sum": lambda: sum(v), "max": lambda: m, "min": lambda: min(v), "logsumexp": lambda: m + math.log(sum(math.exp(a - m) for a in v)),
                    "logmeanexp": lambda: m + math.log(sum(math.exp(a - m) for a in v) / len(v)), "argmax": lambda: max(g)[1],
                }[mode]()
            info = f"scatter {mode}, indices {tab}, order {case['order']}"
            try:
                got = rft.get(r, [w.B, O, w.F])
            except ValueError as exc:
                raise Violation(f"{info}: {exc}")
            for k in keys:
                if exp[k] is None:
                    # nothing scattered there
                    ok = got[k] == fill if fill is not None else got[k] == 0 if mode == "sum" else (got[k] in (0.0, float("-inf"), float("inf")))
                    expect(ok, lambda: f"{info}: unset target {k} has {got[k]}")
                else:
                    expect(rft.same(got[k], exp[k], 1e-4), lambda: f"{info} at {k}: {got[k]}, expected {exp[k]}")
            ctx.trans()
            ctx.state(("scatter", mode, str(tab), case["order"]))
    ctx.trace()


def _case_window(case, ctx):
    import returnn.frontend as rf

    for lens in _batches(case["maxlen"], minlen=1, nbs=(1, 2)):
        for wsize in (1, 2, 3, 4):
            for kw in [{}, dict(window_left=0), dict(window_right=0), dict(window_left=wsize - 1)]:
                for stride in (1, 2, 3):
                    for padding in ("same", "valid"):
                        if padding == "valid" and (kw or min(lens) < wsize):
                            continue
                        w = W(lens, case["order"])
                        Wd = rft.static(wsize, "W")
                        r, T2 = rf.window(w.x, spatial_dim=w.T, window_dim=Wd, padding=padding, pad_value=0.0, stride=stride, use_mask=True, **kw)
                        if padding == "same":
                            left = kw.get("window_left", wsize - 1 if "window_right" in kw else (wsize + 1) // 2 - 1)
                        else:
                            left = 0
                        exp = {}
                        for b, q in enumerate(w.seqs):
                            n = len(q) if padding == "same" else len(q) - wsize + 1
                            for i, t in enumerate(range(0, n, stride)):
                                for k in range(wsize):
                                    p = t - left + k
                                    for f in range(w.nf):
                                        exp[b, i, k, f] = q[p][f] if 0 <= p < len(q) else 0.0
                        _check(r, [w.B, T2, Wd, w.F], exp, f"window {wsize} {kw} stride {stride} {padding}, lens {lens}, order {case['order']}")
                        ctx.trans()
                        ctx.state(("win", lens, wsize, str(kw), stride, padding, case["order"]))
    ctx.trace()


def _case_merge(case, ctx):
    import returnn.frontend as rf

    for lens in _batches(case["maxlen"], nbs=(1, 2)):
        w = W(lens, case["order"])
        r, M = rf.merge_dims(w.x, dims=[w.T, w.F])
        exp = {(b, t * w.nf + f): v for (b, t, f), v in _as_dict(w.seqs).items()}
        _check(r, [w.B, M], exp, f"merge_dims T,F, lens {lens}, order {case['order']}")
        u = rf.split_dims(r, axis=M, dims=[w.T, w.F])
        _check(u, [w.B, w.T, w.F], _as_dict(w.seqs), f"split_dims of merged T,F, lens {lens}, order {case['order']}")
        # batch and feature
        st = rft.mk([w.F, w.B] if case["order"][0] == "F" else [w.B, w.F], lambda i: i[0] * 10.0 + i[1])
        ref = rft.get(st, [w.B, w.F])
        r, M = rf.merge_dims(st, dims=[w.B, w.F])
        _check(r, [M], {(b * w.nf + f,): v for (b, f), v in ref.items()}, "merge_dims B,F")
        u = rf.split_dims(r, axis=M, dims=[w.B, w.F])
        _check(u, [w.B, w.F], ref, "split_dims B,F")
        r, M = rf.merge_dims(st, dims=[w.F, w.B])
        _check(r, [M], {(f * len(lens) + b,): v for (b, f), v in ref.items()}, "merge_dims F,B")
        ctx.trans(5)
        ctx.state(("merge", lens, case["order"]))
    ctx.trace()


def _case_split(case, ctx):
    """split the time dim into blocks, with padding to multiples"""
    import returnn.frontend as rf

    for lens in _batches(case["maxlen"], minlen=1, nbs=(1, 2)):
        for k in (1, 2, 3):
            w = W(lens, case["order"])
            K = rft.static(k, "K")
            T2 = w.T.ceildiv_right(K)
            if max(lens) % k:
                continue  # pad_to_multiples is not implemented by the torch backend
            r = rf.split_dims(w.x, axis=w.T, dims=[T2, K])
            try:
                got = rft.get(r, [w.B, T2, K, w.F])
            except ValueError as exc:
                raise Violation(f"split_dims {k}, lens {lens}: {exc}")
            info = f"split_dims in blocks of {k}, lens {lens}, order {case['order']}"
            expect_eq({(b, i) for b, i, _, _ in got}, {(b, i) for b, n in enumerate(lens) for i in range(-(-n // k))}, f"{info}: blocks")
            for (b, i, j, f), v in got.items():
                t = i * k + j
                if t < lens[b]:
                    expect(v == w.seqs[b][t][f], lambda: f"{info} at {(b, i, j, f)}: {v}, expected {w.seqs[b][t][f]}")
            ctx.trans()
            ctx.state(("split", lens, k, case["order"]))
        # static feature split / split()
        w = W(lens, case["order"], nf=4)
        A, C = rft.static(2, "A"), rft.static(2, "C")
        r = rf.split_dims(w.x, axis=w.F, dims=[A, C])
        _check(r, [w.B, w.T, A, C], {(b, t, f // 2, f % 2): v for (b, t, f), v in _as_dict(w.seqs).items()}, "split_dims F")
        r, M = rf.merge_dims(r, dims=[A, C])
        _check(r, [w.B, w.T, M], _as_dict(w.seqs), "merge_dims of split F")
        P1, P2 = rft.static(1, "P1"), rft.static(3, "P2")
        a, b_ = rf.split(w.x, axis=w.F, out_dims=[P1, P2])
        _check(a, [w.B, w.T, P1], {(b, t, f): v for (b, t, f), v in _as_dict(w.seqs).items() if f < 1}, "split F 1")
        _check(b_, [w.B, w.T, P2], {(b, t, f - 1): v for (b, t, f), v in _as_dict(w.seqs).items() if f >= 1}, "split F 2")
        c, CF = rf.concat((b_, P2), (a, P1))
        _check(c, [w.B, w.T, CF], {(b, t, (f + 3) % 4): v for (b, t, f), v in _as_dict(w.seqs).items()}, "concat F")
        ctx.trans(5)
    ctx.trace()


def _case_concat(case, ctx):
    """static prefix before a ragged seq; broadcast; stack"""
    import returnn.frontend as rf

    for lens in _batches(case["maxlen"], nbs=(1, 2, 3)):
        for n in (1, 2):
            w = W(lens, case["order"])
            P = rft.static(n, "P")
            pre = rft.mk([w.B, P, w.F], lambda i: -1.0 - i[0] * 100 - i[1] * 10 - i[2])
            r, R = rf.concat((pre, P), (w.x, w.T))
            exp = [[[-1.0 - b * 100 - t * 10 - f for f in range(w.nf)] for t in range(n)] + q for b, q in enumerate(w.seqs)]
            _check(r, [w.B, R, w.F], _as_dict(exp), f"concat static {n} + ragged, lens {lens}, order {case['order']}")
            # broadcast over the batch
            pre1 = rft.mk([P, w.F], lambda i: -1.0 - i[0] * 10 - i[1])
            r, R = rf.concat((pre1, P), (w.x, w.T), allow_broadcast=True)
            exp = [[[-1.0 - t * 10 - f for f in range(w.nf)] for t in range(n)] + q for b, q in enumerate(w.seqs)]
            _check(r, [w.B, R, w.F], _as_dict(exp), f"concat broadcast static {n} + ragged, lens {lens}, order {case['order']}")
            ctx.trans(2)
            ctx.state(("concat", lens, n, case["order"]))
        w = W(lens, case["order"])
        y = w.x * 2.0
        y = y.copy_transpose([w.F, w.B, w.T])
        r, S = rf.stack([w.x, y])
        _check(r, [w.B, w.T, w.F, S], {(b, t, f, s): v * (s + 1) for (b, t, f), v in _as_dict(w.seqs).items() for s in range(2)}, f"stack, lens {lens}, order {case['order']}")
        ctx.trans()
    ctx.trace()


def _case_cum_concat(case, ctx):
    import returnn.frontend as rf

    for lens in _batches(case["maxlen"], nbs=(1, 2, 3)):
        w = W(lens, case["order"])
        acc, A = w.x, w.T
        seqs = w.seqs
        for k in range(3):
            new = rft.mk([w.B, w.F] if k % 2 == 0 else [w.F, w.B], lambda i: -10.0 * k - (i[0] * 2 + i[1]))
            ref = rft.get(new, [w.B, w.F])
            acc, A = rf.cum_concat_step(new, prev_accum=acc, axis=A)
            seqs = [q + [[ref[b, f] for f in range(w.nf)]] for b, q in enumerate(seqs)]
            _check(acc, [w.B, A, w.F], _as_dict(seqs), f"cum_concat_step {k}, lens {lens}, order {case['order']}")
            ctx.trans()
        ctx.state(("cum", lens, case["order"]))
    ctx.trace()


def _case_topk(case, ctx):
    import returnn.frontend as rf

    def func(b, t, f):
        return float((b * 7 + t * 5 + f * 3) % 11) - 5.0

    for lens in _batches(case["maxlen"], minlen=1, nbs=(1, 2)):
        w = W(lens, case["order"], func=func, poison=99.0)
        for k in range(1, min(lens) + 1):
            v, i, K = rf.top_k(w.x, axis=w.T, k=k)
            gv, gi = rft.get(v, [w.B, K, w.F]), rft.get(i, [w.B, K, w.F])
            for b in range(len(lens)):
                for f in range(w.nf):
                    col = [fr[f] for fr in w.seqs[b]]
                    e = sorted(col, reverse=True)[:k]
                    g = [gv[b, j, f] for j in range(k)]
                    ii = [gi[b, j, f] for j in range(k)]
                    expect(g == e and [col[j] if 0 <= j < len(col) else None for j in ii] == g and len(set(ii)) == k, lambda: f"top_k k={k}, lens {lens}, order {case['order']}: values {g} indices {ii} of {col}")
            ctx.trans()
            ctx.state(("topk", lens, k, case["order"]))
        for axes in ([w.T, w.F], [w.F, w.T]):
            for k in range(1, min(lens) * w.nf + 1):
                v, idxs, K = rf.top_k(w.x, axis=axes, k=k)
                gv = rft.get(v, [w.B, K])
                gi = [rft.get(i, [w.B, K]) for i in idxs]
                if axes[0] is w.F:
                    gi = gi[::-1]
                for b in range(len(lens)):
                    flat = sorted([v_ for fr in w.seqs[b] for v_ in fr], reverse=True)[:k]
                    g = [gv[b, j] for j in range(k)]
                    pos = [(gi[0][b, j], gi[1][b, j]) for j in range(k)]
                    ok = g == flat and len(set(pos)) == k and all(0 <= t < lens[b] and 0 <= f < w.nf and w.seqs[b][t][f] == x for (t, f), x in zip(pos, g))
                    expect(ok, lambda: f"top_k over {[d.name for d in axes]} k={k}, lens {lens}, order {case['order']}: {g} at {pos}, expected {flat}")
                ctx.trans()
    ctx.trace()


def _case_misc(case, ctx):
    import returnn.frontend as rf

    for lens in _batches(case["maxlen"], nbs=(1, 2, 3)):
        w = W(lens, case["order"])
        m = rf.sequence_mask([w.B, w.T])
        raw = m.copy_compatible_to_dims_raw([w.B, w.T]).tolist()
        for b, n in enumerate(lens):
            expect_eq(raw[b], [t < n for t in range(max(lens))], f"sequence_mask, lens {lens}")
        rng = rf.range_over_dim(w.T)
        expect_eq(rng.raw_tensor.tolist(), list(range(max(lens))), "range_over_dim")
        cm = w.x.copy_masked(-9.0)
        raw = cm.copy_compatible_to_dims_raw([w.B, w.T, w.F]).tolist()
        for b, n in enumerate(lens):
            expect_eq(raw[b], w.seqs[b] + [[-9.0] * w.nf] * (max(lens) - n), f"copy_masked, lens {lens}, order {case['order']}")
        # ids
        V = rft.static(3, "V")
        ids = rft.mk([w.B, w.T], lambda i: (i[0] + i[1] * 2) % 3, dtype="int32", sparse_dim=V, pad=2)
        oh = rf.one_hot(ids)
        _check(oh, [w.B, w.T, V], {(b, t, v): 1.0 if (b + t * 2) % 3 == v else 0.0 for b, n in enumerate(lens) for t in range(n) for v in range(3)}, f"one_hot, lens {lens}")
        sd = rf.sparse_to_dense(ids, label_value=0.9, other_value=0.05)
        _check(sd, [w.B, w.T, V], {(b, t, v): 0.9 if (b + t * 2) % 3 == v else 0.05 for b, n in enumerate(lens) for t in range(n) for v in range(3)}, f"sparse_to_dense, lens {lens}")
        # replace_dim / swap
        r, T2 = rf.replace_dim(w.x, in_dim=w.T)
        _check(r, [w.B, T2, w.F], _as_dict(w.seqs), "replace_dim")
        e = rf.expand_dim(w.x, rft.static(2, "E"))
        expect(len(e.dims) == 4, "expand_dim")
        # strided
        for st in (1, 2, 3):
            i, T3 = rf.range_over_dim_strided(w.T, stride=st)
            r = rf.gather(w.x, indices=i, axis=w.T)
            _check(r, [w.B, T3, w.F], _as_dict([q[::st] for q in w.seqs]), f"range_over_dim_strided {st}, lens {lens}, order {case['order']}")
        # top_p / top_k masks
        ctx.trans(8)
        ctx.state(("misc", lens, case["order"]))
    ctx.trace()


def _case_search_sorted(case, ctx):
    import returnn.frontend as rf, bisect

    for n in range(1, 5):
        for vals in itertools.combinations_with_replacement([0, 1, 2, 3], n):
            for side in ("left", "right"):
                B = rft.static(2, "B")
                A = rft.static(n, "A")
                K = rft.static(6, "K")
                seqs = [list(vals), [v + 1 for v in vals]]
                s = rft.mk([B, A], lambda i: float(seqs[i[0]][i[1]]))
                q = rft.mk([K, B], lambda i: float(i[0]) - 0.5 + 0.5 * (i[0] % 2))
                r = rf.search_sorted(s, q, axis=A, side=side)
                exp = {}
                for k in range(6):
                    for b in range(2):
                        x = float(k) - 0.5 + 0.5 * (k % 2)
                        exp[k, b] = (bisect.bisect_left if side == "left" else bisect.bisect_right)(seqs[b], x)
                _check(r, [K, B], exp, f"search_sorted {seqs} side {side}")
                ctx.trans()
                ctx.state(("ss", vals, side))
    ctx.trace()


def _case_static(case, ctx):
    """sort, top_k_mask, top_p_mask on static dims"""
    import returnn.frontend as rf

    for n in range(1, case["maxlen"] + 1):
        for vals in itertools.product([0.1, 0.2, 0.5], repeat=n):
            B, A = rft.static(2, "B"), rft.static(n, "A")
            rows = [list(vals), list(vals)[::-1]]
            x = rft.mk([A, B], lambda i: rows[i[1]][i[0]])
            for desc in (False, True):
                v, i, A2 = rf.sort(x, axis=A, descending=desc)
                gv, gi = rft.get(v, [B, A2]), rft.get(i, [B, A2])
                for b in range(2):
                    order = sorted(range(n), key=lambda k: (-rows[b][k] if desc else rows[b][k], k))
                    expect_eq([gi[b, j] for j in range(n)], order, f"sort {rows[b]} desc {desc}: indices")
                    expect(all(rft.same(gv[b, j], rows[b][order[j]]) for j in range(n)), "sort values")
                ctx.trans()
            for k in range(1, n + 1):
                m = rft.get(rf.top_k_mask(x, axis=A, k=k), [B, A])
                for b in range(2):
                    sel = [j for j in range(n) if m[b, j]]
                    e = sorted(rows[b], reverse=True)[:k]
                    expect(sorted([rows[b][j] for j in sel], reverse=True) == e, lambda: f"top_k_mask k={k} of {rows[b]}: {sel}")
                ctx.trans()
            tot = [sum(r) for r in rows]
            p = rft.mk([A, B], lambda i: rows[i[1]][i[0]] / tot[i[1]])
            for th in (0.0, 0.3, 0.55, 0.8, 1.0):
                m = rft.get(rf.top_p_mask(p, axis=A, p=th), [B, A])
                for b in range(2):
                    srt = sorted([r / tot[b] for r in rows[b]], reverse=True)
                    sel = sorted([rows[b][j] / tot[b] for j in range(n) if m[b, j]], reverse=True)
                    # the selected ones are the largest ones, and a minimal set which reaches p (at least one)
                    expect(sel == srt[: len(sel)] or all(rft.same(a, c) for a, c in zip(sel, srt)), lambda: f"top_p_mask {th} of {srt}: {sel}")
                    cum = sum(sel)
                    expect(cum >= th - 1e-5, lambda: f"top_p_mask p={th} of {srt}: selected {sel} sum up to {cum}")
                    if len(sel) > 1:
                        expect(cum - sel[-1] <= th + 1e-5, lambda: f"top_p_mask p={th} of {srt}: selected {sel}, not minimal")
                ctx.trans()
            ctx.state(("static", vals))
    ctx.trace()


def _perms(pool, must=()):
    """all ordered selections of the pool which contain all of must"""
    for k in range(len(must), len(pool) + 1):
        for p in itertools.permutations(pool, k):
            if all(m in p for m in must):
                yield p


def _hash(name, i, n):
    v = 0
    for k, d in sorted(i.items()):
        v = v * 7 + (ord(k[0]) + d * 3 + d * d)
    return (v + len(name) * 5) % n


def _case_struct_gather(case, ctx):
    """all dims structures of source and indices"""
    import returnn.frontend as rf

    n = 0
    sizes = dict(A=3, B=2, F=4, K=2, L=3)
    for sdims in _perms("ABF", "A"):
        for idims in _perms([d for d in sdims if d != "A"] + ["K", "L"]):
            n += 1
            if n % 8 != case["part"]:
                continue
            D = {k: rft.static(v, k) for k, v in sizes.items()}
            V = rft.static(50, "V")
            for sparse, explicit, dt in ((False, True, "int32"), (True, False, "int64"), (False, False, "int32")):
                sv = lambda i: _hash("s", i, 50)
                src = rft.mk([D[k] for k in sdims], lambda t: sv(dict(zip(sdims, t))), dtype="int32" if sparse else "float32", sparse_dim=V if sparse else None, feature_dim=D["F"] if "F" in sdims and not sparse else None)
                iv = lambda i: _hash("ind", i, 3)
                ind = rft.mk([D[k] for k in idims], lambda t: iv(dict(zip(idims, t))), dtype=dt, sparse_dim=None if explicit else D["A"])
                info = f"gather source {sdims} indices {idims} sparse {sparse} explicit axis {explicit} {dt}"
                r = rf.gather(src, indices=ind, axis=D["A"]) if explicit else rf.gather(src, indices=ind)
                od = [k for k in sdims if k != "A"] + [k for k in idims if k not in sdims]
                exp = {}
                for t in itertools.product(*[range(sizes[k]) for k in od]):
                    i = dict(zip(od, t))
                    a = iv({k: i[k] for k in idims})
                    exp[t] = float(sv(dict({k: i[k] for k in sdims if k != "A"}, A=a)))
                _check(r, [D[k] for k in od], exp, info)
                expect(r.sparse_dim == src.sparse_dim, lambda: f"{info}: sparse dim {r.sparse_dim}, source {src.sparse_dim}")
                expect_eq(r.dtype, src.dtype, f"{info}: dtype")
                if src.feature_dim is not None and not explicit:
                    expect(r.feature_dim == src.feature_dim, lambda: f"{info}: feature dim {r.feature_dim}")
                ctx.trans()
            ctx.state(("sg", sdims, idims))
    ctx.trace()


def _case_struct_scatter(case, ctx):
    import returnn.frontend as rf

    sizes = dict(B=2, I=3, J=2, F=2, O=3, P=2)
    n = 0
    for ii in ("I", "IJ", "JI"):
        for idims in _perms(["B"] + sorted(ii), sorted(ii)):
            for sdims in _perms(["B"] + sorted(ii) + ["F"], list(idims)):
                if ("B" in sdims) != ("B" in idims):
                    continue
                for oo in ("O", "OP", "PO"):
                    n += 1
                    if n % 8 != case["part"]:
                        continue
                    D = {k: rft.static(v, k) for k, v in sizes.items()}
                    no = 1
                    for k in oo:
                        no *= sizes[k]
                    sv = lambda i: _hash("s", i, 23) - 11
                    iv = lambda i: _hash("ind", i, no)
                    src = rft.mk([D[k] for k in sdims], lambda t: sv(dict(zip(sdims, t))), dtype="int32")
                    ind = rft.mk([D[k] for k in idims], lambda t: iv(dict(zip(idims, t))), dtype="int32")
                    for mode, fill in (("sum", 0), ("sum", 5), ("max", -77), ("min", -77)):
                        info = f"scatter {mode} fill {fill} source {sdims} indices {idims} indices_dim {ii} out {oo}"
                        r = rf.scatter(
                            src,
                            indices=ind,
                            indices_dim=D["I"] if ii == "I" else [D[k] for k in ii],
                            out_dim=D["O"] if oo == "O" and n % 2 else [D[k] for k in oo],
                            mode=mode,
                            fill_value=fill,
                        )
                        bd = [k for k in idims if k not in ii]
                        fd = [k for k in sdims if k not in idims]
                        od = bd + list(oo) + fd
                        acc = {}
                        for t in itertools.product(*[range(sizes[k]) for k in sdims]):
                            i = dict(zip(sdims, t))
                            o = iv({k: i[k] for k in idims})
                            ot = (o,) if len(oo) == 1 else (o // sizes[oo[1]], o % sizes[oo[1]])
                            acc.setdefault(tuple(i[k] for k in bd) + ot + tuple(i[k] for k in fd), []).append(sv(i))
                        f = dict(sum=sum, max=max, min=min)[mode]
                        exp = {t: (f(acc[t]) if t in acc else fill) for t in itertools.product(*[range(sizes[k]) for k in od])}
                        _check(r, [D[k] for k in od], exp, info)
                        ctx.trans()
                    ctx.state(("ssc", ii, idims, sdims, oo))
    ctx.trace()


def _case_struct_sorted(case, ctx):
    import returnn.frontend as rf, bisect

    sizes = dict(A=3, B=2, C=2, K=3, L=2)
    for sdims in _perms("ABC", "A"):
        batch = [k for k in sdims if k != "A"]
        for vdims in _perms(batch + ["K", "L"], batch):
            for side in ("left", "right"):
                for odt in ("int32", "int64"):
                    D = {k: rft.static(v, k) for k, v in sizes.items()}
                    seq = lambda i: sorted(_hash("q", dict(i, Z=a), 5) for a in range(3))
                    s = rft.mk([D[k] for k in sdims], lambda t: seq({k: v for k, v in zip(sdims, t) if k != "A"})[t[sdims.index("A")]], dtype="int32")
                    vv = lambda i: _hash("v", i, 6)
                    v = rft.mk([D[k] for k in vdims], lambda t: vv(dict(zip(vdims, t))), dtype="int32")
                    r = rf.search_sorted(s, v, axis=D["A"], side=side, out_dtype=odt)
                    exp = {}
                    for t in itertools.product(*[range(sizes[k]) for k in vdims]):
                        i = dict(zip(vdims, t))
                        exp[t] = (bisect.bisect_left if side == "left" else bisect.bisect_right)(seq({k: i[k] for k in batch}), vv(i))
                    info = f"search_sorted sorted {sdims} values {vdims} {side} {odt}"
                    _check(r, [D[k] for k in vdims], exp, info)
                    expect_eq(r.dtype, odt, f"{info}: dtype")
                    ctx.trans()
            ctx.state(("sso", sdims, vdims))
    ctx.trace()


def _case_struct_range(case, ctx):
    import returnn.frontend as rf

    for lens in _batches(4, nbs=(1, 2, 3)):
        B = rft.static(len(lens), "B")
        for T in (rft.dyn(list(lens), [B], "T"), rft.static(lens[0], "T"), rft.dyn(lens[0], [], "T")):
            for dt in (None, "int32", "int64", "float32"):
                r = rf.range_over_dim(T, dtype=dt) if dt else rf.range_over_dim(T)
                m = rft.max_len(T)
                info = f"range_over_dim {T} lens {lens} dtype {dt}"
                expect_eq(r.dims, (T,), f"{info}: dims")
                expect_eq(r.raw_tensor.tolist(), list(range(m)), info)
                if dt:
                    expect_eq(r.dtype, dt, f"{info}: dtype")
                if r.dtype.startswith("int"):
                    expect(r.sparse_dim == T, lambda: f"{info}: sparse dim {r.sparse_dim}")
                ctx.trans()
        ctx.state(("range", lens))
    ctx.trace()


def _case_struct_mask(case, ctx):
    """masked_select / masked_scatter over 1..2 mask dims, any axis order, with explicitly given out_dim"""
    import returnn.frontend as rf
    from returnn.tensor import Dim

    sizes = dict(B=2, C=3, F=2)
    for md in ("B", "C", "BC"):
        for mdims in itertools.permutations(md):
            for sdims in _perms("BCF", md):
                nbits = 1
                for k in md:
                    nbits *= sizes[k]
                for bits in itertools.product([False, True], repeat=nbits):
                    D = {k: rft.static(v, k) for k, v in sizes.items()}
                    cells = list(itertools.product(*[range(sizes[k]) for k in md]))
                    on = {c: b for c, b in zip(cells, bits)}
                    mv = lambda i: on[tuple(i[k] for k in md)]
                    mask = rft.mk([D[k] for k in mdims], lambda t: mv(dict(zip(mdims, t))), dtype="bool", pad=0)
                    sv = lambda i: _hash("m", i, 40)
                    V = rft.static(40, "V")
                    src = rft.mk([D[k] for k in sdims], lambda t: sv(dict(zip(sdims, t))), dtype="int32", sparse_dim=V)
                    dims = [D[k] for k in md]
                    info = f"masked_select mask {mdims} source {sdims} dims {md} bits {bits}"
                    given = Dim(None, name="packed")
                    r, od = rf.masked_select(src, mask=mask, dims=dims, out_dim=given)
                    expect(od is given or od == given, lambda: f"{info}: returned dim {od}, given {given}")
                    sel = [c for c in cells if on[c]]
                    rest = [k for k in sdims if k not in md]
                    expect_eq(int(od.get_dim_value()), len(sel), f"{info}: size")
                    exp = {}
                    for j, c in enumerate(sel):
                        for t in itertools.product(*[range(sizes[k]) for k in rest]):
                            exp[(j,) + t] = sv(dict(list(zip(md, c)) + list(zip(rest, t))))
                    _check(r, [od] + [D[k] for k in rest], exp, info)
                    expect(r.sparse_dim == V, lambda: f"{info}: sparse dim {r.sparse_dim}")
                    back = rft.mk([D[k] for k in sdims[::-1]], lambda t: -1 - sv(dict(zip(sdims[::-1], t))), dtype="int32", sparse_dim=V)
                    r2 = rf.masked_scatter(r, back, mask=mask, dims=dims, in_dim=od)
                    exp2 = {}
                    for t in itertools.product(*[range(sizes[k]) for k in sdims]):
                        i = dict(zip(sdims, t))
                        exp2[t] = sv(i) if mv(i) else -1 - sv(i)
                    _check(r2, [D[k] for k in sdims], exp2, "masked_scatter " + info)
                    expect(r2.sparse_dim == V, lambda: f"masked_scatter {info}: sparse dim {r2.sparse_dim}")
                    if not rest:
                        r3 = rf.masked_scatter(r, mask=mask, dims=dims, in_dim=od)
                        _check(r3, [D[k] for k in md], {c: (sv(dict(zip(md, c))) if on[c] else 0) for c in cells}, "masked_scatter without backup " + info)
                    ctx.trans(2)
                ctx.state(("sm", mdims, sdims))
    ctx.trace()


def _case_struct_meta(case, ctx):
    """labels stay labels: restructuring keeps sparse_dim and dtype, and the feature dim"""
    import returnn.frontend as rf

    for order in itertools.permutations("BTF"):
        lens = (3, 1, 2)
        B = rft.static(3, "B")
        T = rft.dyn(list(lens), [B], "T")
        F = rft.static(4, "F")
        V = rft.static(7, "V")
        D = dict(B=B, T=T, F=F)
        dims = [D[k] for k in order]
        for kind in ("sparse", "feat"):
            x = rft.mk(dims, lambda i: _hash("m", dict(zip(order, i)), 7), dtype="int32" if kind == "sparse" else "float32", sparse_dim=V if kind == "sparse" else None, feature_dim=F if kind == "feat" else None)
            res = {
                "concat": rf.concat((rf.gather(x, indices=0, axis=T), B), (rf.gather(x, indices=0, axis=T), B))[0],
                "pad": rf.pad(x, axes=[T], padding=[(1, 2)], value=0)[0],
                "slice": rf.slice(x, axis=T, start=0, end=1)[0],
                "gather": rf.gather(x, indices=0, axis=T),
                "merge": rf.merge_dims(x, dims=[B, T])[0],
                "shift_right": rf.shift_right(x, axis=T, amount=1, pad_value=0),
                "reverse": rf.reverse_sequence(x, axis=T),
                "expand": rf.expand_dim(x, rft.static(2, "N")),
                "where": rf.where(rf.sequence_mask([B, T]), x, x),
                "stack": rf.stack([x, x])[0],
                "cumulative": rf.cum_concat_step(rf.gather(x, indices=0, axis=T), prev_accum=x, axis=T)[0],
            }
            F1, F2 = rft.static(2, "F1"), rft.static(2, "F2")
            if kind == "sparse":
                res["split"] = rf.split_dims(x, axis=F, dims=[F1, F2])
                res["pack"] = rf.pack_padded(x, dims=[B, T])[0]
            for name, r in res.items():
                expect_eq(r.dtype, x.dtype, f"{name} on {order} {kind}: dtype")
                expect(r.sparse_dim == x.sparse_dim, lambda: f"{name} on {order} {kind}: sparse dim {r.sparse_dim}, source {x.sparse_dim}")
                if kind == "feat" and name in ("concat", "pad", "slice", "gather", "reverse", "expand"):
                    expect(r.feature_dim == F, lambda: f"{name} on {order}: feature dim {r.feature_dim}, source {F}")
                ctx.trans()
        ctx.state(("meta", order))
    ctx.trace()


def run_case(case, ctx):
    import torch

    with torch.no_grad():
        globals()["_case_" + case["t"]](case, ctx)
    ctx.outcome(case["t"] + case.get("mode", ""))


def check_vacuity(total):
    if total.transitions < 10000:
        return f"only {total.transitions} evaluations"


if __name__ == "__main__":
    harness.main(__name__)
