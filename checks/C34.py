"""C34: processing a sequence as a whole, in segments, or step by step with carried state gives the same, for every history of beam reorderings and of dropping/re-adding sequences."""
import itertools
from vlib import harness, rft
from vlib.harness import Violation, expect, expect_eq

PID = "C34"
LEVEL = "model_checking"
RULE = (
    "case = (module, kind of history); run_case enumerates all histories: ragged prefix as sequence + single steps; all segmentations;"
    " all beam backpointer sequences with gather_nested; all activity patterns with masked_select_nested/masked_scatter_nested and mask_nested;"
    " oracle = the whole history of that hypothesis alone in one call (and the non-causal module on each prefix); state = (module, history)"
)
BOUNDS = {
    "quick": "lengths up to 4 (batches of 1-2 seqs), all ragged prefixes, all segmentations (LSTM), beams of 2 over 2 seqs with all 256 backpointer histories of 3 steps, all activity histories of 3 steps over 3 seqs",
    "thorough": "lengths up to 5, 3 seqs, beams of 3 (all 27^2 backpointer histories for one seq), activity histories of 4 steps",
}
ASSUMPTIONS = ["torch backend on CPU", "behavior_version 24, eval mode", "float tolerance 1e-4"]
CASE_TIMEOUT = 400


def parent_init():
    rft.init(24)
    import returnn.frontend.encoder.transformer, returnn.frontend.decoder.transformer  # noqa


def _seed_params(mod, salt=0):
    import torch

    for k, (name, p) in enumerate(sorted(mod.named_parameters())):
        raw = p.raw_tensor
        v = torch.sin(torch.arange(raw.numel(), dtype=torch.float32) * 1.7 + k + salt + 1) * 0.5
        if "norm" in name and name.endswith("scale"):
            v = v + 1.0
        with torch.no_grad():
            raw.copy_(v.reshape(raw.shape).to(raw.dtype))
    return mod


def _dim(n, name, _cache={}):
    return _cache.setdefault((n, name), rft.static(n, name))


_NV = 5  # vocab


def _mods():
    """name -> (make, make non-causal counterpart or None)"""
    import returnn.frontend as rf

    F, O, K, Vv = _dim(4, "F"), _dim(3, "O"), _dim(8, "K"), _dim(6, "V")
    V, E, M = _dim(_NV, "vocab"), _dim(3, "E"), _dim(8, "M")
    from returnn.frontend.decoder.transformer import TransformerDecoder, FeedForwardGated

    att = dict(proj_dim=O, key_dim_total=K, value_dim_total=Vv, num_heads=2, att_dropout=0.0)
    d = {
        "lstm": (lambda: rf.LSTM(F, O), None),
        "lstm_nobias": (lambda: rf.LSTM(F, O, with_bias=False), None),
        "zoneout_lstm": (lambda: rf.ZoneoutLSTM(F, O, zoneout_factor_cell=0.15, zoneout_factor_output=0.05, parts_order="icfo", forget_bias=1.0), None),
        "zoneout_lstm_proj": (lambda: rf.ZoneoutLSTM(F, O, zoneout_factor_cell=0.3, zoneout_factor_output=0.0, use_zoneout_output=False), None),
        "causal_att": (lambda: rf.CausalSelfAttention(F, **att), lambda: rf.SelfAttention(F, **att)),
        "causal_att_noproj": (lambda: rf.CausalSelfAttention(F, **{**att, "proj_dim": None}), lambda: rf.SelfAttention(F, **{**att, "proj_dim": None})),
        "rotary_att": (lambda: rf.RotaryPosCausalSelfAttention(F, **att), lambda: rf.RotaryPosSelfAttention(F, **att)),
    }
    for name, kw in [
        ("", {}), ("_learn", dict(learnable_pos_emb=True, learnable_pos_emb_clipping=2)), ("_nolin", dict(with_linear_pos=False)), ("_nobias", dict(with_pos_bias=False)),
        ("_shaw", dict(with_linear_pos=False, with_pos_bias=False, learnable_pos_emb=True, learnable_pos_emb_clipping=1, separate_pos_emb_per_head=False)),
    ]:
        d["relpos_att" + name] = (lambda kw=kw: rf.RelPosCausalSelfAttention(F, **att, **kw), lambda kw=kw: rf.RelPosSelfAttention(F, **att, **kw))
    base = dict(num_layers=2, num_heads=2, dropout=0.0, att_dropout=0.0, ff_dim=_dim(5, "FF"))
    d["dec"] = (lambda: TransformerDecoder(E, V, M, **base), None)
    d["dec_lm"] = (lambda: TransformerDecoder(None, V, M, **base), None)
    d["dec_lm_embed"] = (lambda: TransformerDecoder(None, V, M, embed_dim=_dim(3, "Emb"), share_embedding=False, pos_enc=None, layer_opts=dict(self_att=rf.RelPosCausalSelfAttention), **base), None)
    d["dec_llama"] = (
        lambda: TransformerDecoder(None, V, M, norm=rf.build_dict(rf.RMSNorm), ff=rf.build_dict(FeedForwardGated), pos_enc=None, layer_opts=dict(self_att=rf.build_dict(rf.RotaryPosCausalSelfAttention, with_bias=False)), **{k: v for k, v in base.items() if k != "ff_dim"}),
        None,
    )
    return d


_cache = {}


def _mod(name):
    if name not in _cache:
        mk, nc = _mods()[name]
        _cache[name] = _seed_params(mk()), (_seed_params(nc()) if nc else None)
    return _cache[name]


class Hyp:
    """what one hypothesis gets as input: for the decoders label ids, otherwise vectors. index i identifies the content."""


def _content(c):
    """c: content id (int) -> vector resp. label"""
    import math

    return [math.sin(c * 1.3 + f * 0.7 + 0.5) * 1.5 for f in range(4)]


def _enc_len(b):
    return [3, 1, 2][b]


class Runner:
    """calls the module in whatever batch dims"""

    def __init__(self, name):
        self.name = name
        self.mod, self.nc = _mod(name)
        self.dec = name.startswith("dec")
        self.F = _dim(4, "F")
        self.V = _dim(_NV, "vocab")

    def inp(self, dims, contents):
        """contents: func(idx tuple over dims) -> content id"""
        if self.dec:
            return rft.mk(dims, lambda i: contents(i) % _NV, dtype="int32", sparse_dim=self.V, pad=1)
        return rft.mk(dims + [self.F], lambda i: _content(contents(i[:-1]))[i[-1]], pad=1e3, feature_dim=self.F)

    @property
    def out_dim(self):
        if self.dec:
            return self.V
        if self.name.endswith("noproj"):
            return _dim(6, "V")
        return _dim(3, "O")

    def enc(self, batch_dim, seqs):
        """encoder for the decoder; seqs: which (original) sequence in each batch entry"""
        if self.name != "dec":
            return None
        S = rft.dyn([_enc_len(b) for b in seqs], [batch_dim], "enc-T")
        E = _dim(3, "E")
        x = rft.mk([batch_dim, S, E], lambda i: _content(seqs[i[0]] * 7 + i[1])[i[2]], pad=1e3, feature_dim=E)
        return self.mod.transform_encoder(x, axis=S)

    def init(self, batch_dims):
        return self.mod.default_initial_state(batch_dims=batch_dims)

    def __call__(self, x, spatial_dim, state, enc=None):
        if self.dec:
            return self.mod(x, spatial_dim=spatial_dim, state=state, **(dict(encoder=enc) if enc is not None else {}))
        if "att" in self.name:
            return self.mod(x, axis=spatial_dim, state=state)
        return self.mod(x, spatial_dim=spatial_dim, state=state)

    def whole(self, contents, seq=0, _c={}):
        """reference: [t] -> output vector, this history alone"""
        key = (self.name, tuple(contents), seq if self.name == "dec" else 0)
        if key not in _c:
            B = rft.static(1, "B1")
            T = rft.dyn([len(contents)], [B], "T1")
            y, _ = self(self.inp([B, T], lambda i: contents[i[1]]), T, self.init([B]), self.enc(B, [seq]))
            g = rft.get(y, [B, T, self.out_dim])
            _c[key] = [[g[0, t, f] for f in range(self.out_dim.dimension)] for t in range(len(contents))]
        return _c[key]

    def cmp(self, y, batch_dims, exp, info):
        """exp: func(batch idx) -> vector or None"""
        try:
            got = rft.get(y, list(batch_dims) + [self.out_dim])
        except ValueError as exc:
            raise Violation(f"{info}: {exc}")
        for idx, v in got.items():
            e = exp(idx[:-1])
            if e is None:
                continue
            expect(rft.same(v, e[idx[-1]], 1e-4), lambda: f"{info}: at {idx}: {v}, expected {e[idx[-1]]}")


def gen_cases(tier):
    q = tier == "quick"
    for name in _names():
        yield dict(t="prefix", mod=name, maxlen=4 if q else 5, nbs=[1, 2] if q else [1, 2, 3])
        if "lstm" in name:
            yield dict(t="segments", mod=name, maxlen=4 if q else 6)
        if "att" in name and "noproj" not in name:
            yield dict(t="noncausal", mod=name, maxlen=4 if q else 6)
        for start in ("init", "seq"):
            for part in range(4):
                yield dict(t="beam", mod=name, start=start, part=part, depth=3, beam=2, nb=2)
            if not q:
                for part in range(9):
                    yield dict(t="beam", mod=name, start=start, part=part, depth=3, beam=3, nb=1)
        for how in ("select", "mask"):
            for part in range(2):
                yield dict(t="active", mod=name, how=how, part=part, nb=3, depth=3 if q else 4)


def _names():
    return [
        "lstm", "lstm_nobias", "zoneout_lstm", "zoneout_lstm_proj", "causal_att", "causal_att_noproj", "rotary_att",
        "relpos_att", "relpos_att_learn", "relpos_att_nolin", "relpos_att_nobias", "relpos_att_shaw", "dec", "dec_lm", "dec_lm_embed", "dec_llama",
    ]  # fmt: skip


def _cid(b, t):
    return b * 11 + t * 2 + (t // 2)


def _case_prefix(case, ctx):
    """whole batch; ragged prefix in one call, then single steps"""
    from returnn.tensor.dim import single_step_dim

    r = Runner(case["mod"])
    for nb in case["nbs"]:
        for lens in itertools.product(range(1, case["maxlen"] + 1), repeat=nb):
            if nb == 2 and lens[0] < lens[1] and sum(lens) % 2:
                continue
            if nb == 3 and max(lens) < case["maxlen"]:
                continue
            B = rft.static(nb, "B")
            ref = [r.whole([_cid(b, t) for t in range(n)], b) for b, n in enumerate(lens)]
            T = rft.dyn(list(lens), [B], "T")
            enc = r.enc(B, list(range(nb)))
            for order in ([B, T], [T, B]):
                y, _ = r(r.inp(order, lambda i: _cid(i[order.index(B)], i[order.index(T)])), T, r.init([B]), enc)
                r.cmp(y, [B, T], lambda i: ref[i[0]][i[1]], f"{r.name} whole batch, lens {lens}, order {[d.name for d in order]}")
                ctx.trans()
                ctx.state((r.name, "whole", lens, order[0].name))
            for pre in itertools.product(*[range(0, n + 1) for n in lens]):
                if max(pre) == 0:
                    state = r.init([B])
                elif min(pre) == 0 or nb == 3 and sum(pre) % 3:
                    continue  # empty prefixes of some only: then the state is not the initial state object
                else:
                    P = rft.dyn(list(pre), [B], "P")
                    y, state = r(r.inp([B, P], lambda i: _cid(i[0], i[1])), P, r.init([B]), enc)
                    r.cmp(y, [B, P], lambda i: ref[i[0]][i[1]], f"{r.name} prefix {pre}")
                    ctx.trans()
                for step in range(max(n - p for n, p in zip(lens, pre))):
                    pos = [p + step for p in pre]
                    y, state = r(r.inp([B], lambda i: _cid(i[0], pos[i[0]])), single_step_dim, state, enc)
                    r.cmp(y, [B], lambda i: ref[i[0]][pos[i[0]]] if pos[i[0]] < lens[i[0]] else None, f"{r.name} lens {lens}, prefix {pre} as sequence, then step {step}")
                    ctx.trans()
                ctx.state((r.name, lens, pre))
                ctx.trace()


def _case_segments(case, ctx):
    """recurrent modules: every segmentation (segments as sequence or as single step)"""
    from returnn.tensor.dim import single_step_dim

    r = Runner(case["mod"])
    n = case["maxlen"]
    for nb in (1, 2):
        B = rft.static(nb, "B")
        ref = [r.whole([_cid(b, t) for t in range(n)], b) for b in range(nb)]
        for cuts in itertools.product([0, 1, 2], repeat=n):
            # 0: same segment as before, 1: new segment, 2: single step
            if cuts[0] == 0 or any(a == 2 and b == 0 for a, b in zip(cuts, cuts[1:])):
                continue
            segs = []
            for t, c in enumerate(cuts):
                if c == 0:
                    segs[-1][1].append(t)
                else:
                    segs.append((c, [t]))
            state = r.init([B])
            for c, ts in segs:
                if c == 2:
                    y, state = r(r.inp([B], lambda i: _cid(i[0], ts[0])), single_step_dim, state)
                    r.cmp(y, [B], lambda i: ref[i[0]][ts[0]], f"{r.name} segmentation {segs}")
                else:
                    T = rft.static(len(ts), "T")
                    y, state = r(r.inp([B, T], lambda i: _cid(i[0], ts[i[1]])), T, state)
                    r.cmp(y, [B, T], lambda i: ref[i[0]][ts[i[1]]], f"{r.name} segmentation {segs}")
                ctx.trans()
            ctx.state((r.name, nb, cuts))
            ctx.trace()


def _case_noncausal(case, ctx):
    """causal attention at t is the non-causal attention on the prefix up to t, at its last frame"""
    r = Runner(case["mod"])
    for nb in (1, 2):
        for lens in itertools.product(range(1, case["maxlen"] + 1), repeat=nb):
            B = rft.static(nb, "B")
            T = rft.dyn(list(lens), [B], "T")
            y = r.nc(r.inp([B, T], lambda i: _cid(i[0], i[1])), axis=T)
            try:
                got = rft.get(y, [B, T, r.out_dim])
            except ValueError as exc:
                raise Violation(f"non-causal {r.name}, lens {lens}: {exc}")
            for b, n in enumerate(lens):
                ref = r.whole([_cid(b, t) for t in range(n)], b)
                for f in range(r.out_dim.dimension):
                    expect(rft.same(got[b, n - 1, f], ref[n - 1][f], 1e-4), lambda: f"{r.name}: causal at the last frame {ref[n - 1][f]}, non-causal {got[b, n - 1, f]}, lens {lens}, seq {b}")
            ctx.trans()
            ctx.state((r.name, "nc", lens))
            ctx.trace()


def _case_beam(case, ctx):
    import torch, returnn.frontend as rf
    from returnn.tensor import Tensor
    from returnn.tensor.dim import single_step_dim

    r = Runner(case["mod"])
    nb, k, depth = case["nb"], case["beam"], case["depth"]
    B = rft.static(nb, "B")
    enc = r.enc(B, list(range(nb)))
    per_step = list(itertools.product(range(k), repeat=k * nb))
    hists = list(itertools.product(per_step, repeat=depth - 1))
    parts = 4 if k == 2 else 9
    hists = hists[case["part"] :: parts]
    beam0 = rft.static(1, "beam0")
    if case["start"] == "seq":
        # ragged prompt first
        pre = [2, 1, 3][:nb]
        P = rft.dyn(pre, [B], "P")
        _, state0 = r(r.inp([B, beam0, P], lambda i: _cid(i[0], i[2])), P, r.init([B, beam0]), enc)
        prompts = [[_cid(b, t) for t in range(n)] for b, n in enumerate(pre)]
    else:
        y, state0 = r(r.inp([B, beam0], lambda i: _cid(i[0], 0)), single_step_dim, r.init([B, beam0]), enc)
        prompts = [[_cid(b, 0)] for b in range(nb)]

    for hist in hists:
        hist = ((0,) * (k * nb),) + hist
        beam = beam0
        hyps = [[list(prompts[b])] for b in range(nb)]
        state = state0
        for step in range(depth):
            br = hist[step]
            new_beam = rft.static(k, f"beam{step + 1}")
            back = Tensor("backrefs", [B, new_beam], "int32", sparse_dim=beam, raw_tensor=torch.tensor(br, dtype=torch.int32).reshape(nb, k))
            state = rf.nested.gather_nested(state, indices=back)
            hyps = [[list(hyps[b][br[b * k + j]]) + [b * 5 + j * 3 + step] for j in range(k)] for b in range(nb)]
            beam = new_beam
            y, state = r(r.inp([B, beam], lambda i: i[0] * 5 + i[1] * 3 + step), single_step_dim, state, enc)
            r.cmp(y, [B, beam], lambda i: r.whole(hyps[i[0]][i[1]], i[0])[-1], f"{r.name} beam search, start {case['start']}, backpointers {hist}, step {step}")
            ctx.trans()
        ctx.state((r.name, "beam", case["start"], hist))
        ctx.trace()


def _case_active(case, ctx):
    """only some of the sequences advance in each step; the others keep their state"""
    import torch, returnn.frontend as rf
    from returnn.tensor import Tensor
    from returnn.tensor.dim import single_step_dim

    r = Runner(case["mod"])
    nb, depth = case["nb"], case["depth"]
    B = rft.static(nb, "B")
    enc = r.enc(B, list(range(nb)))
    masks = [m for m in itertools.product([False, True], repeat=nb) if any(m)]
    hists = list(itertools.product(masks, repeat=depth))[case["part"] :: 2]
    for hist in hists:
        state = r.init([B])
        hyps = [[] for _ in range(nb)]
        # the first step with everything, such that all have a history
        y, state = r(r.inp([B], lambda i: i[0] * 5), single_step_dim, state, enc)
        for b in range(nb):
            hyps[b].append(b * 5)
        for step, m in enumerate(hist, 1):
            act = [b for b in range(nb) if m[b]]
            info = f"{r.name} active via {case['how']}, history {[[b for b in range(nb) if mm[b]] for mm in hist]}, step {step}"
            mask = Tensor("mask", [B], "bool", raw_tensor=torch.tensor(m))
            for b in act:
                hyps[b].append(b * 5 + step)
            if case["how"] == "select":
                (state_s, enc_s), packed, dim_map = rf.nested.masked_select_nested((state, enc if enc is not None else rf.State()), mask=mask, mask_cpu=mask, dims=[B])
                x = r.inp([packed], lambda i: act[i[0]] * 5 + step)
                y, new_state = r(x, single_step_dim, state_s, enc_s if enc is not None else None)
                r.cmp(y, [packed], lambda i: r.whole(hyps[act[i[0]]], act[i[0]])[-1], info)
                state = rf.nested.masked_scatter_nested(new_state, state, mask=mask, mask_cpu=mask, dims=[B], in_dim=packed, masked_select_dim_map=dim_map)
            else:
                y, new_state = r(r.inp([B], lambda i: i[0] * 5 + step), single_step_dim, state, enc)
                r.cmp(y, [B], lambda i: r.whole(hyps[i[0]], i[0])[-1] if m[i[0]] else None, info)
                state = rf.nested.mask_nested(new_state, mask=mask, mask_cpu=mask, mask_value=state)
            ctx.trans()
        # all advance at the end
        y, _ = r(r.inp([B], lambda i: i[0] * 5 + 9), single_step_dim, state, enc)
        r.cmp(y, [B], lambda i: r.whole(hyps[i[0]] + [i[0] * 5 + 9], i[0])[-1], f"{r.name} active via {case['how']}, history {[[b for b in range(nb) if mm[b]] for mm in hist]}, final step")
        ctx.trans()
        ctx.state((r.name, case["how"], hist))
        ctx.trace()


def run_case(case, ctx):
    import torch

    with torch.no_grad():
        globals()["_case_" + case["t"]](case, ctx)
    ctx.outcome((case["t"], case["mod"]))
    ctx.sample(case)


if __name__ == "__main__":
    harness.main(__name__)
