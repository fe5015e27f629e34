"""C40: sequence losses and distances (cross entropy, CTC, CTC automaton, edit distance, label smoothing): value and gradient are those of their definition, for every label sequence, length, batch and axis order."""
import itertools, math
from vlib import harness, rft
from vlib.harness import Violation, expect, expect_eq

PID = "C40"
LEVEL = "model_checking"
RULE = (
    "case = (loss, options); run_case enumerates all label sequences x lengths x axis orders, executed on the real code with poisoned padding;"
    " oracle = the definition (sum over all frame label sequences which collapse to the targets, Levenshtein recursion, sum over classes), gradients by the same definition;"
    " for the automaton: number of accepting paths of every frame label sequence; state = (loss, options, targets, lengths)"
)
BOUNDS = {
    "quick": "CTC: 2 labels + blank, all targets up to length 3, all input lengths 1-4, each blank index, 6 axis orders, broadcast over an extra dim in logits resp. targets; automaton: 2-3 labels, targets up to length 3-4, all frame sequences up to length 5; edit distance: all pairs of strings over 2 symbols up to length 4 (batched together and in small batches); cross entropy: all axis orders of up to 4 dims, sparse and dense targets, all 3 input types",
    "thorough": "automaton with frame sequences up to length 6, targets up to 4; edit distance strings up to length 5; CTC input lengths up to 5",
}
ASSUMPTIONS = ["torch backend on CPU", "behavior_version 24", "CTC of an impossible alignment is 0 (zero_infinity as in the code); float tolerance 1e-4", "CTC input lengths >= 1 (torch reads uninitialised memory for 0 frames)"]
CASE_TIMEOUT = 600


def parent_init():
    rft.init(24)


def gen_cases(tier):
    th = tier == "thorough"
    for est in ("logits", "log-probs", "probs"):
        for sparse in (True, False):
            for nd in (1, 2, 3, 4):
                yield dict(t="ce", est=est, sparse=sparse, nd=nd)
    for blank in (0, 1, 2):
        for norm in (False, True):
            for order in range(6):
                if order and norm:
                    continue
                yield dict(t="ctc", blank=blank, norm=norm, order=order, extra=None, tmax=5 if th else 4)
            for extra in ("logits", "targets", "both", "none"):
                yield dict(t="ctc", blank=blank, norm=norm, order=0, extra=extra, tmax=4 if th else 3)
    for nl in (1, 2, 3):
        for blank in range(nl + 1):
            for s in range(0, 5 if th else 4):
                yield dict(t="fsa", nl=nl, blank=blank, s=s, tmax=(6 if nl < 3 else 5) if th else 5 if nl < 3 else 4)
    n = 5 if th else 4
    for la in range(n + 1):
        for lb in range(n + 1):
            yield dict(t="ed", la=la, lb=lb)
    for order in range(4):
        yield dict(t="ed_all", n=4 if th else 3, order=order)
    for n in (2, 3):
        yield dict(t="ed_beam", n=n)
    for c in (2, 3, 4):
        for order in range(6):
            yield dict(t="smooth", c=c, order=order)


def _sm(row):
    m = max(row)
    e = [math.exp(v - m) for v in row]
    s = sum(e)
    return [v / s for v in e]


def _case_ce(case, ctx):
    import torch, returnn.frontend as rf

    est, sparse, nd = case["est"], case["sparse"], case["nd"]
    B, C = rft.static(2, "B"), rft.static(3, "C")
    T = rft.dyn([3, 2], [B], "T")
    H = rft.static(3, "H")
    base = [[], [B], [B, T], [B, T, H]][nd - 1]
    full = [C] + base
    lv = {tuple(i[d] for d in full): 1.3 * math.sin(7.7 * sum(i[d] * (5 ** k) for k, d in enumerate(full)) + 1) for i in rft.valid(full)}
    keys = sorted({k[1:] for k in lv})
    prob = {}
    for k in keys:
        for c, p in enumerate(_sm([lv[(c,) + k] for c in range(3)])):
            prob[(c,) + k] = p
    src = {"logits": lv, "probs": prob, "log-probs": {k: math.log(p) for k, p in prob.items()}}[est]
    lab = {k: (sum((j + 1) * v for j, v in enumerate(k)) + n) % 3 for n, k in enumerate(keys)}
    tgt = {}
    for k in keys:
        r = _sm([math.cos(3.1 * (c + 2 * sum((j + 1) * v for j, v in enumerate(k)))) for c in range(3)])
        for c in range(3):
            tgt[(c,) + k] = r[c]
    if sparse:
        exp = {k: -math.log(prob[(lab[k],) + k]) for k in keys}
    else:
        exp = {k: -sum(tgt[(c,) + k] * math.log(prob[(c,) + k]) for c in range(3)) for k in keys}
    for lo in itertools.permutations(full):
        pick = [lo.index(d) for d in full]
        for to in itertools.permutations(base if sparse else full):
            e = rft.mk(lo, lambda i: src[tuple(i[p] for p in pick)], pad=1e3 if est != "probs" else 0.5, feature_dim=C)
            e.raw_tensor.requires_grad_(True)
            if sparse:
                pb = [to.index(d) for d in base]
                t = rft.mk(to, lambda i: lab[tuple(i[p] for p in pb)], dtype="int64" if lo[0] is C else "int32", pad=1, sparse_dim=C)
            else:
                pf = [to.index(d) for d in full]
                t = rft.mk(to, lambda i: tgt[tuple(i[p] for p in pf)], pad=0.0, feature_dim=C)
            try:
                r = rf.cross_entropy(estimated=e, target=t, axis=C, estimated_type=est)
                got = rft.get(r, base)
            except Exception as ex:
                raise Violation(f"cross_entropy estimated dims {lo} target dims {to} {est}: {type(ex).__name__}: {ex}"[:600])
            dd = rft.diff(got, exp, 1e-4)
            expect(dd is None, lambda: f"cross_entropy estimated dims {lo} target dims {to} {est}: {dd}")
            rf.reduce_sum(r, axis=r.dims).raw_tensor.backward() if base else r.raw_tensor.backward()
            g = e.raw_tensor.grad
            for i in rft.valid(full):
                k = tuple(i[d] for d in full)
                tp = (1.0 if lab[k[1:]] == k[0] else 0.0) if sparse else tgt[k]
                ge = {"logits": prob[k] - tp, "log-probs": -tp, "probs": -tp / prob[k]}[est]
                gg = g[tuple(i[d] for d in lo)].item()
                expect(abs(gg - ge) <= 1e-4 * max(1, abs(ge)), lambda: f"cross_entropy grad at {k}: {gg}, expected {ge} ({est}, dims {lo}, {to})")
            ctx.trans()
            ctx.state((est, sparse, str(lo), str(to)))
    ctx.trace()


def _collapse(s, blank):
    out, prev = [], None
    for x in s:
        if x != prev and x != blank:
            out.append(x)
        prev = x
    return tuple(out)


def _ctc_ref(logp, targets, blank):
    """:return: (prob, posterior[t][c]) over all frame sequences which collapse to targets"""
    T, C = len(logp), 3
    tot, post = 0.0, [[0.0] * C for _ in range(T)]
    for s in itertools.product(range(C), repeat=T):
        if _collapse(s, blank) == targets:
            p = math.exp(sum(logp[t][c] for t, c in enumerate(s)))
            tot += p
            for t, c in enumerate(s):
                post[t][c] += p
    return tot, post


def _case_ctc(case, ctx):
    import torch, returnn.frontend as rf

    blank, norm, tmax = case["blank"], case["norm"], case["tmax"]
    labels = [c for c in range(3) if c != blank]
    tgts = [t for n in range(0, 4) for t in itertools.product(labels, repeat=n)]
    if case["extra"] is not None:
        tgts = tgts[:7]
    C = rft.static(3, "C")
    hs = 2
    for lens in [[tl] * 1 for tl in range(1, tmax + 1)] if case["extra"] is None else [[2, 3], [3, 1]]:
        combos = [(tl, t) for tl in (lens if case["extra"] is None else [tmax]) for t in tgts]
        if case["extra"] is None:
            # plus other input lengths in the same batch, so that there is padding
            combos = [(tl if j % 3 != 2 else tmax, t) for j, (tl, t) in enumerate(combos)]
        else:
            combos = [(lens[j % 2], t) for j, t in enumerate(tgts)]
        nb = len(combos)
        B = rft.static(nb, "B")
        H = rft.static(hs, "H")
        T = rft.dyn([tl for tl, _ in combos], [B], "T")
        S = rft.dyn([len(t) for _, t in combos], [B], "S")
        ex = case["extra"]
        with_l, with_t = ex in ("logits", "both"), ex in ("targets", "both")

        def lv(h, b, t, c):
            return 1.5 * math.sin(1.0 + 3.3 * b + 5.1 * t + 2.7 * c + 11.3 * (h if with_l else 0))

        def tv(h, b, s):
            t = combos[b][1][s]
            return t if not (with_t and h == 1) else labels[1 - labels.index(t)]  # other labels for h=1

        def row(h, b, t):
            p = _sm([lv(h, b, t, c) for c in range(3)])
            return [math.log(v) for v in p]

        ld = [[B, T, C], [T, B, C], [C, B, T], [T, C, B], [B, C, T], [C, T, B]][case["order"]]
        td = [[B, S], [S, B]][case["order"] % 2]
        if with_l:
            ld = [H] + ld if not norm else ld[:1] + [H] + ld[1:]
        if with_t:
            td = td + [H] if norm else [H] + td

        def fl(i):
            k = dict(zip(ld, i))
            h = k.get(H, 0)
            return row(h, k[B], k[T])[k[C]] if norm else lv(h, k[B], k[T], k[C])

        def ft(i):
            k = dict(zip(td, i))
            return tv(k.get(H, 0), k[B], k[S])

        lo = rft.mk(ld, fl, pad=50.0, feature_dim=C)
        lo.raw_tensor.requires_grad_(True)
        ta = rft.mk(td, ft, dtype="int32", pad=labels[0], sparse_dim=C)
        out = [H, B] if (with_l or with_t) else [B]
        try:
            loss = rf.ctc_loss(logits=lo, logits_normalized=norm, targets=ta, input_spatial_dim=T, targets_spatial_dim=S, blank_index=blank)
            got = rft.get(loss, out)
        except Exception as e:
            raise Violation(f"ctc_loss {case} lens {[c[0] for c in combos]}: {type(e).__name__}: {e}"[:800])
        # only backprop the finite ones with nonzero loss (else zero anyway)
        loss.raw_tensor.sum().backward()
        g = lo.raw_tensor.grad
        grad = {}
        for i in rft.valid([H, B] if out != [B] else [B]):
            h, b = i.get(H, 0) if out != [B] else 0, i[B]
            tl = combos[b][0]
            logp = [row(h, b, t) for t in range(tl)]
            tg = tuple(tv(h, b, s) for s in range(len(combos[b][1])))
            p, post = _ctc_ref(logp, tg, blank)
            e = -math.log(p) if p > 0 else 0.0
            k = (h, b) if out != [B] else (b,)
            expect(abs(got[k] - e) < 1e-4 * max(1, abs(e)), lambda: f"ctc_loss of targets {tg}, {tl} frames, blank {blank}: {got[k]}, expected {e} ({case})")
            for t in range(tl):
                for c in range(3):
                    gg = 0.0 if p == 0 else math.exp(logp[t][c]) - post[t][c] / p
                    kk = (h if with_l else 0, b, t, c)
                    grad[kk] = grad.get(kk, 0.0) + gg
            ctx.trans()
            ctx.state(("ctc", blank, norm, tl, tg, case["order"], ex))
        if not norm:  # for logits_normalized, torch defines the gradient only up to the normalization
            for kk, e in grad.items():
                k = {H: kk[0], B: kk[1], T: kk[2], C: kk[3]}
                v = g[tuple(k[d] for d in ld)].item()
                expect(abs(v - e) < 2e-4, lambda: f"ctc_loss gradient at b={kk[1]} t={kk[2]} c={kk[3]}: {v}, expected {e}; targets {combos[kk[1]]} ({case})")
            # no gradient into the padding
            z = g.clone()
            for kk in grad:
                k = {H: kk[0], B: kk[1], T: kk[2], C: kk[3]}
                z[tuple(k[d] for d in ld)] = 0
            expect(float(z.abs().sum()) == 0.0, lambda: f"ctc_loss: gradient into padded frames ({case})")
    ctx.trace()


def _case_fsa(case, ctx):
    import numpy
    from returnn.util.fsa import get_ctc_fsa_fast_bw

    nl, blank, s = case["nl"], case["blank"], case["s"]
    labels = [c for c in range(nl + 1) if c != blank]
    tg = list(itertools.product(labels, repeat=s))
    # all of that length in one batch, plus shorter ones in between (padding)
    seqs = []
    for j, t in enumerate(tg):
        seqs.append(t)
        if s:
            seqs.append(t[: j % s])
    smax = max(s, 1)
    targets = numpy.full((len(seqs), smax), labels[0], dtype="int32")
    for b, t in enumerate(seqs):
        targets[b, : len(t)] = t
    f = get_ctc_fsa_fast_bw(targets=targets, seq_lens=numpy.array([len(t) for t in seqs], dtype="int32"), blank_idx=blank)
    expect_eq(f.num_batch, len(seqs), "num batch")
    expect(not numpy.any(f.weights), "weights are not 0")
    edges = {}
    owner = {}
    for a, b, em, q in f.edges.T.tolist():
        edges.setdefault((q, a, em), []).append(b)
        for st in (a, b):
            expect(owner.setdefault(st, q) == q, f"state {st} shared by seqs {owner[st]} and {q}")
    for q, t in enumerate(seqs):
        st, en = f.start_end_states[:, q].tolist()
        # walk all frame sequences (as a tree), count the paths
        def rec(states, frames):
            ctx.trans()
            n = states.get(en, 0)
            acc = _collapse(frames, blank) == t
            if frames or not t:
                expect(n == (1 if acc else 0), lambda: f"CTC automaton for {t} (blank {blank}): {n} paths for the frame labels {frames}, expected {int(acc)}")
            if len(frames) == case["tmax"]:
                return
            for em in range(nl + 1):
                nxt = {}
                for x, c in states.items():
                    for y in edges.get((q, x, em), ()):
                        nxt[y] = nxt.get(y, 0) + c
                rec(nxt, frames + (em,))

        rec({st: 1}, ())
        ctx.state(("fsa", nl, blank, t))
    ctx.trace()


def _lev(a, b, _cache={}):
    k = (a, b)
    if k not in _cache:
        if not a or not b:
            r = len(a) + len(b)
        else:
            r = min(_lev(a[1:], b) + 1, _lev(a, b[1:]) + 1, _lev(a[1:], b[1:]) + (a[0] != b[0]))
        _cache[k] = r
    return _cache[k]


def _ed(pairs, order, ctx, case, junk=1):
    import returnn.frontend as rf

    B, V = rft.static(len(pairs), "B"), rft.static(3, "V")
    A = rft.dyn([len(a) for a, _ in pairs], [B], "A")
    Bd = rft.dyn([len(b) for _, b in pairs], [B], "Bs")
    da, db = [B, A] if order & 1 else [A, B], [B, Bd] if order & 2 else [Bd, B]
    ta = rft.mk(da, lambda i: pairs[i[da.index(B)]][0][i[da.index(A)]], dtype="int32", pad=junk, sparse_dim=V)
    tb = rft.mk(db, lambda i: pairs[i[db.index(B)]][1][i[db.index(Bd)]], dtype="int32", pad=junk, sparse_dim=V)
    try:
        r = rft.get(rf.edit_distance(ta, A, tb, Bd), [B])
    except Exception as e:
        raise Violation(f"edit_distance of {pairs[:4]}: {type(e).__name__}: {e}"[:600])
    for b, (x, y) in enumerate(pairs):
        expect(r[(b,)] == _lev(x, y), lambda: f"edit_distance({x}, {y}) = {r[(b,)]}, expected {_lev(x, y)}, in batch with max lens {max(len(p[0]) for p in pairs)}, {max(len(p[1]) for p in pairs)}")
        ctx.trans()
        ctx.state((x, y))


def _case_ed(case, ctx):
    """all pairs of exactly these lengths, alone in the batch together (also each with shorter ones)"""
    sa = list(itertools.product((0, 1), repeat=case["la"]))
    sb = list(itertools.product((0, 1), repeat=case["lb"]))
    pairs = list(itertools.product(sa, sb))
    _ed(pairs, 0, ctx, case)
    for k in range(0, case["la"] + 1):
        for l in range(0, case["lb"] + 1):
            _ed([pairs[(7 * k + 3 * l) % len(pairs)]] + [(a[:k], b[:l]) for a, b in pairs[:: max(1, len(pairs) // 8)]], (k + l) % 4, ctx, case, junk=k % 2)
    ctx.trace()


def _case_ed_all(case, ctx):
    ss = [s for n in range(case["n"] + 1) for s in itertools.product((0, 1), repeat=n)]
    for junk in (0, 1):
        _ed(list(itertools.product(ss, ss)), case["order"], ctx, case, junk)
    ctx.trace()


def _case_ed_beam(case, ctx):
    """hyps with a beam dim, refs without, and vice versa"""
    import returnn.frontend as rf

    n = case["n"]
    refs = [s for k in range(n + 1) for s in itertools.product((0, 1), repeat=k)]
    hyps = [[refs[(3 * b + 5 * h) % len(refs)] for h in range(3)] for b in range(len(refs))]
    B, H, V = rft.static(len(refs), "B"), rft.static(3, "H"), rft.static(3, "V")
    R = rft.dyn([len(r) for r in refs], [B], "R")
    Y = rft.dyn([[len(y) for y in hs] for hs in hyps], [B, H], "Y")
    for dr in itertools.permutations([B, R]):
        tr = rft.mk(dr, lambda i: refs[i[dr.index(B)]][i[dr.index(R)]], dtype="int32", pad=1, sparse_dim=V)
        for dy in itertools.permutations([B, H, Y]):
            ty = rft.mk(dy, lambda i: hyps[i[dy.index(B)]][i[dy.index(H)]][i[dy.index(Y)]], dtype="int32", pad=0, sparse_dim=V)
            for args in ((ty, Y, tr, R), (tr, R, ty, Y)):
                try:
                    got = rft.get(rf.edit_distance(*args), [B, H])
                except Exception as e:
                    raise Violation(f"edit_distance with beam, dims {[a.dims for a in args[::2]]}: {type(e).__name__}: {e}"[:600])
                for b in range(len(refs)):
                    for h in range(3):
                        expect(got[b, h] == _lev(refs[b], hyps[b][h]), lambda: f"edit_distance({refs[b]}, {hyps[b][h]}) in a beam = {got[b, h]}, expected {_lev(refs[b], hyps[b][h])}")
                        ctx.trans()
                ctx.state((n, str(dr), str(dy), args[0] is ty))
    ctx.trace()


def _case_smooth(case, ctx):
    import torch, returnn.frontend as rf

    n = case["c"]
    B, C = rft.static(2, "B"), rft.static(n, "C")
    T = rft.dyn([3, 2], [B], "T")
    order = list(itertools.permutations([B, T, C]))[case["order"]]
    lab = lambda b, t: (2 * b + t) % n
    for sm in (0.0, 0.1, 0.3, 0.5):
        sd = [d for d in order if d != C]
        sp = rft.mk(sd, lambda i: lab(i[sd.index(B)], i[sd.index(T)]), dtype="int32", pad=0, sparse_dim=C)
        de = rft.mk(order, lambda i: float(lab(i[order.index(B)], i[order.index(T)]) == i[order.index(C)]), pad=0.0, feature_dim=C)
        exp = {(b, t, c): (1 - sm if lab(b, t) == c else sm / (n - 1)) for b in range(2) for t in range([3, 2][b]) for c in range(n)}
        for x in (sp, de):
            dd = rft.diff(rft.get(rf.label_smoothing(x, sm, axis=C), [B, T, C]), exp)
            expect(dd is None, lambda: f"label_smoothing({x}, {sm}): {dd}")
            ctx.trans()
        soft = {}
        for b in range(2):
            for t in range([3, 2][b]):
                for c, p in enumerate(_sm([math.sin(3 * b + 5 * t + 2 * c) for c in range(n)])):
                    soft[b, t, c] = p
        for excl in [()] + ([(0,), (n - 1,)] if n >= 3 else []) + ([(0, n - 1)] if n >= 4 else []):
            for scale in (1.0, 2.5):
                lp = rft.mk(order, lambda i: math.log(soft[tuple(i[order.index(d)] for d in (B, T, C))]), pad=-1.0, feature_dim=C)
                lp.raw_tensor.requires_grad_(True)
                out = rf.label_smoothed_log_prob_gradient(lp, sm, axis=C, **({"exclude_labels": list(excl)} if excl else {}))
                dd = rft.diff(rft.get(out, [B, T, C]), {k: math.log(v) for k, v in soft.items()})
                expect(dd is None, lambda: f"label_smoothed_log_prob_gradient changes the value: {dd}")
                # loss with soft targets; frame (0,0) not part of the loss (masked): its gradient stays 0
                tq = rft.mk([B, T, C], lambda i: 0.0 if i[:2] == (0, 0) else soft[i[0], i[1], (i[2] + 1) % n], pad=0.0, feature_dim=C)
                (-rf.reduce_sum(tq * out, axis=[B, T, C]).raw_tensor * scale).backward()
                g = lp.raw_tensor.grad
                inc = [c for c in range(n) if c not in excl]
                for (b, t, c) in soft:
                    v = g[tuple({B: b, T: t, C: c}[d] for d in order)].item()
                    q = 0.0 if (b, t) == (0, 0) else soft[b, t, (c + 1) % n]
                    if (b, t) == (0, 0):
                        e = 0.0
                    elif c in excl:
                        e = -scale * q
                    else:
                        fl = sm / (len(inc) - 1)
                        if excl:
                            e = None  # only the sum over the included ones is defined below
                        else:
                            e = -scale * (q * (1 - len(inc) * fl) + fl)
                    if e is not None:
                        expect(abs(v - e) < 1e-4, lambda: f"label_smoothed_log_prob_gradient {sm} excl {excl} at {(b, t, c)}: grad {v}, expected {e}")
                    ctx.trans()
        ctx.state(("smooth", n, sm, str(order)))
    ctx.trace()


def run_case(case, ctx):
    globals()["_case_" + case["t"]](case, ctx)
    ctx.outcome(case["t"])


def check_vacuity(total):
    if total.transitions < 10000:
        return f"only {total.transitions} evaluations"


if __name__ == "__main__":
    harness.main(__name__)
