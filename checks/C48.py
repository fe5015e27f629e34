"""C48: native ops (TF): exactly the quantities of their definition, for every sequence of the batch."""
import itertools, math
from vlib import harness, tfnet
from vlib.harness import Violation, expect, expect_eq

PID = "C48"
LEVEL = "model_checking"
RULE = (
    "case = (op, options, chunk); all label sequences / automata / lengths of the bound form the batches (also shuffled and with other max lengths) of the real compiled native op;"
    " oracle = enumeration of all paths / all alignments, plain DP for distances, LSTM equations; state = (op, options, sequence(s)); transition = result compared"
)
BOUNDS = {
    "quick": "edit distances: all pairs over {0,1} up to length 3; CTC / RNA: all targets over {0,1} up to length 3, 0..4 (1..5) frames, blank first/last; automata: all 4096 subsets of the 12 possible edges of a 3-state automaton with 2 labels, 1..3 frames; chunking: all lengths <= 5, size <= 3, step <= 3; LSTM: all pairs of lengths <= 3, both directions",
    "thorough": "edit distances up to length 4, 3 labels up to length 3; CTC targets up to length 4 and 6 frames; LSTM with 3 sequences",
}
ASSUMPTIONS = ["CPU kernels"]


def parent_init():
    tfnet.init()


def gen_cases(tier):
    q = tier == "quick"
    yield dict(op="bw", nf=0, parts=8)
    for part in range(8):
        for T in (1, 2, 3):
            yield dict(op="fsa", part=part, T=T)
    for n, L in ((2, 3),) if q else ((2, 4), (3, 3)):
        for perm in (0, 1, 2):
            yield dict(op="edit", n=n, L=L, perm=perm)
            yield dict(op="editrow", n=n, L=L, perm=perm)
    for blank in (0, 1, -1):
        for loop in (True, False):
            for maxL in (0, 1, 2, 3) if q else (1, 2, 3, 4):
                yield dict(op="ctc", blank=blank, loop=loop, maxL=maxL, T=4 if q else 6)
        for maxL in (1, 2, 3):
            yield dict(op="ctcvit", blank=blank, maxL=maxL, T=4 if q else 5)
        yield dict(op="ctcfsa", blank=blank, maxL=3)
    for size in (1, 2, 3):
        for step in (1, 2, 3):
            if step <= size:
                yield dict(op="chunk", size=size, step=step)
    for direction in (1, -1):
        for n in (1, 2):
            yield dict(op="lstm", direction=direction, n=n, B=2 if q else 3)


class Graph:
    def __init__(self):
        import tensorflow as tf

        self.tf = tf
        self.g = tf.compat.v1.Graph()

    def __enter__(self):
        self.cm = self.g.as_default()
        self.cm.__enter__()
        return self

    def __exit__(self, *a):
        self.cm.__exit__(*a)

    def ph(self, shape, dtype="int32"):
        return self.tf.compat.v1.placeholder(dtype, shape)

    def session(self):
        tf = self.tf
        opts = tf.compat.v1.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=1, device_count=dict(GPU=0))
        return tf.compat.v1.Session(graph=self.g, config=opts)


def seqs(n, L):
    return [s for k in range(L + 1) for s in itertools.product(range(n), repeat=k)]


def shuffle(lst, k):
    """deterministic permutations"""
    if k == 0:
        return lst
    if k == 1:
        return lst[::-1]
    p = next(p for p in (97, 89, 83, 79) if len(lst) % p)
    return [lst[(i * p + 5) % len(lst)] for i in range(len(lst))]


def pad(lst, fill, extra=0):
    import numpy as np

    T = max([len(s) for s in lst] + [0]) + extra
    out = np.full((len(lst), T), fill, dtype="int32")
    for b, s in enumerate(lst):
        out[b, : len(s)] = s
        for t in range(len(s), T):
            out[b, t] = (b + t) % 2
    return out, np.array([len(s) for s in lst], dtype="int32")


def ed_row(a, b):
    d = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        e = [i]
        for j, y in enumerate(b, 1):
            e.append(min(d[j] + 1, e[j - 1] + 1, d[j - 1] + (x != y)))
        d = e
    return d


def case_edit(case, ctx):
    import numpy as np
    from returnn.tf import native_op as N

    S = seqs(case["n"], case["L"])
    pairs = shuffle([(a, b) for a in S for b in S], case["perm"])
    with Graph() as g:
        pa, pal, pb, pbl = g.ph((None, None)), g.ph((None,)), g.ph((None, None)), g.ph((None,))
        fetch = dict(
            ed=N.edit_distance(pa, pal, pb, pbl),
            oc=N.optimal_completion_edit_distance(pa, pal, pb, pbl),
            ocs=N.optimal_completion_edit_distance_per_successor(pa, pal, pb, pbl, case["n"] + 1),
        )
        with g.session() as session:
            for group in (pairs, pairs[: len(pairs) // 3], [p for p in pairs if len(p[0]) == 2], [p for p in pairs if len(p[1]) <= 1], [p for p in pairs if len(p[1]) == case["L"]]):
                a, al = pad([p[0] for p in group], 0)
                b, bl = pad([p[1] for p in group], 0)
                r = session.run(fetch, feed_dict={pa: a, pal: al, pb: b, pbl: bl})
                ctx.trace()
                for i, (x, y) in enumerate(group):
                    row = ed_row(x, y)
                    ctx.state(("edit", x, y))
                    ctx.trans()
                    expect_eq(int(r["ed"][i]), row[-1], "edit_distance(%r, %r)" % (x, y))
                    expect_eq(int(r["oc"][i]), min(row), "optimal_completion_edit_distance(%r, %r)" % (x, y))
                    ctx.outcome((row[-1], min(row)))
                    for w in range(case["n"] + 1):
                        expect_eq(int(r["ocs"][i, w]), min(ed_row(x + (w,), y)), "optimal_completion_edit_distance_per_successor(%r, %r), successor %i" % (x, y, w))


def case_editrow(case, ctx):
    """the rows, step by step, with sequences which end at different steps"""
    import numpy as np
    from returnn.tf import native_op as N

    n = case["n"]
    S = seqs(n, case["L"])
    pairs = shuffle([(a, b) for a in S for b in S], case["perm"])
    b, bl = pad([p[1] for p in pairs], 0)
    labels = np.array([list(range(n + 1))], dtype="int32")
    with Graph() as g:
        prow, pa, pan, pae, pb, pbl, pl = g.ph((None, None)), g.ph((None,)), g.ph((None,)), g.ph((None,)), g.ph((None, None)), g.ph((None,)), g.ph((None, None))
        nxt = N.next_edit_distance_row(prow, pa, pan, pae, pb, pbl)
        red = {
            (oc, blank): N.next_edit_distance_reduce(prow, pl, pan, pae, pb, pbl, optimal_completion=oc, a_blank_idx=blank) for oc in (False, True) for blank in (None, 0)
        }
        with g.session() as session:
            row = np.tile(np.arange(b.shape[1] + 1, dtype="int32")[None], (len(pairs), 1))
            for t in range(case["L"] + 1):
                ended = np.array([t >= len(p[0]) for p in pairs], dtype="int32")
                cur = np.array([p[0][t] if t < len(p[0]) else 1 for p in pairs], dtype="int32")
                an = np.array([min(t, len(p[0])) for p in pairs], dtype="int32")
                # not ended: all successors
                for lb in (labels, np.tile(labels, (len(pairs), 1))):
                    for which in (np.zeros_like(ended), ended):
                        r = session.run(red, feed_dict={prow: row, pl: lb, pan: an, pae: which, pb: b, pbl: bl})
                        for (oc, blank), res in r.items():
                            for i, (x, y) in enumerate(pairs):
                                for w in range(n + 1):
                                    e = ed_row(x[:t] if which[i] or w == blank else x[:t] + (w,), y)
                                    expect_eq(int(res[i, w]), min(e) if oc else e[-1], "next_edit_distance_reduce(optimal_completion=%r, blank=%r): prefix %r (ended %i), label %i, ref %r" % (oc, blank, x[:t], which[i], w, y))
                                    ctx.trans()
                row = session.run(nxt, feed_dict={prow: row, pa: cur, pan: an, pae: ended, pb: b, pbl: bl})
                ctx.trace()
                for i, (x, y) in enumerate(pairs):
                    ctx.state(("row", x[: t + 1], y))
                    expect_eq(row[i, : len(y) + 1].tolist(), ed_row(x[: t + 1], y), "next_edit_distance_row: prefix %r, ref %r" % (x[: t + 1], y))


def collapse(path, blank, loop):
    out = []
    prev = None
    for s in path:
        if s != blank and not (loop and s == prev):
            out.append(s)
        prev = s
    return tuple(out)


def score(b, t, k):
    """generic, tie-free"""
    return round(-0.3 - 1.7 * (((b * 7 + t) * 13 + k * 29) * 2654435761 % 1000003 / 1000003.0), 4)


def lse(xs):
    m = max(xs)
    return m + math.log(sum(math.exp(x - m) for x in xs))


def _targets(case):
    dim = 3
    blank = case["blank"] % dim
    labs = [i for i in range(dim) if i != blank]
    return dim, blank, [tuple(labs[i] for i in s) for s in seqs(2, case["maxL"])]


def case_ctc(case, ctx):
    import numpy as np
    from returnn.tf import native_op as N

    dim, blank, targets = _targets(case)
    T = case["T"]
    if case["maxL"] == 0:
        return  # the op needs at least one label in the batch
    paths = {t: {} for t in range(0, T + 1)}
    for t in range(1, T + 1):
        for p in itertools.product(range(dim), repeat=t):
            paths[t].setdefault(collapse(p, blank, case["loop"]), []).append(p)
    batch = shuffle([(y, t) for y in targets for t in range(1, T + 1)], 2)
    with Graph() as g:
        pl, pll, pt, ptl = g.ph((None, None, dim), "float32"), g.ph((None,)), g.ph((None, None)), g.ph((None,))
        fetch = {}
        for norm in (True, False):
            loss = N.ctc_loss(pl, pll, False, pt, ptl, ctc_merge_repeated=case["loop"], logits_normalize=norm, grad_wrt_softmax_in=norm, blank_index=case["blank"])
            fetch[norm] = (loss, g.tf.gradients(loss, pl)[0])
        with g.session() as session:
            feas = [(y, t) for y, t in batch if y in paths[t]]
            for group, allf in ((feas, True), (batch, False)):
                x = np.zeros((len(group), T, dim), dtype="float32")
                for b in range(len(group)):
                    for t in range(T):
                        for k in range(dim):
                            x[b, t, k] = score(b, t, k)
                tg, tl = pad([y for y, _ in group], 0)
                r = session.run(fetch, feed_dict={pl: x, pll: np.array([t for _, t in group], dtype="int32"), pt: tg, ptl: tl})
                ctx.trace()
                for b, (y, t) in enumerate(group):
                    for norm in (True, False):
                        lp = x[b].astype("float64")
                        if norm:
                            lp = lp - np.log(np.exp(lp).sum(axis=1, keepdims=True))
                        what = "ctc_loss(blank=%i, merge_repeated=%r, normalize=%r): targets %r, %i frames" % (blank, case["loop"], norm, y, t)
                        got, grad = float(r[norm][0][b]), r[norm][1][b]
                        if y not in paths[t]:
                            continue  # impossible: result not defined, but it must not disturb the others
                        ss = {p: sum(lp[i, s] for i, s in enumerate(p)) for p in paths[t][y]}
                        tot = lse(list(ss.values()))
                        expect(abs(got + tot) < 1e-3, "%s: loss %r, expected %r" % (what, got, -tot))
                        post = np.zeros((T, dim))
                        for p, s in ss.items():
                            for i, k in enumerate(p):
                                post[i, k] += math.exp(s - tot)
                        exp = -post
                        if norm:
                            exp[:t] += np.exp(lp[:t])
                        expect(np.allclose(grad, exp, atol=2e-3), "%s: gradient %s, expected %s" % (what, grad.tolist(), exp.tolist()))
                        ctx.trans()
                        ctx.state(("ctc", case["blank"], case["loop"], y, t))
                    ctx.outcome((y, t, y in paths[t]))


def case_ctcvit(case, ctx):
    import numpy as np
    from returnn.tf import native_op as N

    dim, blank, targets = _targets(case)
    T = case["T"]
    paths = {t: {} for t in range(0, T + 1)}
    for t in range(1, T + 1):
        for p in itertools.product(range(dim), repeat=t):
            paths[t].setdefault(collapse(p, blank, True), []).append(p)
    group = shuffle([(y, t) for y in targets for t in range(1, T + 1) if y in paths[t]], 2)
    with Graph() as g:
        pl, pll, pt, ptl = g.ph((None, None, dim), "float32"), g.ph((None,)), g.ph((None, None)), g.ph((None,))
        loss = N.ctc_loss_viterbi(pl, pll, False, pt, ptl, blank_index=case["blank"])
        edges, weights, se = N.get_ctc_fsa_fast_bw(targets=pt, seq_lens=ptl, blank_idx=blank)
        ali, sc = N.fast_viterbi(am_scores=g.tf.transpose(g.tf.nn.log_softmax(pl), [1, 0, 2]), am_seq_len=pll, edges=edges, weights=weights, start_end_states=se)
        fetch = (loss, g.tf.gradients(loss, pl)[0], ali, sc)
        with g.session() as session:
            for rep in range(3):
                x = np.zeros((len(group), T, dim), dtype="float32")
                for b in range(len(group)):
                    for t in range(T):
                        for k in range(dim):
                            x[b, t, k] = 2 * score(b + 1000 * rep, t, k)
                tg, tl = pad([y for y, _ in group], 0)
                loss_, grad_, ali_, sc_ = session.run(fetch, feed_dict={pl: x, pll: np.array([t for _, t in group], dtype="int32"), pt: tg, ptl: tl})
                ctx.trace()
                for b, (y, t) in enumerate(group):
                    lp = x[b].astype("float64")
                    lp = lp - np.log(np.exp(lp).sum(axis=1, keepdims=True))
                    cands = sorted(((sum(lp[i, s] for i, s in enumerate(p)), p) for p in paths[t][y]), reverse=True)
                    what = "CTC Viterbi(blank=%i): targets %r, %i frames" % (blank, y, t)
                    expect(abs(float(loss_[b]) + cands[0][0]) < 1e-3 and abs(float(sc_[b]) - cands[0][0]) < 1e-3, "%s: loss %r, expected %r" % (what, float(loss_[b]), -cands[0][0]))
                    if len(cands) > 1 and cands[0][0] - cands[1][0] < 1e-3:
                        ctx.count("ties_skipped")
                        continue
                    best = cands[0][1]
                    expect_eq(ali_[:t, b].tolist(), list(best), what + ": alignment")
                    exp = np.zeros((T, dim))
                    exp[:t] = np.exp(lp[:t])
                    for i, k in enumerate(best):
                        exp[i, k] -= 1
                    expect(np.allclose(grad_[b], exp, atol=2e-3), "%s: gradient %s, expected %s" % (what, grad_[b].tolist(), exp.tolist()))
                    ctx.trans()
                    ctx.state(("vit", case["blank"], y, t, rep))
                    ctx.outcome((y, best))


def case_ctcfsa(case, ctx):
    """the automata (native and Python variant): each string has exactly one path iff it collapses to the targets"""
    import numpy as np
    from returnn.tf import native_op as N
    from returnn.util import fsa

    dim, blank, targets = _targets(case)
    for group in (targets, targets[::-1], targets[:3], [targets[1]]):
        tg, tl = pad(group, 0)
        with Graph() as g:
            e1 = [N.get_ctc_fsa_fast_bw(targets=g.tf.constant(tg), seq_lens=g.tf.constant(tl), blank_idx=blank, label_loop=loop) for loop in (True, False)]
            with g.session() as session:
                e1 = session.run(e1)
        f = fsa.get_ctc_fsa_fast_bw(tg, tl, blank)
        for name, loop, edges, weights, se in (("native", True) + tuple(e1[0]), ("native", False) + tuple(e1[1]), ("python", True, f.edges, f.weights, f.start_end_states)):
            expect(np.all(np.asarray(weights) == 0), "weights zero")
            for b, y in enumerate(group):
                # (the native op fills up with dummy edges)
                out = {}
                for s, t, k, q in np.asarray(edges).T.tolist():
                    if q == b:
                        out.setdefault(s, []).append((t, k))
                start, end = int(se[0][b]), int(se[1][b])
                cnt = {(): {start: 1}}
                todo = [()]
                for path in todo:
                    got = cnt[path].get(end, 0)
                    want = 1 if collapse(path, blank, loop) == y else 0
                    if path:
                        expect_eq(got, want, "%s CTC FSA (label_loop=%r, blank=%i) for targets %r: number of paths for the string %r" % (name, loop, blank, y, path))
                        ctx.trans()
                    if len(path) < 5:
                        for k in range(dim):
                            nxt = {}
                            for s, c in cnt[path].items():
                                for t, k2 in out.get(s, ()):
                                    if k2 == k:
                                        nxt[t] = nxt.get(t, 0) + c
                            cnt[path + (k,)] = nxt
                            todo.append(path + (k,))
                ctx.state((name, loop, blank, y))
                ctx.trace()
                ctx.outcome((name, loop, y))


ALL_EDGES = [(s, t, k) for s in range(3) for t in range(s, 3) for k in range(2)]


def _paths(es, T):
    """:return: list of (labels, edges) of all paths 0 -> 2 with T edges"""
    cur = [(0, (), ())]
    for _ in range(T):
        cur = [(t, ks + (k,), ei + (i,)) for s0, ks, ei in cur for i, (s, t, k) in enumerate(es) if s == s0]
    return [(ks, ei) for s, ks, ei in cur if s == 2]


def case_fsa(case, ctx):
    import numpy as np
    from returnn.tf import native_op as N

    T = case["T"]
    subsets = []
    for m in range(case["part"], 1 << len(ALL_EDGES), 8):
        es = [e for i, e in enumerate(ALL_EDGES) if m >> i & 1]
        for t in {T} | ({T - 1} if T > 1 else set()):
            if (m // 8) % 2 == (T - t):
                ps = _paths(es, t)
                if ps:
                    subsets.append((m, es, t, ps))
    with Graph() as g:
        pam, plen, pe, pw, pse = g.ph((None, None, 2), "float32"), g.ph((None,)), g.ph((4, None)), g.ph((None,), "float32"), g.ph((2, None))
        idx = g.tf.transpose(g.tf.sequence_mask(plen, g.tf.shape(pam)[0]))
        fw, obs = N.fast_baum_welch(am_scores=-pam, edges=pe, weights=pw, start_end_states=pse, float_idx=idx)
        ali, sc = N.fast_viterbi(am_scores=pam, am_seq_len=plen, edges=pe, weights=-pw, start_end_states=pse)
        with g.session() as session:
            for i0 in range(0, len(subsets), 37):
                group = subsets[i0 : i0 + 37]
                x = np.zeros((T, len(group), 2), dtype="float32")
                edges, weights, se, wts = [], [], [], []
                for b, (m, es, t, ps) in enumerate(group):
                    for tt in range(T):
                        for k in range(2):
                            x[tt, b, k] = score(m, tt, k) if tt < t else 3.3
                    w = [round(0.1 + 0.37 * ((m * 3 + i * 7) % 11), 3) for i in range(len(es))]
                    wts.append(w)
                    # edges not sorted: automata and orders interleaved as built
                    order = range(len(es)) if m % 3 else range(len(es) - 1, -1, -1)
                    for i in order:
                        s, tg, k = es[i]
                        edges.append((3 * b + s, 3 * b + tg, k, b))
                        weights.append(w[i])
                    se.append((3 * b, 3 * b + 2))
                lens = np.array([t for _, _, t, _ in group], dtype="int32")
                fd = {pam: x, plen: lens, pe: np.array(edges, dtype="int32").T, pw: np.array(weights, dtype="float32"), pse: np.array(se, dtype="int32").T}
                fw_, obs_, ali_, sc_ = session.run((fw, obs, ali, sc), feed_dict=fd)
                ctx.trace()
                for b, (m, es, t, ps) in enumerate(group):
                    what = "automaton with edges (from,to,label) %r, %i frames" % (es, t)
                    sco = [(sum(float(x[i, b, k]) for i, k in enumerate(ks)) - sum(wts[b][i] for i in ei), ks) for ks, ei in ps]
                    tot = lse([s for s, _ in sco])
                    for tt in range(t):
                        expect(abs(float(obs_[tt, b]) + tot) < 2e-3, "fast_baum_welch: %s: score %r (frame %i), expected %r" % (what, float(obs_[tt, b]), tt, -tot))
                        for k in range(2):
                            p = sum(math.exp(s - tot) for s, ks in sco if ks[tt] == k)
                            expect(abs(math.exp(-min(float(fw_[tt, b, k]), 700)) - p) < 2e-3, "fast_baum_welch: %s: soft alignment of label %i in frame %i: %r, expected %r" % (what, k, tt, math.exp(-float(fw_[tt, b, k])), p))
                    best = max(s for s, _ in sco)
                    expect(abs(float(sc_[b]) - best) < 1e-3, "fast_viterbi: %s: score %r, expected %r" % (what, float(sc_[b]), best))
                    opt = {ks for s, ks in sco if s > best - 1e-3}
                    expect(tuple(ali_[:t, b].tolist()) in opt, "fast_viterbi: %s: alignment %r, expected %r" % (what, ali_[:t, b].tolist(), opt))
                    ctx.trans()
                    ctx.state(("fsa", m, t))
                    ctx.outcome((len(ps), t))


def case_bw(case, ctx):
    """staircase automata: the documented emissions; every one of the batch on its own"""
    import numpy as np
    from returnn.util import fsa

    # without skips and loops: the only string is 0,1,...,n-1
    for lens in itertools.product(range(1, 4), repeat=2):
        for loop in (False, True):
            f = fsa.fast_bw_fsa_staircase(list(lens), with_loop=loop, max_skip=1)
            for b, n in enumerate(lens):
                out = {}
                for s, t, k, q in f.edges.T.tolist():
                    if q == b:
                        out.setdefault(s, []).append((t, k))
                start, end = f.start_end_states[0][b], f.start_end_states[1][b]
                for T in range(1, 5):
                    cur = [(start, ())]
                    for _ in range(T):
                        cur = [(t, p + (k,)) for s, p in cur for t, k in out.get(s, ())]
                    got = sorted(p for s, p in cur if s == end)
                    if not loop:
                        expect_eq(got, [tuple(range(n))] if T == n else [], "staircase(%r), max_skip=1, sequence %i: strings of length %i" % (lens, b, T))
                    else:
                        for p in got:
                            expect(all(0 <= k < n for k in p) and all(p[i] <= p[i + 1] for i in range(len(p) - 1)), "staircase(%r) with loop: string %r not monotonic" % (lens, p))
                    ctx.trans()
                ctx.state((lens, b, loop))
            f1 = [fsa.fast_bw_fsa_staircase([n], with_loop=loop, max_skip=2) for n in lens]
            f2 = fsa.fast_bw_fsa_staircase(list(lens), with_loop=loop, max_skip=2)
            off = 0
            for b, f in enumerate(f1):
                mine = [tuple(e) for e in f2.edges.T.tolist() if e[3] == b]
                expect_eq(sorted(mine), sorted((s + off, t + off, k, b) for s, t, k, _ in f.edges.T.tolist()), "staircase(%r): automaton of sequence %i same as alone" % (lens, b))
                off += int(f.start_end_states[1][0]) + 1
            ctx.trace()
            ctx.outcome((lens, loop))


def case_chunk(case, ctx):
    import numpy as np
    from returnn.tf import native_op as N

    size, step = case["size"], case["step"]
    with Graph() as g:
        px, pi = g.ph((None, None, 2), "float32"), g.ph((None, None), "float32")
        out, oi = N.chunk(px, index=pi, chunk_size=size, chunk_step=step)
        back, bi, bf = N.unchunk(out, index=oi, chunk_size=size, chunk_step=step, n_time=g.tf.shape(px)[0], n_batch=g.tf.shape(px)[1])
        gw = g.ph((None, None, 2), "float32")
        grad = g.tf.gradients(g.tf.reduce_sum(out * gw), px)[0]
        with g.session() as session:
            for lens in [(a,) for a in range(1, 6)] + list(itertools.product(range(0, 6), repeat=2)):
                T, B = max(lens), len(lens)
                if T == 0:
                    continue
                x = np.array([[[1 + t * 10 + b * 100 + f if t < lens[b] else 5555 for f in range(2)] for b in range(B)] for t in range(T)], dtype="float32")
                ind = np.array([[1.0 if t < lens[b] else 0.0 for b in range(B)] for t in range(T)], dtype="float32")
                o, i_, bk, bi_, bf_ = session.run((out, oi, back, bi, bf), feed_dict={px: x, pi: ind})
                n = o.shape[1] // B
                what = "chunk(size=%i, step=%i), lengths %r" % (size, step, lens)
                expect_eq(o.shape[0], size, what + ": chunk size")
                expect(n * B == o.shape[1] and (n - 1) * step + size >= T, what + ": number of chunks %i does not cover all frames" % n)
                got = {}
                for b in range(B):
                    for c in range(n):
                        # chunk c of sequence b. batch order: see unchunk
                        pass
                w = np.arange(o.size, dtype="float32").reshape(o.shape) % 7 + 1
                seen = {}
                for col in range(o.shape[1]):
                    for t in range(size):
                        if i_[t, col] > 0:
                            v = o[t, col].tolist()
                            seen.setdefault(tuple(v), 0)
                            seen[tuple(v)] += 1
                            expect(v[0] != 5555, what + ": padding in a chunk marked valid")
                for b in range(B):
                    for t in range(lens[b]):
                        k = sum(1 for c in range(n) if c * step <= t < c * step + size)
                        expect_eq(seen.get(tuple(x[t, b].tolist()), 0), k, what + ": occurrences of frame %i of sequence %i in the chunks" % (t, b))
                        expect(np.allclose(bk[t, b], x[t, b]), "%s: unchunk gives %s for frame %i of sequence %i, expected %s" % (what, bk[t, b].tolist(), t, b, x[t, b].tolist()))
                        expect(bi_[t, b] == 1, what + ": unchunk: frame marked invalid")
                        ctx.trans()
                    for t in range(lens[b], T):
                        expect(bi_[t, b] == 0, what + ": unchunk: padding marked valid")
                # gradient: sum of the weights of all occurrences
                gr = session.run(grad, feed_dict={px: x, pi: ind, gw: w})
                for b in range(B):
                    for t in range(lens[b]):
                        e = sum(w[tt, col] for col in range(o.shape[1]) for tt in range(size) if i_[tt, col] > 0 and np.all(o[tt, col] == x[t, b]))
                        expect(np.allclose(gr[t, b], e), "%s: gradient for frame %i of sequence %i: %s, expected %s" % (what, t, b, gr[t, b].tolist(), np.asarray(e).tolist()))
                ctx.state(("chunk", size, step, lens))
                ctx.trace()
                ctx.outcome((o.shape, lens))


def case_lstm(case, ctx):
    import numpy as np
    from returnn.tf import native_op as N

    n, B, direction = case["n"], case["B"], case["direction"]
    rng = lambda *shape, seed=0: np.array([math.sin(3.1 * i + seed) for i in range(int(np.prod(shape)))], dtype="float32").reshape(shape)
    with Graph() as g:
        tf = g.tf
        px, pi, pc, ph = g.ph((None, None, 4 * n), "float32"), g.ph((None, None), "float32"), g.ph((None, n), "float32"), g.ph((None, n), "float32")
        Wv = rng(n, 4 * n, seed=5)
        from returnn.tf.native_op import rnn_cell

        cell = N.NativeLstm2(n_hidden=n, step=direction)
        with tf.compat.v1.variable_scope("x"):
            out, st = cell(px, pi, initial_state=rnn_cell.LSTMStateTuple(c=pc, h=ph), recurrent_weights_initializer=tf.compat.v1.constant_initializer(Wv))
        W = tf.compat.v1.global_variables()[0]
        gy, gc, gh = g.ph((None, None, n), "float32"), g.ph((None, n), "float32"), g.ph((None, n), "float32")
        grads = tf.gradients(tf.reduce_sum(out * gy * pi[:, :, None]) + tf.reduce_sum(st.c * gc) + tf.reduce_sum(st.h * gh), [px, pc, ph, W])
        # reference: TF ops, unrolled
        refs = {}
        for T in (1, 2, 3):
            c, h = pc, ph
            ys = [None] * T
            for t in range(T) if direction > 0 else range(T - 1, -1, -1):
                z = px[t] + tf.matmul(h, W)
                # order of the gates: cell in, input gate, forget gate, output gate
                cin, ig, fg, og = tf.split(z, 4, axis=1)
                c2 = tf.tanh(cin) * tf.sigmoid(ig) + c * tf.sigmoid(fg)
                h2 = tf.tanh(c2) * tf.sigmoid(og)
                m = pi[t][:, None]
                c, h = tf.where(m > 0, c2, c) if 0 else c2 * m + c * (1 - m), h2 * m + h * (1 - m)
                ys[t] = h2
            y = tf.stack(ys)
            refs[T] = (y, c, h) + tuple(tf.gradients(tf.reduce_sum(y * gy * pi[:, :, None]) + tf.reduce_sum(c * gc) + tf.reduce_sum(h * gh), [px, pc, ph, W]))
        with g.session() as session:
            session.run(tf.compat.v1.global_variables_initializer())
            for lens in itertools.product(range(0, 4), repeat=B):
                T = max(lens)
                if T == 0:
                    continue
                fd = {px: rng(T, B, 4 * n, seed=1), pc: rng(B, n, seed=2), ph: rng(B, n, seed=3), gy: rng(T, B, n, seed=4), gc: rng(B, n, seed=6), gh: rng(B, n, seed=7)}
                ind = np.array([[1.0 if t < lens[b] else 0.0 for b in range(B)] for t in range(T)], dtype="float32")
                fd[pi] = ind
                got = session.run((out, st.c, st.h) + tuple(grads), feed_dict=fd)
                want = session.run(refs[T], feed_dict=fd)
                for name, a, e in zip(("output", "final c", "final h", "grad input", "grad c0", "grad h0", "grad W"), got, want):
                    if name in ("output", "grad input"):
                        a, e = a * ind[:, :, None], e * ind[:, :, None]
                    expect(np.allclose(a, e, atol=1e-4), "NativeLstm2 (direction %i), lengths %r: %s: %s, expected %s" % (direction, lens, name, a.tolist(), e.tolist()))
                    ctx.trans()
                ctx.state(("lstm", n, direction, lens))
                ctx.trace()
                ctx.outcome((lens, direction))


def run_case(case, ctx):
    globals()["case_" + case["op"]](case, ctx)
    ctx.sample(dict(case))


if __name__ == "__main__":
    harness.main(__name__)
