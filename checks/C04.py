"""C04: batch construction (Dataset.generate_batches, BatchSetGenerator, FeedDictDataProvider): no frame lost, duplicated or misplaced; limits hold."""
import itertools, math
import numpy
from vlib import harness
from vlib.harness import Violation, expect, expect_eq

PID = "C04"
LEVEL = "model_checking"
RULE = (
    "case = (all seq-length tuples of a prefix, option combination); every batching run is executed on the real code,"
    " each batch is one transition; state = (lengths, options); distinct outcome = distinct batch structure"
)
BOUNDS = {
    "quick": "<=4 seqs of length 1..4 (all tuples), batch_size {1,3,4,6,1000}, max_seqs {1,2,3,-1}, chunking {0,1,2,3:1,3:2,dict}, min/max_seq_length, max_pad_size, context windows; BatchSetGenerator: all op sequences of length <=5",
    "thorough": "<=5 seqs of length 1..4, more options; op sequences of length <=7",
}
ASSUMPTIONS = ["a single slice that exceeds batch_size on its own forms its own batch (documented warning)"]


def gen_cases(tier):
    q = tier == "quick"
    for n in range(1, 5 if q else 6):
        for first in itertools.product(range(1, 5), repeat=min(2, n)):
            yield dict(t="rec", n=n, first=first)
            yield dict(t="chunk", n=n, first=first)
            if n <= (3 if q else 4):
                yield dict(t="nonrec", n=n, first=first)
                yield dict(t="feed", n=n, first=first)
    for n in range(0, 5):
        for sh in (False, True):
            for cache in (False, True):
                yield dict(t="gen", n=n, shuffle=sh, cache=cache, depth=5 if q else 7)


def _ds(lens, lens2=None, **kw):
    from returnn.datasets.generating import StaticDataset

    lens2 = lens if lens2 is None else lens2
    data = [
        {
            "data": numpy.array([[100.0 * (i + 1) + t] for t in range(l)], dtype="float32"),
            "classes": numpy.array([10 * (i + 1) + t for t in range(l2)], dtype="int32"),
        }
        for i, (l, l2) in enumerate(zip(lens, lens2))
    ]
    ds = StaticDataset(data=data, output_dim={"data": (1, 2), "classes": (1000, 1)}, **kw)
    ds.init_seq_order(epoch=1)
    return ds


def _all_lens(case):
    for rest in itertools.product(range(1, 5), repeat=case["n"] - len(case["first"])):
        yield tuple(case["first"]) + rest


def run_case(case, ctx):
    globals()["_case_" + case["t"]](case, ctx)


def _run(ds, **kw):
    """iterate like the engine: peek, use, advance"""
    g = ds.generate_batches(**kw)
    res = []
    while g.has_more():
        (b,) = g.peek_next_n(1)
        res.append(b)
        g.advance(1)
        expect(len(res) < 1000, "batch generator does not terminate")
    return res


def _parts(batches, keys):
    return [[(p.seq_idx, tuple((int(p.seq_start_frame[k]), int(p.seq_end_frame[k])) for k in keys)) for p in b.seqs] for b in batches]


def _check_limits(what, batches, keys, batch_size, max_seqs, max_pad=None):
    from returnn.util import NumbersDict

    bs = NumbersDict(batch_size)
    lens_of = lambda b: [{k: int(p.frame_length[k]) for k in keys} for p in b.seqs]  # noqa
    for i, b in enumerate(batches):
        ls = lens_of(b)
        expect(len(ls) >= 1, what + ": empty batch")
        expect_eq(sorted(p.batch_slice for p in b.seqs), list(range(len(ls))), what + ": one slice per seq")
        expect_eq(b.num_slices, len(ls), what + ": num_slices")
        mx = {k: max(l[k] for l in ls) for k in keys}
        for k in keys:
            expect_eq(int(b.max_num_frames_per_slice[k]), mx[k], what + ": max_num_frames_per_slice")

        def ok(ls):
            mx = {k: max(l[k] for l in ls) for k in keys}
            for k in keys:
                if bs.get(k) is not None and mx[k] * len(ls) > bs[k]:
                    return False
                if max_pad is not None and mx[k] * len(ls) - sum(l[k] for l in ls) > max_pad:
                    return False
            return len(ls) <= max_seqs

        if len(ls) > 1:
            expect(ok(ls), lambda: f"{what}: batch {i} {ls} exceeds a limit")
        if i + 1 < len(batches):
            nxt = lens_of(batches[i + 1])[0]
            expect(not ok(ls + [nxt]), lambda: f"{what}: batch {i} {ls} was closed although {nxt} fits")


def _case_rec(case, ctx):
    for lens in _all_lens(case):
        for lens2 in (lens, tuple(max(1, 5 - l) for l in lens)):
            ds = _ds(lens, lens2)
            keys = ("data", "classes")
            full = [(i, ((0, a), (0, b))) for i, (a, b) in enumerate(zip(lens, lens2))]
            for bs in (1, 3, 4, 6, 1000, {"data": 4, "classes": 6}, {"classes": 3}):
                for ms in (1, 2, 3, -1):
                    for pad in (None, 0, 1):
                        for mxl, mnl in ((None, 0), (2, 0), (3, 2), ({"classes": 2}, 0), (-2, 0)):
                            if (pad is not None) and (mxl is not None):
                                continue
                            ds.init_seq_order(epoch=1)
                            what = f"lens {lens}/{lens2} batch_size {bs} max_seqs {ms} max_pad {pad} max_seq_length {mxl} min {mnl}"
                            kw = {}
                            if mxl is not None:
                                kw["max_seq_length"] = mxl
                            batches = _run(ds, recurrent_net=True, batch_size=bs, max_seqs=ms, max_pad_size=pad, min_seq_length=mnl, used_data_keys=set(keys), **kw)
                            exp = []
                            for i, ((_, a), (_, b)) in full:
                                if mxl == {"classes": 2} or mxl == -2:
                                    if b > 2:
                                        continue
                                elif mxl is not None and (a > mxl or b > mxl):
                                    continue
                                if a < mnl or b < mnl:
                                    continue
                                exp.append((i, ((0, a), (0, b))))
                            parts = _parts(batches, keys)
                            expect_eq([p for b in parts for p in b], exp, what + ": every (not filtered) seq exactly once, in order, in full")
                            _check_limits(what, batches, keys, bs, math.inf if ms == -1 else ms, pad)
                            ctx.trans(len(batches))
                            ctx.state((lens, lens2, str(bs), ms, pad, str(mxl), mnl))
                            ctx.outcome(tuple(len(b) for b in parts))
                            ctx.trace()


def _ref_chunks(length, size, step, min_size):
    t = 0
    while t < length:
        yield t, min(t + size, length)
        t += step
        if length - t <= min_size:
            break


def _case_chunk(case, ctx):
    keys = ("data", "classes")
    for lens in _all_lens(case):
        for chunking, size, step in [("1", 1, 1), (2, 2, 2), ("3:1", 3, 1), ((3, 2), 3, 2), ("1:2", 1, 2), (({"data": 2, "classes": 2}, {"data": 1, "classes": 1}), 2, 1)]:
            for mn in (0, 1):
                for bs, ms in ((1000, -1), (4, 2), (3, -1)):
                    ds = _ds(lens, chunking=chunking, min_chunk_size=mn)
                    batches = _run(ds, recurrent_net=True, batch_size=bs, max_seqs=ms, used_data_keys=set(keys))
                    exp = []
                    for i, l in enumerate(lens):
                        exp += [(i, (c, c)) for c in _ref_chunks(l, size, step, mn)]
                        if mn == 0 and step <= size:
                            cov = set(x for a, b in _ref_chunks(l, size, step, mn) for x in range(a, b))
                            assert cov == set(range(l))
                    parts = _parts(batches, keys)
                    what = f"lens {lens} chunking {chunking} min {mn} batch_size {bs} max_seqs {ms}"
                    expect_eq([p for b in parts for p in b], exp, what + ": chunks")
                    _check_limits(what, batches, keys, bs, math.inf if ms == -1 else ms)
                    ctx.trans(len(batches))
                    ctx.state((lens, str(chunking), mn, bs, ms))
                    ctx.outcome(tuple(map(tuple, parts)))
                    ctx.trace()
        # different resolution: classes at half the rate of data
        lens_d = tuple(2 * l for l in lens)
        for size, step in ((1, 1), (2, 1), (2, 2), (3, 2)):
            ds = _ds(lens_d, lens, chunking=({"data": 2 * size, "classes": size}, {"data": 2 * step, "classes": step}))
            batches = _run(ds, recurrent_net=True, batch_size=1000, used_data_keys=set(keys))
            exp = [(i, ((2 * a, 2 * b), (a, b))) for i, l in enumerate(lens) for a, b in _ref_chunks(l, size, step, 0)]
            expect_eq([p for b in _parts(batches, keys) for p in b], exp, f"lens {lens_d}/{lens} chunking ratio 2, {size}:{step}")
            ctx.trans(len(batches))
        # label sequences of length 1: always the full label with every chunk
        if max(lens) > 1:
            ds = _ds(lens, [1] * len(lens), chunking=(2, 2))
            batches = _run(ds, recurrent_net=True, batch_size=1000, used_data_keys=set(keys))
            exp = [(i, (c, (0, 1))) for i, l in enumerate(lens) for c in _ref_chunks(l, 2, 2, 0)]
            expect_eq([p for b in _parts(batches, keys) for p in b], exp, f"lens {lens}/1 chunking")


def _case_nonrec(case, ctx):
    keys = ("data", "classes")
    for lens in _all_lens(case):
        for bs in (1, 2, 3, 5, 1000):
            ds = _ds(lens)
            batches = _run(ds, recurrent_net=False, batch_size=bs, used_data_keys=set(keys))
            what = f"non-recurrent lens {lens} batch_size {bs}"
            frames = []
            for i, b in enumerate(batches):
                pos = 0
                for p in b.seqs:
                    expect_eq(p.batch_slice, 0, what + ": slice")
                    for k in keys:
                        expect_eq(int(p.batch_frame_offset[k]), pos, what + ": frame offset")
                    s, e = int(p.seq_start_frame["data"]), int(p.seq_end_frame["data"])
                    expect_eq((int(p.seq_start_frame["classes"]), int(p.seq_end_frame["classes"])), (s, e), what)
                    frames += [(p.seq_idx, t) for t in range(s, e)]
                    pos += e - s
                expect(pos <= bs, what + f": batch {i} has {pos} frames")
                if i + 1 < len(batches):
                    expect_eq(pos, bs, what + f": non-final batch {i} not full")
            expect_eq(frames, [(i, t) for i, l in enumerate(lens) for t in range(l)], what + ": every frame exactly once")
            ctx.trans(len(batches))
            ctx.state((lens, bs, "nonrec"))
            ctx.trace()
            ctx.outcome(("nonrec", len(batches)))


def _mk_extern(ds):
    from returnn.tensor import TensorDict, Tensor, batch_dim, Dim

    td = TensorDict()
    from returnn.tensor import batch_dim

    t1 = Dim(None, name="t1")
    t2 = Dim(None, name="t2")
    td.data["data"] = Tensor("data", dims=[batch_dim, t1, Dim(1, name="f")], dtype="float32")
    td.data["classes"] = Tensor("classes", dims=[batch_dim, t2], dtype="int32", sparse_dim=Dim(1000, name="v"))
    return td


def _case_feed(case, ctx):
    from returnn.tf.data_pipeline import FeedDictDataProvider

    keys = ["data", "classes"]
    for lens in _all_lens(case):
        for lens2, chunking, rec, window in (
            (lens, 0, True, 1),
            (tuple(5 - l for l in lens), 0, True, 1),
            (lens, "3:2", True, 1),
            (lens, 0, False, 1),
            (lens, 0, True, 3),
        ):
            for bs, ms, sl in ((1000, -1, None), (6, 2, None), (4, -1, slice(1, None, 2)), (3, 1, slice(0, 2))):
                kw = dict(chunking=chunking)
                if window > 1:
                    kw["context_window"] = window
                ds = _ds(lens, lens2, **kw)
                ref = {i: ds.data[i] for i in range(len(lens))}
                batches = ds.generate_batches(recurrent_net=rec, batch_size=bs, max_seqs=ms, used_data_keys=set(keys))
                prov = FeedDictDataProvider(extern_data=_mk_extern(ds), data_keys=keys, dataset=ds, batches=batches, batch_slice=sl)
                bi = 0
                ctxl = (window - 1) // 2 if window > 1 else 0
                got = []
                while batches.has_more():
                    (b,) = batches.peek_next_n(1)
                    x = prov.get_next_batch(consider_batch_slice=True)
                    batches.advance(1)
                    what = f"feed lens {lens}/{lens2} chunking {chunking} rec {rec} window {window} bs {bs} ms {ms} slice {sl} batch {bi}"
                    sel = sl is None or bi in range(*sl.indices(10**6))
                    expect_eq(x is not None, sel, what + ": batch_slice")
                    bi += 1
                    ctx.trans()
                    if x is None:
                        continue
                    for k in keys:
                        arr = x[k]
                        sls = x[k + "_seq_lens"]
                        exp = numpy.zeros_like(arr)
                        exp_l = numpy.zeros_like(sls)
                        expect_eq(arr.shape[0], b.num_slices, what + ": batch dim")
                        for p in b.seqs:
                            o = int(p.batch_frame_offset[k])
                            s, e = int(p.seq_start_frame[k]), int(p.seq_end_frame[k])
                            for t in range(s, e):
                                v = ref[p.seq_idx][k]
                                if 0 <= t < len(v):
                                    exp[p.batch_slice, o + t - s] = v[t]
                            exp_l[p.batch_slice] = max(exp_l[p.batch_slice], o + e - s)
                            got.append((p.seq_idx, s, e))
                        expect_eq(arr.tolist(), exp.tolist(), what + f": {k}")
                        expect_eq(sls.tolist(), exp_l.tolist(), what + f": {k} seq lens")
                        expect_eq(arr.shape[1], max(exp_l), what + f": {k} padded to the longest")
                    for p in b.seqs:
                        if rec:
                            expect_eq(x["seq_idx"][p.batch_slice], p.seq_idx, what + ": seq_idx")
                            expect_eq(x["seq_tag"][p.batch_slice], ds.get_tag(p.seq_idx), what + ": seq_tag")
                if window > 1 and not chunking:
                    for (i, s, e) in got[::1]:
                        expect(s <= 0 and e >= min(lens[i], lens2[i]), f"context window: {(i, s, e)}")
                ctx.state((lens, lens2, str(chunking), rec, window, bs, ms, str(sl)))
                ctx.trace()


def _case_gen(case, ctx):
    from returnn.engine.batch import BatchSetGenerator

    n = case["n"]

    class FakeDs:
        def generic_complete_frac(self, i, n):
            return 0.5

        def get_complete_frac(self, i):
            return 0.5

    ops = ["peek1", "peek2", "peek9", "adv1", "adv2", "more", "reset"]
    n_seq = 0
    for hist in itertools.product(ops, repeat=case["depth"]):
        if not case["cache"] and "reset" in hist:
            continue
        if case["shuffle"] and not case["cache"]:
            continue
        items = ["b%i" % i for i in range(n)]
        g = BatchSetGenerator(dataset=FakeDs(), generator=iter(items), shuffle_batches=case["shuffle"], cache_whole_epoch=case["cache"])
        # model: list of remaining; after reset of a completely read epoch, again all (any order if shuffled)
        epoch, pos, ended = list(items), 0, False
        shuffled = None
        ok = True
        for k, op in enumerate(hist):
            if op.startswith("adv"):
                m = int(op[3:])
                if pos + m > n:
                    ok = False
                    break
                x = g.peek_next_n(m)[:m] if shuffled is not None else None
                g.advance(m)
                if shuffled is None:
                    expect_eq(g.last_batch, epoch[pos + m - 1], f"{case} {hist[:k+1]}: last_batch")
                else:
                    shuffled += x
                pos += m
                expect_eq(g.get_current_batch_idx(), pos, f"{case} {hist[:k+1]}: current_batch_idx")
            elif op.startswith("peek"):
                m = int(op[4:])
                x = g.peek_next_n(m)
                if shuffled is None:
                    expect_eq(x, epoch[pos : pos + m], f"{case} {hist[:k+1]}: peek")
                else:
                    expect_eq(len(x), min(m, n - pos), f"{case} {hist[:k+1]}: peek size after shuffled reset")
            elif op == "more":
                expect_eq(bool(g.has_more()), pos < n, f"{case} {hist[:k+1]}: has_more")
            elif op == "reset":
                if pos < n or g.has_more():
                    ok = False  # only reset after a complete epoch
                    break
                if shuffled is not None:
                    expect_eq(sorted(shuffled), sorted(items), f"{case} {hist[:k+1]}: shuffled epoch must contain every batch once")
                g.reset()
                pos = 0
                shuffled = [] if case["shuffle"] else None
            ctx.trans()
        if ok:
            n_seq += 1
            if shuffled is not None and pos == n:
                expect_eq(sorted(shuffled), sorted(items), f"{case} {hist}: shuffled epoch must contain every batch once")
        ctx.state(("gen", n, case["shuffle"], case["cache"], hist if ok else hist[: k + 1]))
    ctx.trace(n_seq)


def parent_init():
    import returnn.tf.data_pipeline  # noqa


if __name__ == "__main__":
    harness.main(__name__)
