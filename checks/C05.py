"""C05: PyTorch data pipeline: no sequence/frame lost, duplicated, truncated or mixed up by wrapping, filtering, chunking, batching, shuffling, collating."""
import itertools, os, sys
import numpy
from vlib import harness
from vlib.harness import Violation, expect, expect_eq
from vlib import ds as zoo

PID = "C05"
LEVEL = "model_checking"
RULE = (
    "case = (stage, prefix of seq lengths); every seq-length tuple x option combination is run on the real pipeline stage"
    " and compared with a sequence-level oracle; state = (stage, lengths, options); distinct outcome = distinct batch structure"
)
BOUNDS = {
    "quick": "<=4 seqs of length 1..4 (all tuples), all option combinations listed in the check, shuffle/bucket seeds 0..5, all partial-consumption points before re-iteration",
    "thorough": "<=6 seqs of length 1..3, seeds 0..11",
}
ASSUMPTIONS = ["a single sequence exceeding batch_size on its own forms its own batch", "all data keys have time as first axis (documented TODO in the code)"]


def gen_cases(tier):
    q = tier == "quick"
    ns = range(1, 5) if q else range(1, 7)
    vals = 4 if q else 3
    for n in ns:
        for first in itertools.product(range(1, vals + 1), repeat=min(2, n)):
            for t in ("batch", "chunk", "bucket", "lenfilter", "shuffle", "full"):
                yield dict(t=t, n=n, first=first, vals=vals, seeds=6 if q else 12)
    for kind in "static hdf2 lm text_dict meta combined multi_epoch postproc postproc_stream variable".split():
        yield dict(t="wrap", kind=kind)
    for kind in "hdf2 map".split():
        yield dict(t="mapstyle", kind=kind)
    yield dict(t="worker", kind="hdf2")
    yield dict(t="worker", kind="postproc")


def _all_lens(case):
    for rest in itertools.product(range(1, case["vals"] + 1), repeat=case["n"] - len(case["first"])):
        yield tuple(case["first"]) + rest


def run_case(case, ctx):
    globals()["_case_" + case["t"]](case, ctx)


def parent_init():
    import returnn.torch.data.pipeline  # noqa
    import returnn.torch.data.returnn_dataset_wrapper  # noqa
    import torch

    torch.set_num_threads(1)


_Src = None


def _src(lens, lens2=None, epoch=1):
    """IterDataPipe over given seqs, in the format of ReturnnDatasetIterDataPipe"""
    import torch.utils.data
    from returnn.datasets.util.strings import str_to_numpy_array

    global _Src
    if _Src is None:

        class _SrcC(torch.utils.data.IterDataPipe):
            def __init__(self, lens, lens2, epoch):
                self.a = (lens, lens2, epoch)

            def __iter__(self):
                lens, lens2, epoch = self.a
                n = len(lens)
                for i, (l, l2) in enumerate(zip(lens, lens2)):
                    yield _item(i, l, l2, n, epoch)

        _Src = _SrcC
    return _Src(tuple(lens), tuple(lens2 or lens), epoch)


def _item(i, l, l2, n, epoch):
    from returnn.datasets.util.strings import str_to_numpy_array

    return {
        "data": numpy.array([[100.0 * (i + 1) + t, -t] for t in range(l)], dtype="float32").reshape(l, 2),
        "classes": numpy.array([10 * (i + 1) + t for t in range(l2)], dtype="int32"),
        "seq_tag": str_to_numpy_array("seq-%i" % i),
        "seq_idx": numpy.array(i),
        "epoch": numpy.array(epoch),
        "num_seqs": numpy.array(n),
        "complete_frac": numpy.array((i + 1) / n, dtype="float32"),
    }


def _c(d):
    return tuple(sorted((k, zoo.canon(v)) for k, v in d.items()))


def _cl(items):
    return [_c(d) for d in items]


def _case_batch(case, ctx):
    from returnn.torch.data.pipeline import BatchingIterDataPipe, collate_batch
    import torch

    calls = []

    def bs_func(*, epoch, seq_idx, epoch_continuous, **_):
        calls.append((epoch, seq_idx, epoch_continuous))
        return 3 + 2 * (seq_idx % 2)

    def ms_func(*, epoch, seq_idx, epoch_continuous, **_):
        return 1 + seq_idx % 3

    for lens in _all_lens(case):
        for lens2 in (lens, tuple(case["vals"] + 1 - l for l in lens)):
            src_items = list(_src(lens, lens2))
            ref = _cl(src_items)
            for bs in (1, 3, 4, 6, None, {"data": 4}, {"data": 6, "classes": 3}, bs_func):
                for ms in (None, -1, 1, 2, 3, ms_func):
                    what = f"BatchingIterDataPipe lens {lens}/{lens2} batch_size {bs if not callable(bs) else 'func'} max_seqs {ms if not callable(ms) else 'func'}"
                    calls.clear()
                    pipe = BatchingIterDataPipe(_src(lens, lens2, epoch=2), batch_size=bs, max_seqs=ms)
                    batches = list(pipe)
                    got = [dict(d, epoch=numpy.array(1)) for b in batches for d in b]
                    expect_eq(_cl(got), ref, what + ": every seq exactly once, in order, unchanged")
                    if callable(bs):
                        exp_calls = [(2, i, 1 + float(numpy.float32((i + 1) / len(lens)))) for i in range(len(lens))]
                        expect_eq(sorted(set(calls)), sorted(set(exp_calls)), what + ": args of batch_size function")

                    def lim(i, b):
                        """limits in effect when adding item with seq_idx i to batch b"""
                        s = bs(epoch=2, seq_idx=i, epoch_continuous=0) if callable(bs) else bs
                        m = ms(epoch=2, seq_idx=i, epoch_continuous=0) if callable(ms) else ms
                        m = 10**9 if m in (None, -1) else m
                        if s is None:
                            s = {}
                        elif isinstance(s, int):
                            s = {"data": s, "classes": s}
                        mx = {k: max(d[k].shape[0] for d in b) for k in ("data", "classes")}
                        return all(mx[k] * len(b) <= s[k] for k in s) and len(b) <= m

                    for bi, b in enumerate(batches):
                        expect(len(b) > 0, what + ": empty batch")
                        last = int(b[-1]["seq_idx"])
                        if len(b) > 1:
                            expect(lim(last, b), what + f": batch {[int(d['seq_idx']) for d in b]} exceeds the limits")
                        if bi + 1 < len(batches):
                            nx = batches[bi + 1][0]
                            expect(not lim(int(nx["seq_idx"]), b + [nx]), what + f": batch {bi} closed although next fits")
                        x = collate_batch(b)
                        for k in ("data", "classes"):
                            arr = x[k].numpy()
                            ls = [d[k].shape[0] for d in b]
                            expect_eq(x[k + ":seq_len"].tolist(), ls, what + f": collate {k} seq_len")
                            exp = numpy.zeros((len(b), max(ls)) + b[0][k].shape[1:], dtype=b[0][k].dtype)
                            for r, d in enumerate(b):
                                exp[r, : ls[r]] = d[k]
                            expect_eq(zoo.canon(arr), zoo.canon(exp), what + f": collate {k}")
                        expect_eq([str(t) for t in x["seq_tag"]], ["seq-%i" % d["seq_idx"] for d in b], what + ": seq_tag")
                        expect_eq([int(i) for i in x["seq_idx"]], [int(d["seq_idx"]) for d in b], what + ": seq_idx")
                        expect_eq(int(x["num_seqs"]), len(lens), what + ": num_seqs")
                        expect_eq(int(x["epoch"]), 2, what + ": epoch")
                        expect_eq(float(x["complete_frac"]), max(float(d["complete_frac"]) for d in b), what + ": complete_frac")
                    ctx.trans(len(batches))
                    ctx.trace()
                    ctx.outcome(tuple(len(b) for b in batches))
                    ctx.state(("batch", lens, lens2, what))


def _case_chunk(case, ctx):
    from returnn.torch.data.pipeline import ChunkingIterDataPipe

    for lens in _all_lens(case):
        for ratio in (1, 2):
            lens_d = tuple(ratio * l for l in lens)
            for size, step in ((1, 1), (2, 2), (2, 1), (3, 2), (1, 2), (4, 4)):
                for mn in (0, 1, 2):
                    forms = []
                    if ratio == 1:
                        forms += [((size, step), ("data", "classes"), {"data": mn, "classes": mn} if mn else 0)]
                        if size == step:
                            forms += [(size, ("data", "classes"), mn), ({"data": size, "classes": size}, ("data", "classes"), mn)]
                        forms += [(({"data": size}, {"data": step}), ("data",), mn)]
                    else:
                        forms += [(({"data": 2 * size, "classes": size}, {"data": 2 * step, "classes": step}), ("data", "classes"), {"data": 2 * mn, "classes": mn})]
                    for form, keys, mn_ in forms:
                        what = f"ChunkingIterDataPipe lens {lens_d}/{lens} chunking {form} min {mn_}"
                        out = list(ChunkingIterDataPipe(_src(lens_d, lens), form, min_chunk_size=mn_))
                        exp = []
                        for it in _src(lens_d, lens):
                            l = it["classes"].shape[0]
                            for s in range(0, l, step):
                                e = min(s + size, l)
                                if e - s < mn:
                                    continue
                                d = dict(it)
                                for k in keys:
                                    f = ratio if k == "data" else 1
                                    d[k] = it[k][f * s : f * e]
                                exp.append(d)
                        expect_eq(_cl(out), _cl(exp), what)
                        if mn == 0 and step == size:
                            for k in keys:
                                expect_eq(
                                    numpy.concatenate([d[k] for d in out]).tolist(),
                                    numpy.concatenate([d[k] for d in _src(lens_d, lens)]).tolist(),
                                    what + ": every frame exactly once",
                                )
                        ctx.trans(len(out))
                        ctx.trace()
                        ctx.outcome(("chunk", tuple(d["data"].shape[0] for d in out)))
                        ctx.state(("chunk", what))


def _case_bucket(case, ctx):
    from returnn.torch.data.pipeline import BucketOrderingIterDataPipe

    for lens in _all_lens(case):
        for buckets in ([(4, 2)], [(2, 1), (4, 2)], [(4, 3), (1, 2), (2, 2)], [(3, 2)], [(1, 1), (2, 3)]):
            for key in ("data", "classes"):
                for prob in (0.0, 0.5, 1.0):
                    for seed in range(case["seeds"] if prob else 1):
                        what = f"BucketOrderingIterDataPipe lens {lens} buckets {buckets} key {key} prob {prob} seed {seed}"
                        lens2 = tuple(case["vals"] + 1 - l for l in lens)
                        pipe = BucketOrderingIterDataPipe(_src(lens, lens2), buckets=buckets, length_key=key, random_bucket_prob=prob, seed=seed)
                        batches = list(pipe)
                        mx = max(s for s, _ in buckets)
                        ref = [d for d in _src(lens, lens2) if d[key].shape[0] <= mx]
                        expect_eq(sorted(_cl([d for b in batches for d in b])), sorted(_cl(ref)), what + ": every not too long seq exactly once")
                        srt = sorted(buckets)
                        for b in batches:
                            ls = [d[key].shape[0] for d in b]
                            best = [next(i for i, (s, _) in enumerate(srt) if l <= s) for l in ls]
                            expect(len(b) > 0, what + ": empty batch")
                            if prob == 0:
                                expect_eq(len(set(best)), 1, what + f": batch mixes buckets: lens {ls}")
                                expect(len(b) <= srt[best[0]][1], what + f": bucket too large {ls}")
                            else:
                                expect(any(len(b) <= srt[i][1] for i in range(max(best), len(srt))), what + f": no bucket fits {ls}")
                            idx = [int(d["seq_idx"]) for d in b]
                            expect_eq(idx, sorted(idx), what + ": order in bucket")
                        ctx.trans(len(batches))
                        ctx.trace()
                        ctx.outcome(("bucket", tuple(tuple(int(d["seq_idx"]) for d in b) for b in batches)))
                        ctx.state((what,))


def _case_lenfilter(case, ctx):
    from returnn.torch.data.pipeline import LenFilterDataPipe

    for lens in _all_lens(case):
        lens2 = tuple(case["vals"] + 1 - l for l in lens)
        for mn in (None, 2, {"data": 2}, {"classes": 3, "data": 2}):
            for mx in (None, 5, {"data": 3}, {"classes": 2, "data": 4}):
                out = list(LenFilterDataPipe(_src(lens, lens2), min_seq_length=_nd(mn), max_seq_length=_nd(mx)))

                def ok(d):
                    for k in ("data", "classes", "seq_tag"):
                        l = d[k].shape[0] if d[k].shape else None
                        if l is None:
                            continue
                        lo = mn if isinstance(mn, int) else (mn or {}).get(k, 0)
                        hi = mx if isinstance(mx, int) else (mx or {}).get(k, 10**9)
                        if l < lo or l > hi:
                            return False
                    return True

                exp = [d for d in _src(lens, lens2) if ok(d)]
                expect_eq(_cl(out), _cl(exp), f"LenFilterDataPipe lens {lens}/{lens2} min {mn} max {mx}")
                ctx.trans(len(out))
                ctx.trace()
                ctx.state(("lenfilter", lens, str(mn), str(mx)))


def _nd(x):
    from returnn.util import NumbersDict

    return NumbersDict(x) if isinstance(x, dict) else x


def _case_shuffle(case, ctx):
    from returnn.torch.data.pipeline import ShufflingDataPipe, BatchingIterDataPipe

    mono = ["complete_frac", "seq_idx"]
    for lens in _all_lens(case):
        if sum(lens) % 2 and case["n"] > 3:
            continue
        for ms in (1, 2):
            ref_b = [_cl([{k: v for k, v in d.items() if k not in mono} for d in b]) for b in BatchingIterDataPipe(_src(lens), batch_size=None, max_seqs=ms)]
            for buf in (1, 2, 3, 10):
                for seed in range(case["seeds"]):
                    pipe = ShufflingDataPipe(BatchingIterDataPipe(_src(lens), batch_size=None, max_seqs=ms), buffer_size=buf, monotonic_data_keys=mono, seed=seed)
                    what = f"ShufflingDataPipe lens {lens} max_seqs {ms} buffer {buf} seed {seed}"
                    stops = [None] + (list(range(len(ref_b))) if seed < 2 else [])
                    for stop in stops:
                        # possibly consume part of an epoch first, then restart: no leftovers, nothing missing
                        if stop is not None:
                            list(itertools.islice(iter(pipe), stop + 1))
                        pipe.set_seed(seed)
                        out = list(pipe)
                        got = [_cl([{k: v for k, v in d.items() if k not in mono} for d in b]) for b in out]
                        expect_eq(sorted(got), sorted(ref_b), what + f" (after partial epoch {stop}): every batch exactly once, unchanged")
                        for k in mono:
                            vals = [float(d[k]) for b in out for d in b]
                            expect_eq(vals, sorted(vals), what + f": {k} must stay monotonic")
                            expect_eq(sorted(vals), sorted(float(d[k]) for d in _src(lens)), what + f": values of {k}")
                        for i, b in enumerate(got):
                            # batches come out of the buffer they were read into
                            expect(any(ref_b[j] == b for j in range(max(0, i - 2 * buf), min(len(ref_b), i + 2 * buf))), what + ": displaced beyond the buffer")
                        ctx.trans(len(out))
                        ctx.trace()
                        ctx.outcome(("shuffle", len(lens), ms, buf, tuple(ref_b.index(b) for b in got)))
                    ctx.state((what,))


def _case_full(case, ctx):
    """whole pipeline via DataLoader (num_workers=0), over two epochs, with partially consumed epochs"""
    from returnn.datasets.generating import StaticDataset
    from returnn.torch.data.returnn_dataset_wrapper import ReturnnDatasetIterDataPipe
    from returnn.torch.data.pipeline import ChunkingIterDataPipe, BatchingIterDataPipe, create_data_loader_from_batches

    for lens in _all_lens(case):
        data = [{k: v for k, v in _item(i, l, l, len(lens), 1).items() if k in ("data", "classes")} for i, l in enumerate(lens)]
        ds = StaticDataset(data=data, output_dim={"data": (2, 2), "classes": (1000, 1)}, seq_ordering="random")
        for chunk in (None, 2):
            for stop in range(0, 3):
                pipe = ReturnnDatasetIterDataPipe(ds)
                if chunk:
                    pipe = ChunkingIterDataPipe(pipe, chunk)
                batches = BatchingIterDataPipe(pipe, batch_size={"data": 4}, max_seqs=2)
                loader = create_data_loader_from_batches(batches, {"num_workers": 0})
                epoch = 0
                if stop:
                    epoch += 1
                    list(itertools.islice(iter(loader), stop))
                for _ in range(2):
                    epoch += 1
                    frames, order = [], []
                    for x in loader:
                        ctx.trans()
                        expect_eq(int(x["epoch"]), epoch, "epoch in batch")
                        for b, tag in enumerate(x["seq_tag"]):
                            l = int(x["data:seq_len"][b])
                            i = int(str(tag).split("-")[1])
                            if not order or order[-1] != i:
                                order.append(i)
                            frames += [(i, tuple(v)) for v in x["data"][b, :l].tolist()]
                            expect_eq(x["classes"][b, :l].tolist(), [10 * (i + 1) + int(round(v[0] - 100 * (i + 1))) for v in x["data"][b, :l].tolist()], "classes aligned with data")
                    what = f"pipeline lens {lens} chunk {chunk} epoch {epoch} after partial {stop}"
                    exp_order = list(ds.get_seq_order_for_epoch(epoch, len(lens)))
                    expect_eq(order, [int(i) for i in exp_order], what + ": seq order")
                    expect_eq(frames, [(i, tuple(v)) for i in order for v in data[i]["data"].tolist()], what + ": every frame exactly once")
                    ctx.trace()
                    ctx.outcome((tuple(order), chunk))
                ctx.state(("full", lens, chunk, stop))


def _mk(kind, n=5, **kw):
    from returnn.datasets.basic import init_dataset

    d = os.environ["TMPDIR"] + "/zoo"
    os.makedirs(d, exist_ok=True)
    return init_dataset(zoo.spec(kind, d, n, **kw))


def _case_wrap(case, ctx):
    from returnn.torch.data.returnn_dataset_wrapper import ReturnnDatasetIterDataPipe

    for kw in ({"seq_ordering": "random"}, {"seq_ordering": "sorted", "partition_epoch": 2}):
        ds = _mk(case["kind"], **kw)
        ds_ref = _mk(case["kind"], **kw)
        pipe = ReturnnDatasetIterDataPipe(ds)
        epoch = 0
        for stop in (None, 1, None, 2, None):
            epoch += 1
            ds_ref.init_seq_order(epoch=epoch)
            ref = zoo.read_epoch(ds_ref)
            items = list(itertools.islice(iter(pipe), stop))
            if stop is None:
                expect_eq(len(items), len(ref), f"{case} epoch {epoch}: number of seqs")
            last = 0
            for i, it in enumerate(items):
                got = (str(it["seq_tag"]), tuple(sorted((k, zoo.canon(v)) for k, v in it.items() if k not in ("seq_tag", "seq_idx", "epoch", "num_seqs", "complete_frac"))))
                expect_eq(got, ref[i], f"{case} {kw} epoch {epoch} seq {i}")
                expect_eq(int(it["seq_idx"]), i, f"{case}: seq_idx")
                expect_eq(int(it["epoch"]), epoch, f"{case}: epoch")
                expect(int(it["num_seqs"]) in (-1, len(ref)), f"{case}: num_seqs {it['num_seqs']}")
                f = float(it["complete_frac"])
                expect(f == -1 or last <= f <= 1, f"{case}: complete_frac {f} after {last}")
                if f != -1:
                    last = f
                if i == len(ref) - 1 and f != -1:
                    expect_eq(f, 1.0, f"{case}: complete_frac at end")
                ctx.trans()
            ctx.trace()
            ctx.state((case["kind"], str(kw), epoch, stop))
            ctx.outcome((case["kind"], epoch, tuple(str(it["seq_tag"]) for it in items)))


def _case_mapstyle(case, ctx):
    from returnn.torch.data.returnn_dataset_wrapper import ReturnnDatasetPerEpochMapDataPipe, ReturnnDatasetFullMapDataPipe

    ds = _mk(case["kind"], seq_ordering="random")
    ref_ds = _mk(case["kind"], seq_ordering="random")
    try:
        if not ds.have_get_corpus_seq():
            return
    except Exception:
        return
    pipe = ReturnnDatasetPerEpochMapDataPipe(ds)
    for epoch in (1, 2, 3):
        pipe.reset()
        ref_ds.init_seq_order(epoch=epoch)
        ref = zoo.read_epoch(ref_ds)
        expect_eq(len(pipe), len(ref), f"{case}: len")
        for i in range(len(ref)):
            expect_eq(tuple(sorted((k, zoo.canon(v)) for k, v in pipe[i].items())), ref[i][1], f"{case} epoch {epoch} item {i}")
            ctx.trans()
    full = ReturnnDatasetFullMapDataPipe(ds)
    ref_ds = _mk(case["kind"], seq_ordering="default")
    ref_ds.init_seq_order(epoch=1)
    ref = zoo.read_epoch(ref_ds)
    expect_eq(len(full), len(ref), f"{case}: len full")
    for i in range(len(ref)):
        expect_eq(tuple(sorted((k, zoo.canon(v)) for k, v in full[i].items())), ref[i][1], f"{case} full item {i}")
    ctx.trace()
    ctx.state((case["kind"], "mapstyle"))


def _case_worker(case, ctx):
    """real DataLoader worker process (pickled dataset, spawn)"""
    from returnn.torch.data.returnn_dataset_wrapper import ReturnnDatasetIterDataPipe
    from returnn.torch.data.pipeline import BatchingIterDataPipe, create_data_loader_from_batches
    from returnn.config import Config, set_global_config

    set_global_config(Config({"backend": "torch"}))
    ds = _mk(case["kind"], seq_ordering="random")
    ref_ds = _mk(case["kind"], seq_ordering="random")
    loader = create_data_loader_from_batches(BatchingIterDataPipe(ReturnnDatasetIterDataPipe(ds), max_seqs=2, batch_size=None), {"num_workers": 1})
    for epoch in (1, 2):
        tags, data = [], []
        for x in loader:
            tags += [str(t) for t in x["seq_tag"]]
            data += [x["classes"][b, : int(l)].tolist() for b, l in enumerate(x["classes:seq_len"])]
            ctx.trans()
        ref_ds.init_seq_order(epoch=epoch)
        ref = zoo.read_epoch(ref_ds)
        expect_eq(tags, [t for t, _ in ref], f"{case} epoch {epoch}: seqs through DataLoader worker")
        expect_eq([repr(d) for d in data], [dict(c)["classes"][2] for _, c in ref], f"{case} epoch {epoch}: content")
        ctx.trace()
        ctx.state((case["kind"], "worker", epoch))
    del loader


if __name__ == "__main__":
    harness.main(__name__)
