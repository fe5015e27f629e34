"""C11: PostprocessingDataset: exactly the mapped sequences of the wrapped dataset, for every mapper shape, history and read pattern; LaplaceOrdering is a permutation within its bins."""
import itertools, os
from vlib import harness
from vlib.harness import Violation, expect, expect_eq
from vlib import ds as zoo

PID = "C11"
LEVEL = "model_checking"
RULE = (
    "case = (wrapped dataset kind or all length tuples, mapper(s)); enumerated: sizes x mappers (per seq, per stream: 1:1, drop, duplicate, merge, empty, reorder, composed) x read patterns x histories (early stop, repeat, jump);"
    " oracle = the mapper function applied on the list of sequences of the wrapped dataset read directly; rng-dependent mappers: a function of the epoch only; Laplace: sorted bins with alternating direction, all exactly once, complete_frac increasing to 1;"
    " state = (case, sizes, history, read pattern)"
)
BOUNDS = {
    "quick": "1-4 seqs, 6 wrapped kinds, 15 mappers, 8 histories, 4 read patterns; Laplace: all length tuples over {1,2,3} up to 6 seqs (4 seqs: {1,2,3,4}), bins 1-4",
    "thorough": "1-7 seqs; Laplace up to 8 seqs over {1,2,3}",
}
ASSUMPTIONS = ["mapper functions follow the documented signature", "an epoch without any seq is refused (assertion) if the number of seqs is not known in advance"]
CASE_TIMEOUT = 600

MAPPERS = "id plus rng fresh len keydrop | sid srng drop dup merge rev first two_stage laplace2 mixed".split()
HISTS = [
    [(1, None), (2, None)],
    [(1, 1), (2, None)],
    [(1, 1), (1, None), (3, None)],
    [(3, None), (1, None), (3, 2), (3, None)],
    [(2, 0), (2, None)],
    [(None, None), (1, None), (None, None), (2, None)],
]


def parent_init():
    from returnn.log import log

    log.initialize(verbosity=[0])
    import returnn.datasets.hdf, returnn.datasets.meta, returnn.datasets.text_dict, returnn.datasets.postprocessing, returnn.datasets.generating  # noqa


def gen_cases(tier):
    q = tier == "quick"
    for kind in ("hdf2", "ogg", "static", "meta_ctrl", "postproc_stream", "no_frac"):
        for m in MAPPERS:
            if m == "|":
                continue
            yield dict(t="map", kind=kind, m=m, mx=4 if q else 7)
    for n in range(1, 7 if q else 9):
        for b in (1, 2, 3, 4):
            yield dict(t="laplace", n=n, b=b, vals=(1, 2, 3, 4) if n <= 4 else (1, 2, 3) if n <= 6 else (1, 2))
    for n in range(0, 5):
        yield dict(t="seqlist", n=n)


# ---- mappers. Each has a TensorDict version (what the user gives) and a plain list version (oracle). seqs: list of (tag, dict key -> ndarray)


def _td(tag, feats, cf=None, tmpl=None):
    from returnn.tensor import TensorDict, Tensor, Dim
    import numpy

    td = TensorDict()
    cf = getattr(cf, "raw_tensor", cf)
    for k, v in feats.items():
        t = tmpl.data[k]
        td.data[k] = Tensor(k, dims=[Dim(None, name=f"{k}_t")] + [Dim(s, name=f"{k}_{i}") for i, s in enumerate(v.shape[1:])] if v.ndim else [], dtype=t.dtype, sparse_dim=t.sparse_dim, raw_tensor=v)
    if tag is not None:
        td.data["seq_tag"] = Tensor("seq_tag", dims=(), dtype="string", raw_tensor=numpy.array(tag))
    if cf is not None:
        td.data["complete_frac"] = Tensor("complete_frac", dims=(), dtype="float32", raw_tensor=cf)
    return td


def _feats(td):
    return {k: v.raw_tensor for k, v in td.data.items() if k not in ("seq_tag", "complete_frac")}


def _tag(td):
    return str(td.data["seq_tag"].raw_tensor)


def _add(f, x):
    return {k: (v + x).astype(v.dtype) if v.dtype.kind in "if" else v for k, v in f.items()}


def _cat(f, g):
    import numpy

    return {k: numpy.concatenate([f[k], g[k]], axis=0) if f[k].ndim else f[k] for k in f}


def map_seq_fn(m):
    def f(td, *, rng, epoch, seq_idx, **_):
        if m == "id":
            return td
        if m == "plus":
            for k, v in _feats(td).items():
                td.data[k].raw_tensor = _add({k: v}, seq_idx + 10 * epoch)[k]
            return td
        if m == "rng":
            r = int(rng.randint(1000))
            for k, v in _feats(td).items():
                td.data[k].raw_tensor = _add({k: v}, r)[k]
            return td
        if m == "fresh":  # new dict, no meta entries
            return _td(None, _add(_feats(td), 1), tmpl=td)
        if m == "len":
            return _td(_tag(td) + "x", _cat(_feats(td), _feats(td)), td.data.get("complete_frac"), tmpl=td)
        if m == "keydrop":
            return _td(_tag(td), _feats(td), None, tmpl=td)
        raise ValueError(m)

    return f


def stream_fn(m):
    from returnn.datasets.postprocessing import LaplaceOrdering, Sequential

    def f(it, *, rng, epoch, **_):
        prev = None
        if m == "rev":
            buf = list(it)
            cfs = [t.data["complete_frac"].raw_tensor if "complete_frac" in t.data else None for t in buf]
            for t, cf in zip(reversed(buf), cfs):
                if cf is not None:
                    t.data["complete_frac"].raw_tensor = cf
                yield t
            return
        for i, td in enumerate(it):
            if m == "nofrac":
                yield _td(_tag(td), _feats(td), None, tmpl=td)
            elif m == "sid":
                yield td
            elif m == "srng":
                r = int(rng.randint(1000))
                yield _td(_tag(td), _add(_feats(td), r), td.data.get("complete_frac"), tmpl=td)
            elif m == "drop":
                if i % 2 == 1:
                    yield td
            elif m == "dup":
                cf = td.data.get("complete_frac")
                yield td
                yield _td(_tag(td) + "'", _add(_feats(td), 1), cf, tmpl=td)
            elif m == "merge":
                if prev is None:
                    prev = td
                else:
                    yield _td(_tag(prev) + ";" + _tag(td), _cat(_feats(prev), _feats(td)), td.data.get("complete_frac"), tmpl=td)
                    prev = None
            elif m == "none":
                pass
            elif m == "first":
                yield td
                return
            else:
                raise ValueError(m)

    if m == "two_stage":
        return Sequential(stream_fn("dup"), stream_fn("merge"))
    if m == "laplace2":
        return LaplaceOrdering(2)
    if m == "mixed":
        return Sequential(stream_fn("drop"), LaplaceOrdering(2), stream_fn("dup"))
    return f


def _laplace(seqs, b, key="data"):
    res = []
    for j, i in enumerate(range(0, len(seqs), b)):
        res += sorted(seqs[i : i + b], key=lambda s: s[1][key].shape[0], reverse=bool(j % 2))
    return res


def oracle(m, seqs, epoch):
    if m in ("id", "keydrop", "sid"):
        return seqs
    if m == "plus":
        return [(t, _add(f, i + 10 * epoch)) for i, (t, f) in enumerate(seqs)]
    if m == "fresh":
        return [(t, _add(f, 1)) for t, f in seqs]
    if m == "len":
        return [(t + "x", _cat(f, f)) for t, f in seqs]
    if m == "drop":
        return seqs[1::2]
    if m == "dup":
        return [x for t, f in seqs for x in ((t, f), (t + "'", _add(f, 1)))]
    if m == "merge":
        return [(a[0] + ";" + b[0], _cat(a[1], b[1])) for a, b in zip(seqs[0::2], seqs[1::2])]
    if m == "none":
        return []
    if m == "rev":
        return seqs[::-1]
    if m == "first":
        return seqs[:1]
    if m == "two_stage":
        return oracle("merge", oracle("dup", seqs, epoch), epoch)
    if m == "laplace2":
        return _laplace(seqs, 2)
    if m == "mixed":
        return oracle("dup", _laplace(seqs[1::2], 2), epoch)
    raise ValueError(m)


def _read(ds, n, pat="one"):
    res = []
    i = 0
    last = 0.0
    while (n is None or i < n) and ds.is_less_than_num_seqs(i):
        end = i + 1
        if pat in ("two", "win") and ds.is_less_than_num_seqs(i + 1):
            end = i + 2
        if pat == "beyond":
            end = i + 3
        ds.load_seqs(i, end)
        for j in range(i, end if pat == "two" else i + 1):
            res.append((ds.get_tag(j), {k: ds.get_data(j, k).copy() for k in sorted(ds.get_data_keys())}))
            cf = ds.get_complete_frac(j, allow_only_lr_suitable=True)
            if cf is not None:
                expect(last <= cf <= 1.0, f"complete_frac {cf} after {last}")
                last = cf
        i = end if pat == "two" else i + 1
    return res, i, last


def _r(x):
    return [(t, {k: (v.tolist(), str(v.dtype)) for k, v in sorted(f.items())}) for t, f in x]


def run_case(case, ctx):
    globals()["_case_" + case["t"]](case, ctx)


def _case_map(case, ctx):
    from returnn.datasets.basic import init_dataset

    d = os.environ["TMPDIR"] + "/zoo"
    os.makedirs(d, exist_ok=True)
    m = case["m"]
    per_seq = MAPPERS.index(m) < MAPPERS.index("|")
    for n in range(1, case["mx"] + 1):
        for opts in ({}, {"seq_ordering": "random"}, {"partition_epoch": 2}):
            if opts and case["kind"] in ("postproc_stream", "static", "no_frac") or opts and n < 2:
                continue
            if case["kind"] == "no_frac":  # number of seqs not known, no complete_frac
                spec = {"class": "PostprocessingDataset", "dataset": zoo.spec("hdf2", d, n), "map_seq_stream": stream_fn("nofrac")}
            else:
                spec = zoo.spec(case["kind"], d, n, **opts)
            pp = {"class": "PostprocessingDataset", "dataset": spec, ("map_seq" if per_seq else "map_seq_stream"): (map_seq_fn if per_seq else stream_fn)(m)}
            raw = {}
            for ep in (1, 2, 3):
                rd = init_dataset(spec)
                rd.init_seq_order(epoch=ep)
                raw[ep] = _read(rd, None)[0]
            if m in ("laplace2", "mixed") and "data" not in raw[1][0][1]:
                continue
            if m in ("rng", "srng"):
                exp = {}
                for ep in (1, 2, 3):
                    dd = init_dataset(pp)
                    dd.init_seq_order(epoch=ep)
                    exp[ep] = _read(dd, None)[0]
                    offs = set()
                    expect_eq([t for t, _ in exp[ep]], [t for t, _ in raw[ep]], f"{case} n={n}: tags")
                    for (t, f), (_, g) in zip(exp[ep], raw[ep]):
                        for k in f:
                            if f[k].size and f[k].dtype.kind in "if":
                                x = {round(float(y), 2) for y in (f[k].astype("float64") - g[k]).flatten()}
                                offs |= {int(round(y)) for y in x} if f[k].dtype.itemsize > 1 else set()
            else:
                exp = {ep: oracle(m, raw[ep], ep) for ep in raw}
            empty = {ep for ep in exp if not exp[ep]}  # an epoch with no seqs at all is refused if the number of seqs is not known before
            for hi, hist in enumerate(HISTS):
                if any(ep in empty and cnt != 0 for ep, cnt in hist):
                    continue
                for pat in ("one", "two", "win", "beyond") if hi < 3 else ("one",):
                    ds = init_dataset(pp)
                    for ep, cnt in hist:
                        ds.init_seq_order(epoch=ep)
                        what = f"{case} n={n} {opts} history {hist} pattern {pat} epoch {ep}"
                        if ep is None:
                            expect(not ds.is_less_than_num_seqs(0), f"{what}: has seqs")
                            continue
                        got, num, _ = _read(ds, cnt, pat)
                        e = exp[ep] if cnt is None else exp[ep][: len(got)]
                        expect_eq(_r(got), _r(e), what)
                        if cnt is None:
                            expect_eq(num, len(exp[ep]), f"{what}: number of seqs")
                            if per_seq and case["kind"] not in ("no_frac", "postproc_stream"):
                                expect_eq(ds.num_seqs, num, f"{what}: num_seqs")
                        ctx.trans(len(got))
                    ctx.state((case["kind"], m, n, str(opts), hi, pat))
                    ctx.trace()
    ctx.outcome(f"{case['kind']} {m}")


def _case_laplace(case, ctx):
    import numpy
    from returnn.datasets.basic import init_dataset
    from returnn.datasets.postprocessing import LaplaceOrdering, Sequential

    n, b = case["n"], case["b"]
    for lens in itertools.product(case["vals"], repeat=n):
        # one more seq in the data than used if n == 0
        data = [{"data": numpy.arange(l, dtype="float32")[:, None] + 10 * i, "classes": numpy.array([i], dtype="int32")} for i, l in enumerate(lens or (1,))]
        fn = LaplaceOrdering(b)
        if n == 0:
            fn = Sequential(stream_fn("none"), fn)
        ds = init_dataset({"class": "PostprocessingDataset", "dataset": {"class": "StaticDataset", "data": data, "input_dim": 1, "output_dim": {"data": (1, 2), "classes": (10, 1)}}, "map_seq_stream": fn})
        seqs = [("seq-%i" % i, dict(x)) for i, x in enumerate(data)] if n else []
        exp = _laplace(seqs, b)
        for ep in (1, 2):
            ds.init_seq_order(epoch=ep)
            got, num, last = _read(ds, None, "one" if ep == 1 else "two")
            what = f"LaplaceOrdering({b}) lengths {lens}"
            # ties: any order within the same length
            expect_eq([f["data"].shape[0] for _, f in got], [f["data"].shape[0] for _, f in exp], f"{what}: lengths in order")
            for i in range(0, n, b):
                expect_eq(sorted(map(str, _r(got[i : i + b]))), sorted(map(str, _r(exp[i : i + b]))), f"{what}: bin {i // b}")
            expect_eq(len(got), n, f"{what}: number of seqs")
            if n:
                expect_eq(last, 1.0, f"{what}: complete_frac at the end")
        ctx.state(("laplace", b, lens))
        ctx.trans(2 * n)
        ctx.trace()


def _case_seqlist(case, ctx):
    """predefined orders"""
    from returnn.datasets.basic import init_dataset

    d = os.environ["TMPDIR"] + "/zoo"
    os.makedirs(d, exist_ok=True)
    n = case["n"]
    for kind in ("hdf2", "ogg"):
        spec = zoo.spec(kind, d, max(n, 1))
        for m in ("id", "plus", "fresh"):
            ds = init_dataset({"class": "PostprocessingDataset", "dataset": spec, "map_seq": map_seq_fn(m)})
            for order in [p for k in range(1, n + 1) for p in itertools.permutations(range(n), k)]:
                rd = init_dataset(spec)
                rd.init_seq_order(epoch=1, seq_order=list(order))
                exp = oracle(m, _read(rd, None)[0], 1)
                ds.init_seq_order(epoch=1, seq_order=list(order))
                expect_eq(_r(_read(ds, None)[0]), _r(exp), f"{case} {kind} {m} seq_order {order}")
                expect_eq(list(ds.get_current_seq_order()), list(order), f"{case} {kind} current seq order")
                ds.init_seq_order(epoch=1, seq_list=["seq-%i" % i for i in order])
                expect_eq(_r(_read(ds, None)[0]), _r(exp), f"{case} {kind} {m} seq_list {order}")
                ctx.state(("list", kind, m, order))
                ctx.trans(2)
                ctx.trace()


if __name__ == "__main__":
    harness.main(__name__)
