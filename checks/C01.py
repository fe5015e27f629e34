"""C01: epoch partitioning / sharding / ordering deliver every sequence exactly once per full epoch, in the documented order."""
import os, itertools, gzip, pickle
from collections import Counter
from vlib import harness
from vlib.harness import Violation, expect, expect_eq
from vlib import ds as zoo

PID = "C01"
LEVEL = "model_checking"
RULE = (
    "one case = (dataset kind, ordering, #seqs, partition_epoch, #shards, repeat_epoch, extras); inside: all epochs of"
    " several full-epoch blocks x all shards are initialised on the real dataset; distinct outcome = distinct sub-epoch order"
)
BOUNDS = {
    "quick": "base: n<=9 seqs, partition_epoch<=4, shards<=3, repeat<=2, 17 orderings, 3 length profiles, 3 full epochs; zoo: 15 dataset kinds, n in {1,5,7}, partition_epoch<=3, shards<=3",
    "thorough": "base: n<=16, partition_epoch<=6, shards<=4, repeat<=3, 4 full epochs; zoo n<=11, partition_epoch<=5, shards<=4",
}
ASSUMPTIONS = ["default_every_n:k drops the num_seqs % k remainder (documented use: num == max_seqs)", "each dataset instance is created from its public config dict"]

ORDERS = [
    "default", "reverse", "sorted", "sorted_reverse", "random", "random:2", "random:3",
    "laplace", "laplace:3", "laplace:.2", "laplace:4:2", "sort_bin_shuffle", "sort_bin_shuffle:3", "sort_bin_shuffle:.2:2",
    "sort_bin_shuffle_x2:3", "default_every_n:2", "default_every_n:3", "callable",
]  # fmt: skip
LEN_PROF = {
    "mix": zoo.LENS["mix"],
    "eq": lambda i: 3,
    "dec": lambda i: 20 - i,
}
ZOO = "static hdf hdf2 map lm text_dict ogg translation meta meta_ctrl combined multi_epoch variable postproc concat from_list gen_dummy gen_dummy_keys".split()
ZOO_SHARD = "hdf hdf2 lm text_dict ogg meta meta_ctrl postproc gen_dummy gen_dummy_keys".split()
ZOO_ORDERS = ["default", "reverse", "sorted", "sorted_reverse", "random", "random:2", "laplace:2", "laplace:.2:2", "sort_bin_shuffle:2", "sort_bin_shuffle_x2:3"]


def gen_cases(tier):
    q = tier == "quick"
    for o in ORDERS:
        for n in range(1, 10 if q else 17):
            for lens in LEN_PROF:
                yield dict(t="base", o=o, n=n, lens=lens, maxp=4 if q else 6, maxs=3 if q else 4, maxr=2 if q else 3, blocks=3 if q else 4)
    for kind in ZOO:
        for o in ZOO_ORDERS:
            if kind == "concat" and o != "default":
                continue
            if kind in zoo.GEN and o not in ("default", "reverse", "random", "random:2"):  # no lens
                continue
            for n in [1, 5, 7] if q else [1, 2, 3, 5, 7, 8, 11]:
                if kind in ("combined", "concat") and n < 2:
                    continue
                for p in [1, 2, 3] if q else [1, 2, 3, 4, 5]:
                    if kind in ("concat",) and p > 1:
                        continue
                    for s in [1, 2, 3] if q else [1, 2, 3, 4]:
                        if s > 1 and (kind not in ZOO_SHARD):
                            continue
                        if kind == "multi_epoch" and p > n:
                            continue
                        yield dict(t="zoo", kind=kind, o=o, n=n, p=p, s=s)
    for kind in ["hdf2", "text_dict", "lm", "static", "map", "meta"]:
        for n in [5, 7]:
            for p in [1, 2]:
                for r in [1, 2]:
                    if p > 1 and r > 1:
                        continue
                    for mask in range(1, 2 ** n, 1 if not q else 3):
                        if kind in ("lm", "static", "map") and mask % 7:
                            continue
                        yield dict(t="filter", kind=kind, n=n, p=p, r=r, mask=mask)
    for n in range(1, 6 if q else 9):
        for o in ["default", "reverse", "random", "random:2"]:
            for p in [1, 2, 3]:
                yield dict(t="numpydump", n=n, o=o, p=p)
    for groups in itertools.product(range(3), repeat=4 if q else 5):
        for o in ["default", "reverse", "random", "sorted"]:
            yield dict(t="unique", groups=groups, o=o)
    for o in ["random", "laplace:2", "sort_bin_shuffle:3", "random:2"]:
        yield dict(t="seed", o=o, n=8)


class _CallOrd:
    def __call__(self, *, epoch, **_):
        return ["reverse", "random", "sorted"][epoch % 3]


class _CallOrdP:
    """callable ordering, constant within a full epoch (of p sub-epochs)"""

    def __init__(self, p):
        self.p = p

    def __call__(self, *, epoch, **_):
        return ["reverse", "random", "sorted"][((epoch - 1) // self.p) % 3]


def _base(o, p, s, si, r, **kw):
    from returnn.datasets.cached2 import CachedDataset2

    class D(CachedDataset2):
        def _collect_single_seq(self, seq_idx):
            raise NotImplementedError

    x = D(
        seq_ordering=_CallOrdP(p) if o == "callable" else o,
        partition_epoch=p if p > 1 else None,
        repeat_epoch=r if r > 1 else None,
        _num_shards=s,
        _shard_index=si,
        **kw,
    )
    return x


def _check_full_order(o, full, n, lens, what):
    """``full``: the order over the full epoch"""
    L = [lens(i) for i in full]
    if o == "default":
        expect_eq(full, list(range(n)), what + ": default order")
    elif o == "reverse":
        expect_eq(full, list(range(n))[::-1], what + ": reverse order")
    elif o == "sorted":
        expect_eq(full, sorted(range(n), key=lens), what + ": sorted order (stable)")
    elif o == "sorted_reverse":
        expect_eq(full, sorted(range(n), key=lambda i: -lens(i)), what + ": sorted_reverse order (stable)")
    elif o.startswith("laplace"):
        t = o.split(":")[1:]
        bins = 2 if not t else (max(n // int(t[0][1:]), 2) if t[0].startswith(".") else int(t[0]))
        for i in range(bins):
            part = L[i * n // bins : (i + 1) * n // bins]
            expect_eq(part, sorted(part, reverse=bool(i % 2)), what + f": laplace bin {i} not sorted in its direction")
    elif o.startswith("sort_bin_shuffle"):
        t = o.split(":")[1:]
        bins = 2 if not t else (max(n // int(t[0][1:]), 2) if t[0].startswith(".") else int(t[0]))
        # the bins are contiguous parts of the sorted order, in some order of the bins
        srt = sorted(lens(i) for i in range(n))
        bb = [srt[i * n // bins : (i + 1) * n // bins] for i in range(bins)]
        x2 = o.startswith("sort_bin_shuffle_x2")
        ok = False
        for perm in itertools.permutations(range(bins)) if bins <= 6 else []:
            pos, good = 0, True
            for b in perm:
                seg = L[pos : pos + len(bb[b])]
                pos += len(seg)
                if (sorted(seg) if x2 else seg) != bb[b]:
                    good = False
                    break
            if good:
                ok = True
                break
        expect(ok or bins > 6, lambda: f"{what}: {L} is not a sequence of bins {bb}")


def run_case(case, ctx):
    globals()["_case_" + case["t"]](case, ctx)


def _case_base(case, ctx):
    n, o = case["n"], case["o"]
    lens = LEN_PROF[case["lens"]]
    nb = case["blocks"]
    for p in range(1, case["maxp"] + 1):
        ref_full = None
        for s in range(1, case["maxs"] + 1):
            for r in range(1, case["maxr"] + 1):
                if p > 1 and r > 1:
                    continue  # prohibited by the dataset
                sets = [_base(o, p, s, si, r) for si in range(s)]
                fulls = []
                for blk in range(nb):
                    full, sizes = [], []
                    for e in range(blk * p + 1, (blk + 1) * p + 1):
                        for si in range(s):
                            seq = [int(i) for i in sets[si].get_seq_order_for_epoch(e, n, lens)]
                            ctx.trans()
                            ctx.outcome((e, tuple(seq)))
                            what = f"{o} n={n} P={p} S={s} R={r} epoch={e} shard={si}"
                            expect(all(0 <= i < n for i in seq), what + f": index out of range {seq}")
                            expect_eq(len(seq) % r, 0, what + ": repeat_epoch")
                            k = len(seq) // r
                            expect_eq(seq, seq[:k] * r, what + ": repeat_epoch must repeat the same sub-epoch")
                            sizes.append(k)
                            full += seq[:k]
                    what = f"{o} n={n} P={p} S={s} R={r} full epoch {blk}"
                    m = n
                    if o.startswith("default_every_n:"):
                        k = int(o.split(":")[1])
                        m = n // k * k
                        expect_eq(full, [j + i * (n // k) for j in range(n // k) for i in range(k)], what)
                    expect_eq(sorted(full), list(range(m)), what + ": every seq exactly once over all sub-epochs and shards")
                    expect(max(sizes) - min(sizes) <= 1, what + f": unbalanced {sizes}")
                    o_ = ["reverse", "random", "sorted"][blk % 3] if o == "callable" else o
                    _check_full_order(o_, full, n, lens, what)
                    fulls.append(full)
                    ctx.trace()
                # the same full order for any number of shards/repeats: all workers must agree
                if ref_full is None:
                    ref_full = fulls
                expect_eq(fulls, ref_full, f"{o} n={n} P={p} S={s} R={r}: full-epoch order must not depend on sharding/repeat")
                ctx.state((n, o, case["lens"], p, s, r))
        t = o.split(":")
        nth = 1
        if t[0] == "random":
            nth = int(t[1]) if len(t) > 1 else 1
        elif t[0] in ("laplace", "sort_bin_shuffle", "sort_bin_shuffle_x2"):
            nth = int(t[2]) if len(t) > 2 else 1
        if o != "callable":
            for b in range(1, nb):
                if b // nth == (b - 1) // nth:
                    expect_eq(ref_full[b], ref_full[b - 1], f"{o} n={n} P={p}: order must stay fixed for {nth} full epochs")
        if t[0] in ("random", "sort_bin_shuffle_x2", "laplace") and n >= 9 and nb > nth:
            expect(len(set(map(tuple, ref_full))) > 1, f"{o} n={n} P={p}: not reshuffled in later full epochs: {ref_full}")
    ctx.sample({"case": case, "full": ref_full[0]})


def _mk(kind, n, **kw):
    from returnn.datasets.basic import init_dataset

    d = os.environ["TMPDIR"] + "/zoo"
    os.makedirs(d, exist_ok=True)
    return init_dataset(zoo.spec(kind, d, n, **kw))


_ref_cache = {}


def _ref(kind, n, epoch=1):
    """content by tag, as delivered in the plain order"""
    k = (kind, n, epoch if kind == "variable" else 0)
    if k not in _ref_cache:
        if kind == "multi_epoch":
            kind = "static"
        x = _mk(kind, n, seq_ordering="default")
        x.init_seq_order(epoch=epoch)
        _ref_cache[k] = zoo.read_epoch(x)
    return _ref_cache[k]


def _len_of(seq):
    return max(v[0][0] for k, v in seq[1] if v[0])


def _case_numpydump(case, ctx):
    """NumpyDumpDataset: all start_seq, end_seq, also given as None"""
    import numpy
    from returnn.datasets.numpy_dump import NumpyDumpDataset

    n, o, p = case["n"], case["o"], case["p"]
    d = os.environ["TMPDIR"] + "/npd%i-" % n
    for i in range(n):
        for fmt, x in (("%i.data", numpy.full((i + 1, 2), i)), ("%i.targets", numpy.full((i + 2,), i))):
            fn = d + fmt % i + ".txt"
            if not os.path.exists(fn):
                numpy.savetxt(fn, x)
    for start in range(n):
        for end in [None] + list(range(start + 1, n + 1)):
            x = NumpyDumpDataset(
                prefix=d, postfix=".txt", start_seq=start, end_seq=end, num_inputs=2, num_outputs={"data": (2, 2), "classes": (9, 1)},
                seq_ordering=o, partition_epoch=p if p > 1 else None,
            )  # fmt: skip
            for blk in range(2):
                got = []
                for e in range(blk * p + 1, (blk + 1) * p + 1):
                    x.init_seq_order(epoch=e)
                    k = x.num_seqs
                    for j in range(k):
                        expect(x.is_less_than_num_seqs(j), f"{case} {start}:{end} epoch {e}: is_less_than_num_seqs({j}) with num_seqs {k}")
                        x.load_seqs(j, j + 1)
                        a, b = x.get_data(j, "data"), x.get_data(j, "classes")
                        i = int(b[0])
                        expect(a.shape == (i + 1, 2) and (a == i).all() and b.shape == (i + 2,), f"{case}: data of seq {i}: {a.tolist()} {b.tolist()}")
                        got.append(i)
                    expect(not x.is_less_than_num_seqs(k), f"{case} {start}:{end}: num_seqs {k}")
                    ctx.trans(1 + k)
                exp = list(range(start, n if end is None else end))
                if o in ("default", "reverse"):
                    expect_eq(got, exp[::-1] if o == "reverse" else exp, f"{case} NumpyDumpDataset start_seq {start} end_seq {end}: order in the full epoch")
                expect_eq(sorted(got), exp, f"{case} NumpyDumpDataset start_seq {start} end_seq {end}: seqs in the full epoch")
                ctx.outcome(("npd", n, o, p, start, end, tuple(got)))
    ctx.trace()
    ctx.state(("npd", n, o, p))


def _case_zoo(case, ctx):
    kind, o, n, p, s = case["kind"], case["o"], case["n"], case["p"], case["s"]
    kw = dict(seq_ordering=o)
    if p > 1:
        kw["partition_epoch"] = p
    ref = _ref(kind, n)
    if kind != "variable":
        expect_eq(len(ref), n, f"{kind}: number of seqs in plain order")
        expect_eq(len(set(t for t, _ in ref)), n, f"{kind}: tags unique")
    shards = []
    for si in range(s):
        if s > 1:
            if kind in ("meta_ctrl", "postproc"):
                # pass down to the top-level dataset, as done by the wrappers
                from returnn.datasets.basic import init_dataset

                d = os.environ["TMPDIR"] + "/zoo"
                os.makedirs(d, exist_ok=True)
                sp = zoo.spec(kind, d, n, **kw)
                shards.append(init_dataset(dict(sp, _num_shards=s, _shard_index=si)))
            else:
                shards.append(_mk(kind, n, _num_shards=s, _shard_index=si, **kw))
        else:
            shards.append(_mk(kind, n, **kw))
    mult = 2 if kind == "multi_epoch" else 1
    for blk in range(2):
        got, sizes = [], []
        for e in range(blk * p + 1, (blk + 1) * p + 1):
            for si in range(s):
                x = shards[si]
                x.init_seq_order(epoch=e)
                seqs = zoo.read_epoch(x)
                ctx.trans(1 + len(seqs))
                expect_eq(x.num_seqs, len(seqs), f"{case} epoch {e}: num_seqs after reading")
                if kind == "variable":
                    rr = dict(_ref(kind, n, e))
                    for t, c in seqs:
                        expect_eq(c, rr.get(t), f"{case} epoch {e}: content of {t}")
                    seqs = [(t, None) for t, _ in seqs]
                got += seqs
                sizes.append(len(seqs))
                ctx.outcome((kind, e, si, tuple(t for t, _ in seqs)))
        if mult == 1:
            exp = Counter(ref) if kind != "variable" else Counter((t, None) for t, _ in ref)
        else:
            # MultiEpochDataset(multi_epoch=2): 2 sub-epochs each, so p epochs are 2 full epochs
            exp = Counter({k: 2 for k in ref})
            got = [(_strip_ep(t), c) for t, c in got]
        if Counter(got) != exp:
            missing = list((exp - Counter(got)).keys())[:3]
            extra = list((Counter(got) - exp).keys())[:3]
            raise Violation(f"{case} full epoch {blk}: missing {missing!r}, unexpected/duplicate {extra!r}"[:2000])
        if mult == 1 and n:
            expect(max(sizes) - min(sizes) <= 1, f"{case}: unbalanced {sizes}")
            lens_by_tag = {t: zoo.LENS["mix"](i) for i, (t, _) in enumerate(ref)}
            idx_by_tag = {t: i for i, (t, _) in enumerate(ref)}
            if kind == "combined":
                k = max(1, n // 2)
                lens_by_tag = {t: zoo.LENS["mix"](i if i < k else i - k) for t, i in idx_by_tag.items()}
            ll = [lens_by_tag[t] for _, t in sorted((i, t) for t, i in idx_by_tag.items())]
            if kind not in ("multi_epoch",):
                _check_full_order(o, [idx_by_tag[t] for t, _ in got], n, lambda i: ll[i], f"{case} full epoch {blk}")
        ctx.trace()
        ctx.state((kind, o, n, p, s, blk))


def _strip_ep(tag):
    import re

    # MultiEpochDataset may decorate the tags with the sub-epoch
    return re.sub(r"^ep\d+-", "", re.sub(r"[,;:]?\s*(sub)?ep(och)?[-_ ]?\d+$", "", tag))


def _case_filter(case, ctx):
    kind, n, p, r, mask = (case[k] for k in ("kind", "n", "p", "r", "mask"))
    ref = _ref(kind, n)
    keep = [t for i, (t, _) in enumerate(ref) if mask >> i & 1]
    d = os.environ["TMPDIR"] + "/zoo"
    fn = f"{d}/filter-{kind}-{n}-{mask}-{p}-{r}.txt"  # unique: RETURNN caches by file name
    with open(fn, "w") as f:
        f.write("".join(t + "\n" for t in keep))
    kw = {"seq_list_filter_file": fn}
    if p > 1:
        kw["partition_epoch"] = p
    if r > 1:
        kw["repeat_epoch"] = r
    x = _mk(kind, n, seq_ordering="random", **kw)
    got, sizes = [], []
    for e in range(1, p + 1):
        try:
            x.init_seq_order(epoch=e)
        except AssertionError as exc:
            if "empty after applying seq_list_filter_file" in str(exc):
                sizes.append(0)  # documented restriction: a sub-epoch may not become empty
                continue
            raise
        seqs = zoo.read_epoch(x)
        ctx.trans(1 + len(seqs))
        expect(len(seqs) > 0, f"{case}: empty sub-epoch was not reported")
        got += seqs
    exp = Counter({c: r for c in ref if c[0] in keep})
    expect_eq(Counter(got), exp, f"{case}: exactly the listed seqs, each {r} times")
    ctx.state((kind, n, p, r, mask))
    ctx.trace()
    os.unlink(fn)


def _case_unique(case, ctx):
    groups, o = case["groups"], case["o"]
    from returnn.datasets.cached2 import CachedDataset2

    n = len(groups)
    tags = ["t%i" % g for g in groups]

    class D(CachedDataset2):
        def _collect_single_seq(self, seq_idx):
            raise NotImplementedError

        def get_all_tags(self):
            return tags

        def get_total_num_seqs(self, *, fast=False):
            return n

    for p in [1, 2, 3]:
        for s in [1, 2]:
            got = []
            for e in range(1, p + 1):
                for si in range(s):
                    x = D(seq_ordering=o, unique_seq_tags=True, partition_epoch=p, _num_shards=s, _shard_index=si)
                    seq = x.get_seq_order_for_epoch(e, n, lambda i: i + 1)
                    got += [tags[i] for i in seq]
                    ctx.trans()
            expect_eq(sorted(got), sorted(set(tags)), f"{case} P={p} S={s}: every distinct tag exactly once")
            ctx.state((groups, o, p, s))
            ctx.trace()


def _case_seed(case, ctx):
    n, o = case["n"], case["o"]
    lens = zoo.LENS["mix"]
    base = [list(map(int, _base(o, 1, 1, 0, 1).get_seq_order_for_epoch(e, n, lens))) for e in range(1, 9)]
    for p in [1, 2, 3]:
        for fs in [0, 1, 7]:
            x = _base(o, p, 1, 0, 1, fixed_random_seed=fs)
            a = [[int(i) for i in x.get_seq_order_for_epoch(e, n, lens)] for e in range(1, 3 * p + 1)]
            for e in range(p, 3 * p):
                expect_eq(a[e], a[e - p], f"{case} fixed_random_seed={fs} P={p}: same in all full epochs")
            ctx.trans(3 * p)
        for rs in [1, 2, 5]:
            x = _base(o, p, 1, 0, 1, random_seed_offset=rs)
            full = []
            for blk in range(2):
                f = []
                for e in range(blk * p + 1, (blk + 1) * p + 1):
                    f += [int(i) for i in x.get_seq_order_for_epoch(e, n, lens)]
                full.append(f)
                expect_eq(sorted(f), list(range(n)), f"{case} random_seed_offset={rs} P={p}")
            ctx.trans(2 * p)
            ctx.outcome((o, rs, tuple(full[0])))
    orders = {tuple(_base(o, 1, 1, 0, 1, random_seed_offset=rs).get_seq_order_for_epoch(1, n, lens)) for rs in range(6)}
    expect(len(orders) > 1, f"{case}: random_seed_offset has no effect")
    ctx.trace()
    ctx.state((o, "seed"))


def check_vacuity(total):
    if total.transitions < 5000 or len(total.outcomes) < 1000:
        return "too few explored orders"


if __name__ == "__main__":
    harness.main(__name__)
