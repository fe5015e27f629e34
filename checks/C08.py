"""C08: composed datasets (CombinedDataset, ConcatDataset, ConcatSeqsDataset, MultiEpochDataset) deliver exactly the sequences of their parts: nothing lost, duplicated, mixed up, for every size, ordering, partition and read pattern."""
import itertools, os
from vlib import harness
from vlib.harness import Violation, expect, expect_eq
from vlib import ds as zoo

PID = "C08"
LEVEL = "model_checking"
RULE = (
    "case = (composition, kinds of parts, ordering); run_case enumerates all sizes of the parts x partition/repeat/sampling options x read patterns x epochs on the real datasets;"
    " oracle = multiset (and order where it is documented) of the sequences of the parts read separately, streams by tag; state = (composition, sizes, options, epoch)"
)
BOUNDS = {
    "quick": "2-3 parts of 1-4 seqs (all size tuples), 8 orderings, partition_epoch 1-3, repeat 1-2, sampling sizes 1-5 over 6 epochs, 4 read patterns; ConcatSeqs: all segmentations of up to 4 seqs in any order of 3, all options; MultiEpoch: 1-3 inner epochs with partition 1-3",
    "thorough": "parts of up to 5 seqs, partition_epoch up to 4",
}
ASSUMPTIONS = ["every sub-epoch of an inner dataset of MultiEpochDataset has at least one seq (it refuses otherwise)"]
CASE_TIMEOUT = 600
PATTERNS = ("one", "two", "win", "all")


def parent_init():
    from returnn.log import log

    log.initialize(verbosity=[0])
    import returnn.datasets.hdf, returnn.datasets.meta, returnn.datasets.text_dict  # noqa


def gen_cases(tier):
    th = tier != "quick"
    mx = 5 if th else 4
    for kinds in (("hdf", "hdf"), ("hdf2", "static"), ("hdf", "hdf2", "hdf"), ("ogg", "hdf")):
        for order in "default reverse random random_dataset sorted laplace:2 sort_bin_shuffle:2".split():
            if ("ogg" in kinds or "static" in kinds) and order in ("sorted", "laplace:2", "sort_bin_shuffle:2"):
                continue
            yield dict(t="combined", kinds=kinds, order=order, mx=mx if len(kinds) == 2 else mx - 1, pe=4 if th else 3)
    for order in "default random sorted".split():
        yield dict(t="sampling", order=order, mx=mx)
    for order in ("default", "random_dataset"):
        yield dict(t="combined_dyn", order=order, mx=mx)
    for nparts in (1, 2, 3):
        for kind in ("text_dict", "hdf", "lm", "lm_skip"):
            yield dict(t="concat", nparts=nparts, kind=kind, mx=mx)
    for opt in ("none", "postfix", "repeat", "pad", "order"):
        yield dict(t="concatseqs", opt=opt, mx=mx)
    for kind in ("static", "hdf2", "lm_skip", "postproc_stream"):
        yield dict(t="multi", kind=kind, mx=mx + 1)


def _read_all(ds, pattern):
    out = []
    i = 0
    keys = ds.get_data_keys() if ds.is_less_than_num_seqs(0) else None
    step = {"one": 1, "two": 2, "win": 1, "all": 100}[pattern]
    while ds.is_less_than_num_seqs(i):
        j = i + 1
        while j < i + (2 if pattern == "win" else step) and ds.is_less_than_num_seqs(j):
            j += 1
        ds.load_seqs(i, j)
        if pattern == "win" and j > i + 1:
            for k in keys:
                ds.get_data(j - 1, k)
        for s in range(i, j if pattern != "win" else i + 1):
            out.append((ds.get_tag(s), {k: ds.get_data(s, k) for k in keys}))
        i = j if pattern != "win" else i + 1
    return out


def _same(a, b):
    return a.shape == b.shape and bool((a == b).all())


def _check_all(got, ref, what):
    """each delivered seq is one of ref (tag -> streams) and complete"""
    for tag, feat in got:
        expect(tag in ref, lambda: f"{what}: unknown seq {tag}")
        for k, e in ref[tag].items():
            expect(k in feat and _same(feat[k], e), lambda: f"{what}: {tag} stream {k}: got {feat.get(k)}, expected {e.tolist()}")


_part_cache = {}


def _part(kind, d, n, off, **kw):
    """:return: (spec, data keys, {tag: {key: array}})"""
    from returnn.datasets.basic import init_dataset

    if kind == "multi_epoch1":  # number of seqs not known in advance
        spec = {"class": "MultiEpochDataset", "multi_epoch": 1, "dataset": zoo.spec("hdf2", d, n, off=off, tagoff=off, **kw)}
    else:
        spec = zoo.spec(kind, d, n, off=off, tagoff=off, **kw)
    key = (kind, d, n, off)
    if key not in _part_cache:
        ds = init_dataset(dict(spec) if kw else spec)
        ds.init_seq_order(epoch=1)
        ref = _read_all(ds, "one")
        _part_cache[key] = (ds.get_data_keys(), ref)
    keys, ref = _part_cache[key]
    return spec, keys, ref


def _order_ok(order, got_tags, refs, lens, what):
    full = [t for r in refs for t, _ in r]
    if order == "default":
        expect_eq(got_tags, full, f"{what}: order")
    elif order == "reverse":
        expect_eq(got_tags, full[::-1], f"{what}: order")
    elif order == "sorted":
        ls = [lens[t] for t in got_tags]
        expect_eq(ls, sorted(ls), f"{what}: sorted lengths")
    elif order == "random_dataset":
        for r in refs:
            ts = [t for t, _ in r]
            expect_eq([t for t in got_tags if t in ts], ts, f"{what}: order within one dataset")


def _case_combined(case, ctx, d):
    from returnn.datasets.basic import init_dataset

    kinds, order = case["kinds"], case["order"]
    for sizes in itertools.product(range(1, case["mx"] + 1), repeat=len(kinds)):
        parts = [_part(k, d, n, 0 if (k == "static" and j == 0) else [0, 5, 9][j] if k != "static" else 0) for j, (k, n) in enumerate(zip(kinds, sizes))]
        if "static" in kinds:
            # tags of StaticDataset are fixed
            parts[0] = _part(kinds[0], d, sizes[0], 5)
        data_map = {}
        names = ["b", "a", "c"][: len(kinds)]  # the datasets are sorted by key
        order_parts = [p for _, p in sorted(zip(names, parts), key=lambda x: x[0])]
        ref, lens = {}, {}
        for j, (nm, (spec, keys, r)) in enumerate(zip(names, parts)):
            for k in keys:
                if k == "seq_tag":
                    continue
                data_map[nm, k] = k if j == 0 else {"data": "data", "classes": "cls_%i" % j}.get(k, k)
        if "data" not in data_map.values():
            data_map[names[0], parts[0][1][0]] = "data"
        import numpy

        for nm, (spec, keys, r) in zip(names, parts):
            for t, feat in r:
                ref[t] = {}
                for (nm_, k), out in data_map.items():
                    if nm_ == nm:
                        ref[t][out] = feat[k]
                for out in set(data_map.values()):
                    if out not in ref[t]:
                        ref[t][out] = numpy.zeros((0,))
                lens[t] = len(feat[keys[0]]) if "data" not in keys else len(feat["data"])
        all_tags = sorted(ref)
        assert len(all_tags) == sum(sizes)
        for pe in range(1, case["pe"] + 1):
            for rep in (1, 2):
                if rep > 1 and pe > 1:
                    continue
                kw = dict(seq_ordering=order)
                if pe > 1:
                    kw["partition_epoch"] = pe
                if rep > 1:
                    kw["repeat_epoch"] = rep
                for pattern in PATTERNS if pe == 2 and max(sizes) == case["mx"] else ("one",):
                    ds = init_dataset({"class": "CombinedDataset", "datasets": {nm: p[0] for nm, p in zip(names, parts)}, "data_map": data_map, **kw})
                    for full_ep in range(2):
                        cover = []
                        for sub in range(pe):
                            ep = full_ep * pe + sub + 1
                            what = f"Combined {list(kinds)} sizes {sizes} {kw} epoch {ep}, read {pattern}"
                            ds.init_seq_order(epoch=ep)
                            got = _read_all(ds, pattern)
                            _check_all(got, ref, what)
                            cover += [t for t, _ in got]
                            ctx.trans(len(got))
                        expect_eq(sorted(cover), sorted(all_tags * rep), f"{what}: all seqs of the full epoch")
                        if rep == 1 and (pe == 1 or order in ("default", "reverse", "random_dataset")):
                            _order_ok(order, cover, [p[2] for p in order_parts], lens, what)
                    ctx.trace()
                    ctx.state((kinds, order, sizes, pe, rep, pattern))
        # partition/repeat in one of the parts: joint order over what the parts deliver in this epoch
        for j, opt in itertools.product(range(len(kinds)), (dict(partition_epoch=2), dict(repeat_epoch=2))):
            if kinds[j] in ("static",) and "partition_epoch" not in opt:
                continue
            sp = [p[0] for p in parts]
            sp[j] = dict(sp[j], **opt)
            subs = [init_dataset(s) for s in sp]
            ds = init_dataset({"class": "CombinedDataset", "datasets": dict(zip(names, sp)), "data_map": data_map, "seq_ordering": order})
            for ep in (1, 2, 3):
                exp = []
                for s in subs:
                    s.init_seq_order(epoch=ep)
                    exp += [t for t, _ in _read_all(s, "one")]
                ds.init_seq_order(epoch=ep)
                what = f"Combined {list(kinds)} sizes {sizes} order {order}, part {names[j]} with {opt}, epoch {ep}"
                got = _read_all(ds, "two")
                _check_all(got, ref, what)
                expect_eq(sorted(t for t, _ in got), sorted(exp), f"{what}: seqs")
                ctx.trans(len(got))
            ctx.trace()
            ctx.state((kinds, order, sizes, j, str(opt)))


def _case_combined_dyn(case, ctx, d):
    """number of seqs is not known in advance"""
    from returnn.datasets.basic import init_dataset

    for sizes in itertools.product(range(1, case["mx"] + 1), repeat=2):
        parts = [_part("multi_epoch1", d, sizes[0], 0), _part("hdf", d, sizes[1], 5)]
        ref = {t: {"data": f["data"], "classes": f["classes"]} for p in parts for t, f in p[2]}
        dm = {(nm, k): k for nm in "ab" for k in ("data", "classes")}
        for pattern in PATTERNS:
            ds = init_dataset({"class": "CombinedDataset", "datasets": {"a": parts[0][0], "b": parts[1][0]}, "data_map": dm, "seq_ordering": case["order"]})
            for ep in (1, 2, 3):
                ds.init_seq_order(epoch=ep)
                what = f"Combined with unknown num seqs, sizes {sizes} order {case['order']} epoch {ep} read {pattern}"
                got = _read_all(ds, pattern)
                _check_all(got, ref, what)
                expect_eq(sorted(t for t, _ in got), sorted(ref), f"{what}: seqs")
                if case["order"] == "default":
                    expect(all(t in dict(parts[0][2]) for t, _ in got[: sizes[0]]), f"{what}: first the seqs of the first dataset")
                tb = [t for t, _ in parts[1][2]]
                expect_eq([t for t, _ in got if t in tb], tb, f"{what}: order within the dataset")
                ctx.trans(len(got))
            ctx.trace()
            ctx.state(("dyn", sizes, case["order"], pattern))


def _case_sampling(case, ctx, d):
    from returnn.datasets.basic import init_dataset

    for sizes in itertools.product(range(1, case["mx"] + 1), repeat=2):
        for samp in itertools.product(range(1, 6), repeat=2):
            parts = [_part("hdf", d, sizes[0], 0), _part("hdf", d, sizes[1], 5)]
            ref = {t: f for p in parts for t, f in p[2]}
            dm = {(nm, k): k for nm in "ab" for k in ("data", "classes")}
            ds = init_dataset({"class": "CombinedDataset", "datasets": {"a": parts[0][0], "b": parts[1][0]}, "data_map": dm, "sampling_sizes": {"a": samp[0], "b": samp[1]} if samp[0] != samp[1] else samp[0], "seq_ordering": case["order"]})
            for ep in range(1, 7):
                ds.init_seq_order(epoch=ep)
                what = f"Combined sizes {sizes} sampling {samp} order {case['order']} epoch {ep}"
                got = _read_all(ds, "two")
                _check_all(got, ref, what)
                tags = [t for t, _ in got]
                exp = []
                for p, n, s in zip(parts, sizes, samp):
                    exp += [p[2][i % n][0] for i in range((ep - 1) * s, ep * s)]
                if case["order"] == "default":
                    expect_eq(tags, exp, f"{what}: seqs")
                else:
                    expect_eq(sorted(tags), sorted(exp), f"{what}: seqs")
                if case["order"] == "sorted":
                    ls = [len(ref[t]["data"]) for t in tags]
                    expect_eq(ls, sorted(ls), f"{what}: lengths")
                ctx.trans(len(got))
            ctx.trace()
            ctx.state(("sampling", sizes, samp, case["order"]))


def _case_concat(case, ctx, d):
    from returnn.datasets.basic import init_dataset

    for sizes in itertools.product(range(1, case["mx"] + 1), repeat=case["nparts"]):
        parts = [_part(case["kind"], d, n, [0, 5, 9][j]) for j, n in enumerate(sizes)]
        for part_pe in (None, 2):
            if part_pe and min(sizes) < 2:
                continue
            for pattern in PATTERNS:
                specs = [dict(p[0], **({"partition_epoch": part_pe} if part_pe else {})) for p in parts]
                if case["kind"] == "lm_skip" and part_pe:
                    continue
                ds = init_dataset({"class": "ConcatDataset", "datasets": specs})
                for ep in (1, 2, 3, 3):
                    what = f"Concat {case['kind']} sizes {sizes} partition {part_pe} epoch {ep} read {pattern}"
                    exp = []
                    for s in specs:
                        q = init_dataset(s)
                        q.init_seq_order(epoch=ep)
                        exp += _read_all(q, "one")
                    ds.init_seq_order(epoch=ep)
                    try:
                        got = _read_all(ds, pattern)
                    except Exception as e:
                        raise Violation(f"{what}: {type(e).__name__}: {e}"[:500])
                    expect_eq([t for t, _ in got], [t for t, _ in exp], f"{what}: tags in order")
                    for (t, f), (_, e) in zip(got, exp):
                        expect(set(f) == set(e) and all(_same(f[k], e[k]) for k in e), lambda: f"{what}: {t}: {f}, expected {e}")
                    ctx.trans(len(got))
                ctx.trace()
                ctx.state(("concat", case["kind"], sizes, part_pe, pattern))


def _segmentations(n):
    for bits in itertools.product((0, 1), repeat=n - 1):
        cur, out = [0], []
        for i, b in enumerate(bits):
            if b:
                out.append(cur)
                cur = []
            cur.append(i + 1)
        out.append(cur)
        yield out


def _case_concatseqs(case, ctx, d):
    import numpy
    from returnn.datasets.basic import init_dataset

    opt = case["opt"]
    for n in range(1, case["mx"] + 1):
        spec, keys, r = _part("hdf", d, n, 0)
        seqs = dict(r)
        lens = {t: len(f["data"]) for t, f in r}
        lf = f"{d}/lens-{n}.py"
        open(lf, "w").write(repr(lens))
        for perm in itertools.permutations(range(n)) if n <= 3 else (tuple(range(n)), tuple(reversed(range(n)))):
            for seg in _segmentations(n):
                lists = [["seq-%i" % perm[i] for i in s] for s in seg]
                if n == 2:
                    lists = lists + [["seq-0", "seq-0"]]  # also the same seq several times
                sf = f"{d}/list.txt"
                delim = "|" if opt == "order" else ";"
                open(sf, "w").write("".join(delim.join(s) + "\n" for s in lists))
                kw = {}
                orders = ["default"]
                if opt == "postfix":
                    lasts = {int(seqs[t]["classes"][-1]) for s in lists for t in s[:-1]}
                    if len(lasts) != 1:
                        continue
                    kw["remove_in_between_postfix"] = {"classes": lasts.pop()}
                elif opt == "repeat":
                    kw["repeat_in_between_last_frame_up_to_multiple_of"] = {"data": 3}
                elif opt == "pad":
                    kw["pad_narrow_data_to_multiple_of_target_len"] = {"data": ("classes", 2)}
                elif opt == "order":
                    kw["seq_tag_delim"] = "|"
                    orders = ["reverse", "random", "sorted", "laplace:2"]
                for order, pe, pattern in itertools.product(orders, (1, 2), PATTERNS):
                    if pe == 2 and (len(lists) < 2 or opt != "order"):
                        continue
                    if opt == "order" and pattern in ("two", "win"):
                        continue
                    ds = init_dataset({"class": "ConcatSeqsDataset", "dataset": spec, "seq_list_file": sf, "seq_len_file": lf, "seq_ordering": order, **({"partition_epoch": pe} if pe > 1 else {}), **kw})
                    cover = []
                    for ep in range(1, pe + 1):
                        ds.init_seq_order(epoch=ep)
                        what = f"ConcatSeqs {lists} order {order} {kw} partition {pe} epoch {ep} read {pattern}"
                        got = _read_all(ds, pattern)
                        cover += [t for t, _ in got]
                        for t, f in got:
                            sub = t.split(delim)
                            for k in ("data", "classes"):
                                es = []
                                for j, st in enumerate(sub):
                                    e = seqs[st][k]
                                    if j < len(sub) - 1:
                                        if opt == "postfix" and k == "classes":
                                            e = e[:-1]
                                        if opt == "repeat" and k == "data":
                                            e = numpy.concatenate([e] + [e[-1:]] * (-len(e) % 3))
                                        if opt == "pad" and k == "data":
                                            m = 2 * len(seqs[st]["classes"])
                                            e = e[:m] if len(e) >= m else numpy.concatenate([e] + [e[-1:]] * (m - len(e)))
                                    es.append(e)
                                exp = numpy.concatenate(es)
                                expect(_same(f[k], exp), lambda: f"{what}: {t} {k}: {f[k].tolist()}, expected {exp.tolist()}")
                        if order == "sorted":
                            ls = [sum(lens[x] for x in t.split(delim)) for t, _ in got]
                            expect_eq(ls, sorted(ls), f"{what}: lengths")
                        ctx.trans(len(got))
                    tags = [delim.join(s) for s in lists]
                    if order == "default":
                        expect_eq(cover, tags, f"{what}: tags")
                    elif order == "reverse":
                        expect_eq(cover, tags[::-1], f"{what}: tags")
                    else:
                        expect_eq(sorted(cover), sorted(tags), f"{what}: tags")
                    ctx.trace()
                    ctx.state(("concatseqs", opt, str(lists), order, pe, pattern))


def _case_multi(case, ctx, d):
    from returnn.datasets.basic import init_dataset

    for n in range(1, case["mx"] + 1):
        for pe in (1, 2, 3):
            if pe > n or (case["kind"] in ("lm_skip",) and pe > 1):
                continue
            for order in ("default", "random", "reverse"):
                kw = dict(seq_ordering=order)
                if pe > 1:
                    kw["partition_epoch"] = pe
                spec = zoo.spec(case["kind"], d, n, **kw)
                inner = init_dataset(spec)
                for me in (1, 2, 3):
                    for pattern in PATTERNS:
                        ds = init_dataset({"class": "MultiEpochDataset", "multi_epoch": me, "dataset": spec})
                        for ep in (1, 2, 2):
                            what = f"MultiEpoch {case['kind']} n={n} {kw} multi_epoch {me} epoch {ep} read {pattern}"
                            exp = []
                            for e in range((ep - 1) * me + 1, ep * me + 1):
                                inner.init_seq_order(epoch=e)
                                exp += _read_all(inner, "one")
                            ds.init_seq_order(epoch=ep)
                            got = _read_all(ds, pattern)
                            expect_eq([t for t, _ in got], [t for t, _ in exp], f"{what}: tags in order")
                            for (t, f), (_, e) in zip(got, exp):
                                expect(set(f) == set(e) and all(_same(f[k], e[k]) for k in e), lambda: f"{what}: {t}: {f}, expected {e}")
                            if me == pe and case["kind"] != "lm_skip":
                                expect_eq(len({t for t, _ in got}), n, f"{what}: all seqs covered")
                            ctx.trans(len(got))
                        ctx.trace()
                        ctx.state(("multi", case["kind"], n, pe, order, me, pattern))


def run_case(case, ctx):
    import tempfile, shutil

    d = tempfile.mkdtemp(prefix="c08")
    try:
        globals()["_case_" + case["t"]](case, ctx, d)
        ctx.outcome("-".join(map(str, case.values())))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_vacuity(total):
    if total.transitions < 5000:
        return f"only {total.transitions} seqs read"


if __name__ == "__main__":
    harness.main(__name__)
