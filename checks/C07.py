"""C07: MetaDataset: every stream of a delivered sequence comes from that sequence (by tag), for every storage order, superset, tag mapping, ordering and read pattern; a missing sequence is refused."""
import itertools, os, json, gzip, pickle
from vlib import harness
from vlib.harness import Violation, expect, expect_eq
from vlib import ds as zoo

PID = "C07"
LEVEL = "model_checking"
RULE = (
    "case = (kind of main sub-dataset, kind of the other, ordering mode, n); run_case enumerates all storage permutations of the other sub-dataset x additional unused seqs at each position x tag mappings x read patterns,"
    " over two epochs in a row plus an epoch with a predefined list; oracle = content of the sequence with that tag in each stream; all seqs of the main dataset exactly once per full epoch;"
    " missing seqs: an exception, or only correct data; state = (kinds, mode, permutation, extra, read pattern)"
)
BOUNDS = {
    "quick": "1-4 seqs, all permutations, 4 positions of unused seqs, 8 ordering modes, 4 read patterns, tag formats equal or mapped by seq_list_file (pickle dict, txt dict, py list), 3 kinds of other sub-dataset",
    "thorough": "5 seqs",
}
ASSUMPTIONS = ["tags are unique within a sub-dataset"]
CASE_TIMEOUT = 600
MODES = ["default", "reverse", "random", "laplace:2", "sorted_file", "ctrl_default", "ctrl_random", "ctrl_sorted", "ctrl_part", "part"]


def parent_init():
    from returnn.log import log

    log.initialize(verbosity=[0])
    import returnn.datasets.hdf, returnn.datasets.meta, returnn.datasets.text_dict  # noqa


def gen_cases(tier):
    n = 4 if tier == "quick" else 5
    for ak in ("hdf2", "ogg", "text_dict", "static"):
        for bk in ("hdf", "hdf2", "ogg"):
            for m in MODES:
                for tagmap in ("same", "pkl", "txt", "list"):
                    if ak == "text_dict" and not m.startswith("ctrl_"):
                        continue  # does not support seq_list
                    if ak == "static" and m.startswith("ctrl_"):
                        continue  # not supported
                    if ak == "ogg" and m == "laplace:2":
                        continue  # seq length of "data" is needed
                    if ak in ("static", "ogg") and tagmap in ("pkl", "txt"):
                        continue
                    if tagmap != "same" and m in ("ctrl_part", "ctrl_random", "reverse"):
                        continue
                    yield dict(t="align", ak=ak, bk=bk, mode=m, tagmap=tagmap, n=n)
    for bk in ("hdf", "hdf2", "ogg"):
        yield dict(t="missing", bk=bk, n=n)


def _btag(i, tagmap):
    return "seq-%i" % i if tagmap in ("same", "list") else "other/%i" % ((i * 7) % 13)


def _mk_other(kind, d, idxs, tagmap):
    """sub-dataset with the given seqs in this storage order"""
    tag = lambda i: _btag(i, tagmap)  # noqa
    fn = f"{d}/b-{kind}-{'_'.join(map(str, idxs))}-{tagmap in ('same', 'list')}"
    if kind in ("hdf", "hdf2"):
        fns = []
        k = len(idxs) if kind == "hdf" else max(1, len(idxs) // 2)
        for j, part in enumerate([idxs[:k], idxs[k:]]):
            if not part:
                continue
            f = f"{fn}-{j}.hdf"
            if not os.path.exists(f):
                zoo.build_hdf(f, part, tag=tag)
            fns.append(f)
        return {"class": "HDFDataset", "files": fns}, "classes", lambda i: zoo.content(i)["classes"]
    vocab = {"vocab_file": zoo._vocab_file(d), "unknown_label": "[UNKNOWN]"}
    import numpy

    exp = lambda i: numpy.array([2 + i % 26] * zoo.LENS["mix"](i), dtype="int32")  # noqa
    if kind == "text_dict":
        f = fn + ".py.gz"
        if not os.path.exists(f):
            with gzip.open(f, "wt") as g:
                g.write(repr({tag(i): zoo._text(i, "mix") for i in idxs}))
        return {"class": "TextDictDataset", "filename": f, "item_format": "single", "vocab": {"class": "Vocabulary", **vocab}}, "data", exp
    if kind == "ogg":
        import zipfile

        f = fn + ".zip"
        if not os.path.exists(f):
            with zipfile.ZipFile(f, "w") as z:
                z.writestr(os.path.basename(f)[:-4] + ".txt", repr([{"text": zoo._text(i, "mix").replace(" ", ""), "duration": 1.0 + i, "seq_name": tag(i)} for i in idxs]))
        return {"class": "OggZipDataset", "path": f, "audio": None, "targets": {"class": "CharacterTargets", "seq_postfix": None, **vocab}}, "classes", exp
    raise ValueError(kind)


def _read_all(ds, pattern, what):
    """:return: list of (tag, {key: data})"""
    out = []
    keys = ds.get_data_keys()
    i = 0
    step = {"one": 1, "two": 2, "win": 1, "all": 100}[pattern]
    while ds.is_less_than_num_seqs(i):
        j = i + 1
        while j < i + (2 if pattern == "win" else step) and ds.is_less_than_num_seqs(j):
            j += 1
        ds.load_seqs(i, j)
        if pattern == "win" and j > i + 1:  # look at the later one first
            for k in keys:
                ds.get_data(j - 1, k)
        for s in range(i, j if pattern != "win" else i + 1):
            out.append((ds.get_tag(s), {k: ds.get_data(s, k) for k in keys}))
            ln = ds.get_seq_length(s)
            for k in keys:
                expect_eq(int(ln[k]), len(out[-1][1][k]), f"{what}: get_seq_length of seq {s}, key {k}")
        i = j if pattern != "win" else i + 1
    return out


def _same(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and bool((a == b).all())


def _case_align(case, ctx, d):
    from returnn.datasets.basic import init_dataset

    ak, bk, mode, tagmap = case["ak"], case["bk"], case["mode"], case["tagmap"]
    for n in range(1, case["n"] + 1):
        pe = 1
        akw, kw = {}, {}
        if mode == "ctrl_part":
            akw = dict(partition_epoch=2, seq_ordering="default")
            pe = 2
        elif mode == "ctrl_sorted":
            akw = dict(seq_ordering="sorted")
        elif mode.startswith("ctrl_"):
            akw = dict(seq_ordering=mode[5:])
        elif mode == "part":
            kw = dict(partition_epoch=2, seq_ordering="random")
            pe = 2
        elif mode == "sorted_file":
            kw = dict(seq_ordering="sorted_reverse")
        else:
            kw = dict(seq_ordering=mode)
        aspec = zoo.spec(ak, d, n, **akw)
        import numpy

        if ak in ("text_dict", "ogg"):
            aexp = lambda i: numpy.array([2 + i % 26] * zoo.LENS["mix"](i), dtype="int32")  # noqa
        else:
            aexp = lambda i: zoo.content(i)["data"]  # noqa
        lens = [zoo.LENS["mix"](i) for i in range(n)]
        for perm in itertools.permutations(range(n)):
            for extra in ([None] if n == case["n"] and tagmap != "same" else [None, 1] if n == case["n"] else [None, 0, n // 2, n]):
                idxs = list(perm)
                if extra is not None:
                    idxs.insert(extra, 11)
                bspec, bkey, bexp = _mk_other(bk, d, idxs, tagmap)
                spec = {"class": "MetaDataset", "datasets": {"a": aspec, "b": bspec}, "data_map": {"data": ("a", "classes" if ak == "ogg" else "data"), "classes": ("b", bkey), "again": ("b", bkey)}, **kw}
                if mode.startswith("ctrl_"):
                    spec["seq_order_control_dataset"] = "a"
                if mode == "sorted_file":
                    f = f"{d}/lens-{n}.json"
                    if not os.path.exists(f):
                        json.dump({"seq-%i" % i: {"data": lens[i], "classes": lens[i], "again": lens[i]} for i in range(n)}, open(f, "w"))
                    spec["seq_lens_file"] = f
                if tagmap != "same":
                    # the order of the list is the order of the main dataset (as it is the one whose corpus order counts)
                    la, lb = ["seq-%i" % i for i in range(n)], [_btag(i, tagmap) for i in range(n)]
                    if tagmap == "pkl":
                        f = f"{d}/sl-{n}.pkl"
                        pickle.dump({"a": la, "b": lb}, open(f, "wb"))
                        spec["seq_list_file"] = f
                    elif tagmap == "txt":
                        for nm, ls in (("a", la), ("b", lb)):
                            open(f"{d}/sl-{n}-{nm}.txt", "w").write("".join(x + "\n" for x in ls))
                        spec["seq_list_file"] = {nm: f"{d}/sl-{n}-{nm}.txt" for nm in "ab"}
                    else:
                        open(f"{d}/sl-{n}.txt", "w").write("".join(x + "\n" for x in la))
                        spec["seq_list_file"] = f"{d}/sl-{n}.txt"
                what0 = f"a={ak} b={bk} stored as {idxs}, {mode}, tags {tagmap}"
                for pattern in ("one", "two", "win", "all") if n > 2 and perm[0] > perm[-1] and extra is None else ("one",):
                    ds = init_dataset(spec)
                    expect_eq(ds.get_all_tags(), ["seq-%i" % i for i in range(n)], f"{what0}: all tags")
                    cover = []
                    ep = 0
                    for rnd in range(4):
                        what = f"{what0}, read pattern {pattern}, round {rnd}"
                        exp_tags = None
                        if rnd >= 2 and ak == "text_dict":
                            continue
                        if rnd == 2:
                            exp_tags = ["seq-%i" % i for i in perm]
                            ds.init_seq_order(epoch=ep + 1, seq_list=exp_tags)
                        elif rnd == 3:
                            if n < 2:
                                continue
                            exp_tags = ["seq-%i" % i for i in (n - 1, 0)]
                            ds.init_seq_order(epoch=ep + 1, seq_order=[n - 1, 0])
                        else:
                            ep += 1
                            ds.init_seq_order(epoch=ep)
                        got = _read_all(ds, pattern, what)
                        for tag, feat in got:
                            i = int(tag[4:])
                            for k, e in (("data", aexp(i)), ("classes", bexp(i)), ("again", bexp(i))):
                                expect(_same(feat[k], e), lambda: f"{what}: stream {k} of {tag} is {feat[k].tolist()}, expected {e.tolist()}; delivered {[t for t, _ in got]}")
                        tags = [t for t, _ in got]
                        if exp_tags:
                            expect_eq(tags, exp_tags, f"{what}: tags with predefined order")
                        else:
                            cover += tags
                            if ep % pe == 0:
                                expect_eq(sorted(cover[-n:] if pe == 1 else cover), sorted("seq-%i" % i for i in range(n)), f"{what}: seqs of the full epoch")
                            if mode in ("default", "ctrl_default"):
                                expect_eq(tags, ["seq-%i" % i for i in range(n)], f"{what}: order")
                            elif mode == "reverse":
                                expect_eq(tags, ["seq-%i" % i for i in range(n)][::-1], f"{what}: order")
                            elif mode in ("sorted_file", "ctrl_sorted"):
                                ls = [lens[int(t[4:])] for t in tags]
                                expect_eq(ls, sorted(ls, reverse=mode == "sorted_file"), f"{what}: lengths in sorted order")
                        ctx.trans(len(got))
                    ds.finish_epoch(free_resources=True)
                    ctx.trace()
                    ctx.state((ak, bk, mode, tagmap, tuple(idxs), pattern))


def _case_missing(case, ctx, d):
    """the other sub-dataset does not have all seqs (but maybe as many): exception, or only right data"""
    from returnn.datasets.basic import init_dataset

    for n in range(1, case["n"] + 1):
        aspec = zoo.spec("hdf2", d, n)
        for miss in range(n):
            for perm in itertools.permutations([i for i in range(n) if i != miss]):
                for nextra in (0, 1, 2):
                    idxs = list(perm) + [11, 10][:nextra]
                    if not idxs:
                        continue
                    bspec, bkey, bexp = _mk_other(case["bk"], d, idxs, "same")
                    what = f"b={case['bk']} stored as {idxs} (seq-{miss} missing)"
                    got = []
                    try:
                        ds = init_dataset({"class": "MetaDataset", "datasets": {"a": aspec, "b": bspec}, "data_map": {"data": ("a", "data"), "classes": ("b", bkey)}})
                        ds.init_seq_order(epoch=1)
                        i = 0
                        while ds.is_less_than_num_seqs(i):
                            ds.load_seqs(i, i + 1)
                            got.append((ds.get_tag(i), ds.get_data(i, "data"), ds.get_data(i, "classes")))
                            i += 1
                        raised = False
                    except Exception:
                        raised = True
                    for tag, a, b in got:
                        i = int(tag[4:])
                        expect(i != miss and _same(a, zoo.content(i)["data"]) and _same(b, bexp(i)), lambda: f"{what}: delivered {tag} with {b.tolist()}, expected {bexp(i).tolist()}")
                    expect(raised, f"{what}: no error, delivered {[t for t, _, _ in got]}")
                    ctx.trans()
                    ctx.trace()
                    ctx.state(("missing", case["bk"], tuple(idxs), n))


def run_case(case, ctx):
    import tempfile, shutil

    d = tempfile.mkdtemp(prefix="c07")
    try:
        globals()["_case_" + case["t"]](case, ctx, d)
        ctx.outcome("-".join(map(str, case.values())))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_vacuity(total):
    if total.transitions < 5000:
        return f"only {total.transitions} seqs read"


if __name__ == "__main__":
    harness.main(__name__)
