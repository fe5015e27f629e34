"""C10: DistributeFilesDataset: every file exactly once per full epoch over all sub-epochs and shards, no empty sub-epoch, same data for every schedule of the workers and every history."""
import itertools, os
from vlib import harness, vos, vmp
from vlib.harness import Violation, expect, expect_eq

PID = "C10"
LEVEL = "model_checking"
RULE = (
    "case = (files: all size tuples | schedules and histories); files are real files of the given sizes; the sub dataset has one or two seqs per file which identify it;"
    " distribution: all size tuples x partition_epoch x shards x ordering, union over shards and sub-epochs = all files exactly once, in order for default ordering, all sub-epochs non-empty, balanced, the data order within is that of the sub-dataset for the full epoch;"
    " schedules: real parent and worker code as virtual processes, all schedules up to the preemption bound, oracle = fresh instance reading just that epoch; state = (case, schedule)"
)
BOUNDS = {
    "quick": "1-5 files with sizes in {0,2,5,20} (1-4 with all sizes, 5 with 3 sizes), all partition_epoch x shards that fit, 2 full epochs; schedules: <=1 deviation (<=2 small), preload 0-2, buffer 1-2, 8 histories",
    "thorough": "up to 6 files; <=2 deviations (<=3 small)",
}
ASSUMPTIONS = ["processes and pipes are virtual (stand-ins for multiprocessing of the spawn context)", "pipe buffers are unbounded"]
CASE_TIMEOUT = 800

SIZES = (0, 2, 5, 20)
HIST = {
    "seq3": [("i", 1), ("all",), ("i", 2), ("all",), ("i", 3), ("all",)],
    "fin": [("i", 1), ("all",), ("f", False), ("i", 2), ("all",), ("f", False), ("i", 3), ("all",)],
    "early": [("i", 1), ("n", 1), ("i", 2), ("n", 1), ("i", 3), ("all",)],
    "free": [("i", 1), ("n", 1), ("f", True), ("i", 1), ("all",), ("f", True), ("i", 2), ("all",)],
    "same": [("i", 2), ("n", 2), ("i", 2), ("all",), ("i", 2), ("all",)],
    "back": [("i", 3), ("all",), ("i", 1), ("all",), ("i", 3), ("all",)],
    "jump": [("i", 1), ("n", 1), ("i", 5), ("all",), ("i", 2), ("all",)],
    "win": [("i", 1), ("win",), ("i", 2), ("win",)],
    "finback": [("i", 2), ("all",), ("f", False), ("i", 2), ("all",), ("f", False), ("i", 1), ("all",)],
    "none": [("i", None), ("i", 1), ("all",), ("i", None), ("i", 2), ("all",)],
}


def parent_init():
    from returnn.log import log

    log.initialize(verbosity=[0])
    import returnn.datasets.hdf, returnn.datasets.meta, returnn.datasets.distrib_files, returnn.datasets.multi_proc, returnn.datasets.map  # noqa

    vmp.install()


def _mk_files():
    if os.path.exists(_dir() + "/done"):
        return
    os.makedirs(_dir(), exist_ok=True)
    for i in range(6):
        for s in SIZES:
            with open(f"{_dir()}/f{i}_{s}", "wb") as f:
                f.truncate(s)
    open(_dir() + "/done", "w").close()


def _dir():
    return os.environ.get("TMPDIR", "/tmp") + "/c10files"


def gen_cases(tier):
    q = tier == "quick"
    x = 0 if q else 1
    mx = 5 if q else 6
    for order in ("default", "random"):
        for M in range(1, mx + 1):
            for first in SIZES:
                if M <= 3 and first != SIZES[0]:
                    continue
                for pe in range(1, M + 1):
                    for sh in range(1, M // pe + 1):
                        if M >= 5 and q and (order == "random" or first == 2) and (pe, sh) not in ((3, 1), (2, 2)):
                            continue
                        yield dict(t="dist", order=order, M=M, first=first, pe=pe, sh=sh, sub="default" if (pe + sh) % 2 else "random", tree=M == 3)
    for order in ("default", "random"):
        for h in HIST:
            for M, pe, pre, buf in ((3, 2, 1, 1), (2, 1, 0, 1), (4, 2, 2, 2), (2, 2, 1, 2), (3, 3, 0, 1)):
                if h == "win" and buf == 1:
                    continue
                if q and order == "random" and (M, pe) != (4, 2) and h not in ("seq3", "jump"):
                    continue
                yield dict(t="hist", order=order, h=h, M=M, pe=pe, pre=pre, buf=buf, p=(2 if (M, pe) == (2, 1) and order == "default" and h in ("seq3", "early", "fin") else 1) + x)
    for nw in (2, 3):
        yield dict(t="nested", nw=nw, M=6, pe=2, pre=1, p=0 if q else 1)


_rec = []  # files of the get_sub_epoch_dataset calls


def _leaves(t):
    return [t] if isinstance(t, str) else [x for s in (t.values() if isinstance(t, dict) else t) for x in _leaves(s)]


def _fidx(t):
    return int(os.path.basename(_leaves(t)[0])[1:].split("_")[0])


def _seqs_of_file(i):
    return [(i, j) for j in range(1 + i % 2)]


def _get_sub_default(files):
    return _get_sub(files, "default")


def _get_sub_random(files):
    return _get_sub(files, "random")


def _get_sub(files, order):
    import numpy

    _rec.append([_fidx(f) for f in files])
    return {
        "class": "StaticDataset",
        "data": [{"data": numpy.array([i, j], dtype="int32")} for f in files for i, j in _seqs_of_file(_fidx(f))],
        "output_dim": {"data": (100, 1)},
        "seq_ordering": order,
    }


def _files(sizes, as_tree):
    fs = [f"{_dir()}/f{i}_{s}" for i, s in enumerate(sizes)]
    if as_tree:  # nested structure, second leaf
        fs = [f if i % 2 else {"a": f, "b": (f"{_dir()}/f{i}_0",)} for i, f in enumerate(fs)]
    return fs


def _spec(sizes, order, sub, pe, **kw):
    return dict(
        {"class": "DistributeFilesDataset", "files": _files(sizes, kw.pop("tree", False)), "get_sub_epoch_dataset": _get_sub_default if sub == "default" else _get_sub_random, "seq_ordering": order, "partition_epoch": pe}, **kw
    )


def _read(ds):
    res = []
    i = 0
    while ds.is_less_than_num_seqs(i):
        ds.load_seqs(i, i + 1)
        res.append(tuple(ds.get_data(i, "data").tolist()))
        i += 1
    return res


def _run_free(f):
    """run f as the main process, default schedule"""
    res = []

    def make(w):
        def main():
            res.append(f())
            w.exited = True

        w.spawn(w.proc("M"), "M", main)

    def check(w):
        if w.child_errors:
            name, exc = w.child_errors[0]
            raise Violation(f"worker fails: {type(exc).__name__}: {exc}"[:900])
        if w.run_error is not None:
            raise Violation(f"{type(w.run_error).__name__}: {w.run_error}"[:900])
        if w.actors[0].exc is not None:
            raise w.actors[0].exc

    vos.explore(make, check, max_preempt=0, max_steps=100000)
    return res[0]


def run_case(case, ctx):
    _mk_files()
    globals()["_case_" + case["t"]](case, ctx)


def _case_dist(case, ctx):
    from returnn.datasets.basic import init_dataset

    M, pe, sh = case["M"], case["pe"], case["sh"]
    sizes_alt = SIZES if M <= 4 else SIZES[1:]
    for rest in itertools.product(sizes_alt, repeat=M - 1):
        for first in [case["first"]] if M > 3 else SIZES:
            sizes = (first,) + rest
            what = f"sizes {sizes} partition_epoch {pe} shards {sh} {case['order']}"

            def main():
                res = {}
                for shard in range(sh):
                    ds = init_dataset(_spec(sizes, case["order"], case["sub"], pe, preload_next_n_sub_epochs=0, tree=case["tree"], **(dict(_num_shards=sh, _shard_index=shard) if sh > 1 else {})))
                    for ep in range(1, (2 if case["order"] == "random" else 1) * pe + 1):
                        _rec.clear()
                        ds.init_seq_order(epoch=ep)
                        expect_eq(len(_rec), 1, f"{what}: get_sub_epoch_dataset calls")
                        num = ds.num_seqs
                        data = _read(ds)
                        expect_eq(num, len(data), f"{what}: num_seqs")
                        res[(shard, ep)] = data, list(_rec[0])
                    ds.finish_epoch(free_resources=True)
                return res

            try:
                res = _run_free(main)
            except Violation:
                raise
            except Exception as exc:
                raise Violation(f"{what}: {type(exc).__name__}: {exc}"[:900])
            for fe in range(2 if case["order"] == "random" else 1):
                order = []
                bins = []
                for shard in range(sh):
                    for p in range(pe):
                        data, files = res[(shard, fe * pe + p + 1)]
                        expect(files, f"{what}: sub-epoch {fe * pe + p + 1} shard {shard} is empty")
                        order += files
                        bins.append(sum(sizes[i] for i in files))
                        exp = [s for f in files for s in _seqs_of_file(f)]
                        if case["sub"] == "default":
                            expect_eq(data, exp, f"{what}: data of sub-epoch")
                        else:
                            ref = init_dataset(dict(_get_sub([f"/x/f{i}_1" for i in files], "random")))
                            ref.init_seq_order(epoch=fe + 1)
                            expect_eq(data, _read(ref), f"{what}: data order of sub-epoch, full epoch {fe + 1}")
                            expect_eq(sorted(data), sorted(exp), f"{what}: data of sub-epoch")
                expect_eq(sorted(order), list(range(M)), f"{what} full epoch {fe + 1}: files over all sub-epochs and shards")
                if case["order"] == "default":
                    expect_eq(order, list(range(M)), f"{what}: file order")
                # balanced: no sub-epoch is larger than the average by more than 2 files
                nb = sh * pe
                expect(max(bins) <= sum(sizes) / nb + 2 * max(sizes), f"{what}: sizes of the sub-epochs {bins}")
                if len(set(sizes)) == 1 and sizes[0]:
                    ls = [len(res[(s, fe * pe + p + 1)][1]) for s in range(sh) for p in range(pe)]
                    expect(max(ls) - min(ls) <= 1, f"{what}: files per sub-epoch {ls} for equal file sizes")
                ctx.state((M, pe, sh, sizes, case["order"], fe))
                ctx.trans(nb)
                ctx.trace()
    ctx.outcome(f"dist {M} {pe} {sh} {case['order']}")


def _apply(ds, hist, ref):
    obs = []
    ep, pos = None, 0
    for op in hist:
        k = op[0]
        if k == "i":
            ep, pos = op[1], 0
            ds.init_seq_order(epoch=ep)
            if ep is None:
                expect(not ds.is_less_than_num_seqs(0), "epoch None: has seqs")
        elif k == "f":
            ds.finish_epoch(free_resources=op[1])
        else:
            cnt = op[1] if k == "n" else 10**6
            got = []
            while cnt and ds.is_less_than_num_seqs(pos):
                end = pos + 2 if k == "win" and ds.is_less_than_num_seqs(pos + 1) else pos + 1
                ds.load_seqs(pos, end)
                got.append((ds.get_tag(pos), ds.get_data(pos, "data").tolist()))
                if end > pos + 1:
                    expect_eq(ds.get_data(end - 1, "data").tolist(), ref[ep][end - 1][1], "second seq of the window")
                pos += 1
                cnt -= 1
            exp = ref[ep] if k != "n" else ref[ep][: op[1]]
            expect_eq(got, exp, f"epoch {ep} in history {hist}")
    return obs


def _explore(case, spec, ref, hist, ctx, what):
    from returnn.datasets.basic import init_dataset

    def make(w):
        def main():
            ds = init_dataset(spec)
            _apply(ds, hist, ref)
            ds.__del__()
            w.exited = True

        w.spawn(w.proc("M"), "M", main)

    def check(w):
        wh = f"{what}; schedule {w.choices}"
        a = w.actors[0]
        if w.child_errors:
            name, exc = w.child_errors[0]
            raise Violation(f"{wh}: worker fails: {type(exc).__name__}: {exc}"[:900])
        if w.run_error is not None:
            raise Violation(f"{wh}: {type(w.run_error).__name__}: {w.run_error}"[:900])
        if isinstance(a.exc, Violation):
            raise Violation(f"{wh}: {a.exc}"[:1500])
        if a.exc is not None:
            import traceback

            tb = traceback.extract_tb(a.exc.__traceback__)[-1]
            raise Violation(f"{wh}: {type(a.exc).__name__}: {a.exc} at {tb.filename.split('/')[-1]}:{tb.name}"[:900])
        expect(getattr(w, "exited", False), f"{wh}: does not terminate")
        expect(all(x.state == "done" for x in w.actors[1:]), f"{wh}: worker still running after exit")
        ctx.trans(w.steps)
        ctx.trace()
        ctx.state((what, tuple(w.choices)))

    vos.explore(make, check, max_preempt=case["p"], max_steps=6000)
    ctx.outcome(what)


def _case_hist(case, ctx):
    from returnn.datasets.basic import init_dataset

    hist = HIST[case["h"]]
    sizes = [2, 5, 2, 20, 5][: case["M"]]
    spec = _spec(sizes, case["order"], "random", case["pe"])

    def one(ep):
        ds = init_dataset(dict(spec, preload_next_n_sub_epochs=0))
        ds.init_seq_order(epoch=ep)
        res = []
        while ds.is_less_than_num_seqs(len(res)):
            i = len(res)
            ds.load_seqs(i, i + 1)
            res.append((ds.get_tag(i), ds.get_data(i, "data").tolist()))
        ds.finish_epoch(free_resources=True)
        return res

    ref = {op[1]: _run_free(lambda: one(op[1])) for op in hist if op[0] == "i" and op[1]}
    _explore(case, dict(spec, preload_next_n_sub_epochs=case["pre"], buffer_size=case["buf"]), ref, hist, ctx, f"{case}")


def _case_nested(case, ctx):
    """MultiProcDataset with dedicated shards over DistributeFilesDataset: all data exactly once per full epoch"""
    from returnn.datasets.basic import init_dataset

    for sizes in itertools.product((2, 20), repeat=case["M"]):
        if sum(s == 2 for s in sizes) not in (1, 3, 6):
            continue
        spec = _spec(sizes, "random", "default", case["pe"], preload_next_n_sub_epochs=case["pre"])

        def main():
            ds = init_dataset({"class": "MultiProcDataset", "dataset": spec, "num_workers": case["nw"], "buffer_size": 1, "sharding_method": "dedicated"})
            res = []
            for ep in range(1, case["pe"] + 1):
                ds.init_seq_order(epoch=ep)
                n0 = len(res)
                res += _read(ds)
                expect_eq(ds.num_seqs, len(res) - n0, f"{case} sizes {sizes}: num_seqs")
            ds.__del__()
            return res

        res = _run_free(main)
        expect_eq(sorted(res), sorted(s for i in range(case["M"]) for s in _seqs_of_file(i)), f"{case} sizes {sizes}: data of the full epoch")
        ctx.state(("nested", case["nw"], sizes))
        ctx.trans()
        ctx.trace()


if __name__ == "__main__":
    harness.main(__name__)
