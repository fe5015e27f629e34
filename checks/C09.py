"""C09: MultiProcDataset delivers exactly what the wrapped dataset delivers, for every schedule of the worker processes and every history of calls."""
import itertools, os
from vlib import harness, vos, vmp
from vlib.harness import Violation, expect, expect_eq
from vlib import ds as zoo

PID = "C09"
LEVEL = "model_checking"
RULE = (
    "case = (sharding method, wrapped dataset, workers, buffer, history of calls); all schedules of parent and worker processes up to the preemption bound are executed on the real code"
    " (virtual processes; every pipe operation, process start and join is a scheduling point; all data crossing processes is pickled);"
    " oracle = the wrapped dataset used directly with the same calls; also: no worker fails, no deadlock; state = (case, schedule)"
)
BOUNDS = {
    "quick": "1-3 workers, buffer 1-3, 9 histories over 1-5 seqs and 2-3 epochs, 4 kinds of wrapped datasets, 2 sharding methods; all schedules with <=1 deviation (<=2 for the small configurations)",
    "thorough": "<=2 deviations everywhere, <=3 for the small configurations",
}
ASSUMPTIONS = ["processes and pipes are virtual (stand-ins for multiprocessing of the spawn context)", "pipe buffers are unbounded"]
CASE_TIMEOUT = 800

HIST = {
    "full2": [("i", 1), ("all",), ("i", 2), ("all",)],
    "early": [("i", 1), ("n", 1), ("i", 2), ("all",)],
    "early3": [("i", 1), ("n", 3), ("i", 1), ("all",)],
    "finish": [("i", 1), ("all",), ("f", False), ("i", 2), ("all",)],
    "free": [("i", 1), ("n", 2), ("f", True), ("i", 2), ("all",), ("f", True)],
    "query": [("i", 1), ("q",), ("n", 1), ("q",), ("all",), ("q",), ("i", 3), ("all",)],
    "window": [("i", 2), ("win",), ("i", 3), ("two",)],
    "list": [("i", 1), ("n", 1), ("sl",), ("all",), ("so",), ("all",), ("i", 2), ("all",)],
    "reinit": [("i", 1), ("i", 2), ("i", 3), ("all",), ("i", 3), ("all",)],
}


def parent_init():
    from returnn.log import log

    log.initialize(verbosity=[0])
    import returnn.datasets.hdf, returnn.datasets.meta, returnn.datasets.text_dict, returnn.datasets.multi_proc, returnn.datasets.map, returnn.datasets.audio, returnn.datasets.postprocessing  # noqa

    vmp.install()
    os.makedirs(_dir(), exist_ok=True)


def _dir():
    return os.environ.get("TMPDIR", "/tmp") + "/c09zoo"


def gen_cases(tier):
    x = 0 if tier == "quick" else 1
    for method in ("seq_order", "dedicated"):
        for kind, kw in (
            ("hdf2", dict(seq_ordering="random", partition_epoch=2)),
            ("hdf2", dict(seq_ordering="default")),
            ("map", dict(seq_ordering="random")),
            ("ogg", dict(seq_ordering="random")),
            ("meta_ctrl", dict(seq_ordering="default")),
        ):
            if kind in ("meta_ctrl", "map") and method == "dedicated":
                continue  # no sharding support
            main = kind == "hdf2" and "partition_epoch" not in kw
            for h in HIST:
                if h == "list" and (method == "dedicated" or kind == "map"):
                    continue
                if not main and tier == "quick" and h in ("early3", "reinit", "finish"):
                    continue
                for nw, bs, n in ((1, 1, 4), (2, 1, 1), (2, 1, 5), (2, 3, 4), (3, 2, 4)):
                    if "partition_epoch" in kw and n < 4:
                        continue
                    if not main and tier == "quick" and (nw, bs) not in ((2, 1), (3, 2)):
                        continue
                    if not main and tier == "quick" and (nw, bs) == (3, 2) and h not in ("early", "free"):
                        continue
                    p = 1
                    if main and n == 1 and h in ("full2", "early"):
                        p = 2
                    parts = 8 if p + x > 1 else 2 if nw > 1 and n > 1 else 1
                    for part in range(parts):
                        yield dict(method=method, kind=kind, kw=kw, h=h, nw=nw, bs=bs, n=n, p=p + x, part=part, parts=parts)


def _apply(ds, hist, n, has_tags=True):
    """:return: list of observations"""
    obs = []
    epn = None
    for op in hist:
        k = op[0]
        if k == "i":
            ds.init_seq_order(epoch=op[1])
            pos = 0
        elif k == "sl":
            ds.init_seq_order(epoch=1, seq_list=["seq-%i" % i for i in reversed(range(n))])
            pos = 0
        elif k == "so":
            ds.init_seq_order(epoch=1, seq_order=[n - 1, 0])
            pos = 0
        elif k in ("n", "all", "win", "two"):
            cnt = op[1] if k == "n" else 10**6
            while cnt and ds.is_less_than_num_seqs(pos):
                end = pos + 1
                if k in ("win", "two") and ds.is_less_than_num_seqs(pos + 1):
                    end = pos + 2
                ds.load_seqs(pos, end)
                for s in range(pos, end if k == "two" else pos + 1):
                    obs.append(("seq", ds.get_tag(s), {key: ds.get_data(s, key).tolist() for key in sorted(ds.get_data_keys())}))
                pos = end if k == "two" else pos + 1
                cnt -= 1
            if k == "all":
                obs.append(("num", pos))
                if ds._num_seqs is not None:
                    pass
        elif k == "f":
            ds.finish_epoch(free_resources=op[1])
        elif k == "q":
            obs.append(("tags", list(ds.get_all_tags()) if has_tags else None, ds.get_total_num_seqs() if has_tags else None, {key: str(ds.get_data_dtype(key)) for key in sorted(ds.get_data_keys())}))
        else:
            raise ValueError(op)
    return obs


def run_case(case, ctx):
    from returnn.datasets.basic import init_dataset

    d = f"{_dir()}/{os.getpid()}"
    os.makedirs(d, exist_ok=True)
    spec = zoo.spec(case["kind"], d, case["n"], **case["kw"])
    hist = HIST[case["h"]]
    has_tags = case["kind"] not in ("map",)
    if case["method"] == "seq_order":
        ref = _apply(init_dataset(spec), hist, case["n"], has_tags)
    else:
        # round-robin over the shards
        ref = _apply(_RoundRobin([init_dataset(dict(spec, _num_shards=case["nw"], _shard_index=i)) for i in range(case["nw"])]), hist, case["n"], has_tags)
        if "all" in [o[0] for o in hist] and not case["kw"].get("partition_epoch"):
            direct = _apply(init_dataset(spec), [("i", 1), ("all",)], case["n"])
            rr = _apply(_RoundRobin([init_dataset(dict(spec, _num_shards=case["nw"], _shard_index=i)) for i in range(case["nw"])]), [("i", 1), ("all",)], case["n"])
            expect_eq(sorted(map(str, rr)), sorted(map(str, direct)), f"{case}: the shards together are not the whole dataset")

    def make(w):
        w.obs = None

        def main():
            ds = init_dataset({"class": "MultiProcDataset", "dataset": spec, "num_workers": case["nw"], "buffer_size": case["bs"], "sharding_method": case["method"]})
            w.obs = _apply(ds, hist, case["n"], has_tags)
            w.finished = True
            ds.__del__()
            w.exited = True

        w.spawn(w.proc("M"), "M", main)

    def check(w):
        what = f"{case['method']} {case['kind']} {case['kw']} n={case['n']} workers={case['nw']} buffer={case['bs']} history {hist}; schedule {w.choices}"
        a = w.actors[0]
        if w.child_errors:
            name, exc = w.child_errors[0]
            raise Violation(f"{what}: worker fails: {type(exc).__name__}: {exc}"[:900])
        if w.run_error is not None:
            raise Violation(f"{what}: {type(w.run_error).__name__}: {w.run_error}"[:900])
        if a.exc is not None:
            import traceback

            tb = traceback.extract_tb(a.exc.__traceback__)[-1]
            raise Violation(f"{what}: {type(a.exc).__name__}: {a.exc} at {tb.filename.split('/')[-1]}:{tb.name}"[:900])
        if w.obs != ref:
            for i, (x, y) in enumerate(itertools.zip_longest(w.obs, ref)):
                if x != y:
                    raise Violation(f"{what}: observation {i}: got {x}, expected {y}"[:1200])
        expect(getattr(w, "exited", False), f"{what}: does not terminate")
        expect(all(x.state == "done" for x in w.actors[1:]), f"{what}: worker still running after exit")
        ctx.trans(w.steps)
        ctx.trace()
        ctx.state((case["method"], case["kind"], str(case["kw"]), case["n"], case["nw"], case["bs"], case["h"], tuple(w.choices)))

    vos.explore(make, check, max_preempt=case["p"], max_steps=3000, part=case["part"], parts=case["parts"])
    ctx.outcome(f"{case['method']} {case['kind']} {case['h']} {case['n']}")


class _RoundRobin:
    """oracle for dedicated sharding: seq i is seq i // num of shard i % num; shards have equal sizes up to one here"""

    def __init__(self, shards):
        self.shards = shards
        self._num_seqs = None

    def init_seq_order(self, **kw):
        for s in self.shards:
            s.init_seq_order(**kw)

    def _l(self, i):
        return self.shards[i % len(self.shards)], i // len(self.shards)

    def is_less_than_num_seqs(self, i):
        s, j = self._l(i)
        return s.is_less_than_num_seqs(j)

    def load_seqs(self, a, b):
        for i in range(a, b):
            s, j = self._l(i)
            lo = min((k for k in range(a, b) if k % len(self.shards) == i % len(self.shards))) // len(self.shards)
            s.load_seqs(lo, j + 1)

    def get_tag(self, i):
        s, j = self._l(i)
        return s.get_tag(j)

    def get_data(self, i, k):
        s, j = self._l(i)
        return s.get_data(j, k)

    def get_data_keys(self):
        return self.shards[0].get_data_keys()

    def get_all_tags(self):
        return self.shards[0].get_all_tags()

    def get_total_num_seqs(self):
        return self.shards[0].get_total_num_seqs()

    def get_data_dtype(self, k):
        return self.shards[0].get_data_dtype(k)

    def finish_epoch(self, **kw):
        for s in self.shards:
            s.finish_epoch(**kw)


def check_vacuity(total):
    if total.traces < 2000:
        return f"only {total.traces} executions"


if __name__ == "__main__":
    harness.main(__name__)
