"""C03: the view of the loaded sequences is independent of the load pattern, and all dataset metadata agrees with the data."""
import os, itertools, math
import numpy
from vlib import harness
from vlib.harness import Violation, expect, expect_eq
from vlib import ds as zoo

PID = "C03"
LEVEL = "model_checking"
RULE = (
    "case = (dataset kind, options, cache size); inside: every monotone sequence of load windows over n seqs (with"
    " look-ahead queries between them) is executed on the real dataset and every loaded seq compared with the"
    " one-by-one reference; then all metadata accessors are compared with the data; state = (kind, options, window trace)"
)
BOUNDS = {
    "quick": "17 kinds x 2 option sets, n=4 seqs, all monotone window sequences with window size <=3; HDF cache sizes {0, 1kB, 1MB}; random access orders for HDF; stored content by tag for 4 option sets x 3 epochs",
    "thorough": "n=5 seqs, window size <=4, 4 option sets",
}
ASSUMPTIONS = ["windows start nondecreasing (the contract of load_seqs for streaming datasets) except for random-access datasets"]
KINDS = "static hdf hdf2 map lm text_dict ogg translation meta meta_ctrl combined concat multi_epoch variable postproc postproc_stream lm_skip from_list".split() + sorted(zoo.GEN)
OPTS = [dict(seq_ordering="random"), dict(seq_ordering="default"), dict(seq_ordering="sorted", partition_epoch=2), dict(seq_ordering="laplace:.2")]


def _traces(n, w):
    """all sequences of windows (s,e), s nondecreasing, progressing to the end, every seq covered by some window; windows may overlap"""

    def rec(s, covered):
        if covered >= n:
            yield []
            return
        for s2 in range(s, covered + 1):
            for e2 in range(max(s2 + 1, covered + 1), min(n, s2 + w) + 1):
                for r in rec(s2, e2):
                    yield [(s2, e2)] + r

    return list(rec(0, 0))


def gen_cases(tier):
    q = tier == "quick"
    n, w = (4, 3) if q else (5, 4)
    for kind in KINDS:
        for oi in range(2 if q else len(OPTS)):
            if kind == "concat" and oi != 1 or kind in zoo.GEN and "laplace" in OPTS[oi].get("seq_ordering", ""):
                continue
            if kind == "translation":
                yield dict(t="win", kind=kind, oi=oi, n=n, w=2, part=0, parts=1, max=12)
            else:
                for part in range(4):
                    yield dict(t="win", kind=kind, oi=oi, n=n, w=w, part=part, parts=4, max=10**9)
            yield dict(t="meta", kind=kind, oi=oi, n=n + 2)
        if kind != "variable" and kind not in zoo.GEN:
            for oi in range(len(OPTS)):
                if kind == "concat" and oi != 1 or kind == "translation" and oi == 2:
                    continue
                yield dict(t="truth", kind=kind, oi=oi, n=n + 3)
    for oi in range(len(OPTS)):
        for cache in [0, 200, 10**6]:
            for kind in ["hdf", "hdf2"]:
                if cache and "partition_epoch" in OPTS[oi]:
                    continue
                for part in range(4):
                    yield dict(t="hdfcache", kind=kind, oi=oi, cache=cache, n=n, part=part, parts=4)
    for oi in range(2 if q else len(OPTS)):
        if oi != 2:
            for part in range(4):
                yield dict(t="race", kind="translation", oi=oi, n=3, part=part, parts=4)
    for a in range(5):
        yield dict(t="frac", a=a, n=12 if q else 40)


def _mk(kind, oi, n, **kw):
    from returnn.datasets.basic import init_dataset

    d = os.environ["TMPDIR"] + "/zoo"
    os.makedirs(d, exist_ok=True)
    return init_dataset(zoo.spec(kind, d, n, **{**(OPTS[oi] if kind != "concat" else {}), **kw}))


def run_case(case, ctx):
    globals()["_case_" + case["t"]](case, ctx)


def _case_win(case, ctx):
    kind, oi = case["kind"], case["oi"]
    ref_ds = _mk(kind, oi, case["n"])
    ref_ds.init_seq_order(epoch=1)
    ref = zoo.read_epoch(ref_ds)
    n = len(ref)
    ds = _mk(kind, oi, case["n"])
    for tr in _traces(n, case["w"])[case["part"] :: case["parts"]][: case["max"]]:
        for look in (0, 1, 2):
            ds.init_seq_order(epoch=1)
            hi = 0
            for s, e in tr:
                if look:
                    # look-ahead queries, as done by the batch construction
                    expect_eq(bool(ds.is_less_than_num_seqs(s)), True, f"{case} {tr}: is_less_than_num_seqs({s})")
                    if look == 2:
                        for j in (e - 1, e):
                            expect_eq(bool(ds.is_less_than_num_seqs(j)), j < n, f"{case} {tr}: is_less_than_num_seqs({j})")
                ds.load_seqs(s, e)
                hi = max(hi, e)
                ctx.trans()
                for j in range(s, e):
                    expect_eq(zoo.read_seq(ds, j), ref[j], f"{case} windows {tr} at {(s, e)}: seq {j}")
                    for k, v in ref[j][1]:
                        if v[0] and kind not in ("combined",):
                            expect_eq(int(ds.get_seq_length(j)[k]), v[0][0], f"{case} {tr}: get_seq_length({j})[{k!r}]")
            expect(not ds.is_less_than_num_seqs(n), f"{case} {tr}: has more seqs than {n}")
            expect_eq(ds.num_seqs, n, f"{case} {tr}: num_seqs")
            ctx.state((kind, oi, tuple(tr), look))
            ctx.trace()
    ctx.outcome((kind, oi, repr(ref)))


def _case_truth(case, ctx):
    """every delivered seq has exactly the content which was stored under its tag"""
    kind, oi, n = case["kind"], case["oi"], case["n"]
    ds = _mk(kind, oi, n)
    for epoch in (1, 2, 3):
        ds.init_seq_order(epoch=epoch)
        j = 0
        while ds.is_less_than_num_seqs(j):
            ds.load_seqs(j, j + 1)
            tag = ds.get_tag(j)
            exp = zoo.truth(kind, tag, n)
            for k, v in exp.items():
                expect_eq(ds.get_data(j, k).tolist(), v, f"{case} epoch {epoch} seq {j} tag {tag} key {k}: content")
            ctx.trans()
            ctx.state((kind, oi, epoch, tag))
            j += 1
        expect(j > 0, f"{case}: empty epoch")
        ctx.trace()


def _case_race(case, ctx):
    """
    Background reader thread of TranslationDataset: it is stopped before each of its executed lines in turn
    (and goes on when the main thread waits for it); all queries of the main thread have the same result.
    """
    import threading, time, sys, types
    import returnn.datasets.lm as lm

    class Paused:
        def __init__(self, k):
            self.k, self.count = k, 0
            self.reached, self.resume = threading.Event(), threading.Event()
            self.thread = None

        def trace(self, frame, event, arg):
            if not frame.f_code.co_filename.endswith("/datasets/lm.py"):
                return None
            if event == "line":
                if self.count == self.k:
                    self.reached.set()
                    self.resume.wait()
                self.count += 1
            return self.trace

        def go_on(self):
            self.resume.set()
            if self.thread is not None and self.thread is not threading.current_thread():
                self.thread.join(20)

    orig = threading.Thread, threading.Lock, time.sleep

    def run(k, ops):
        P = Paused(k)
        main = threading.get_ident()

        class Thread(orig[0]):
            def start(self):
                super().start()
                P.thread = self
                P.reached.wait(20)

            def run(self):
                sys.settrace(P.trace)
                try:
                    super().run()
                finally:
                    sys.settrace(None)
                    P.reached.set()

        class Lock:
            def __init__(self):
                self.l = orig[1]()

            def acquire(self, blocking=True, timeout=-1):
                if not blocking or timeout != -1:
                    return self.l.acquire(blocking, timeout)
                if threading.get_ident() == main and P.thread is not None:
                    if self.l.acquire(False):
                        return True
                    P.go_on()
                return self.l.acquire()

            def release(self):
                self.l.release()

            __enter__ = acquire

            def __exit__(self, *a):
                self.release()

        proxy = types.ModuleType("threading")
        proxy.__dict__.update(threading.__dict__)
        proxy.Thread, proxy.Lock = Thread, Lock
        old_global = lm.__dict__.get("threading")
        sys.modules["threading"] = proxy
        if old_global is not None:
            lm.threading = proxy
        time.sleep = lambda s: P.go_on() if threading.get_ident() == main else orig[2](s)
        try:
            ds = _mk("translation", case["oi"], case["n"])
        except BaseException:
            time.sleep = orig[2]
            raise
        finally:
            sys.modules["threading"] = threading
            if old_global is not None:
                lm.threading = threading
        try:
            res = []
            for op in ops:
                ctx.trans()
                if op == "init":
                    ds.init_seq_order(epoch=2)
                elif op == "tags":
                    res.append(list(ds.get_all_tags()))
                elif op == "order":
                    ds.init_seq_order(epoch=1, seq_list=["line-%i" % i for i in reversed(range(case["n"]))])
                elif op == "read":
                    res.append(zoo.read_epoch(ds))
                elif op == "last":
                    ds.load_seqs(ds.num_seqs - 1, ds.num_seqs)
                    res.append({kk: ds.get_data(ds.num_seqs - 1, kk).tolist() for kk in sorted(ds.get_data_keys())})
        finally:
            time.sleep = orig[2]
            P.go_on()
        return repr(res), P.count

    for ops in (["tags", "init", "read"], ["init", "tags", "last"], ["init", "read", "tags"], ["order", "read"], ["order", "last", "tags"]):
        ref, count = run(10**9, ops)
        for k in range(case["part"], count + 1, case["parts"]):
            res, _ = run(k, ops)
            expect_eq(res, ref, f"{case} calls {ops} with the reader thread stopped before its line number {k}")
            ctx.state(("race", case["oi"], tuple(ops), k))
            ctx.trace()


def _case_meta(case, ctx):
    from returnn.util.basic import OptionalNotImplementedError

    NI = (NotImplementedError, OptionalNotImplementedError)
    kind, oi, n = case["kind"], case["oi"], case["n"]
    ds = _mk(kind, oi, n)
    for epoch in (1, 2):
        ds.init_seq_order(epoch=epoch)
        try:
            order = list(ds.get_current_seq_order()) if kind != "lm_skip" else None  # order before skipping
        except Exception:  # not supported by this dataset (various exception types)
            order = None
        try:
            all_tags = list(ds.get_all_tags())
        except NI:
            all_tags = None
        try:
            total = ds.get_total_num_seqs()
        except NI:
            total = None
        if all_tags is not None and total is not None:
            expect_eq(len(all_tags), total, f"{case}: get_all_tags vs get_total_num_seqs")
        keys = sorted(ds.get_data_keys())
        gen_dtype = set()
        fr_prev = 0.0
        j = 0
        tags = []
        ds2 = _mk(kind, oi, n)
        ds2.init_seq_order(epoch=epoch)
        while ds.is_less_than_num_seqs(j):
            ds.load_seqs(j, j + 1)
            ctx.trans()
            tag = ds.get_tag(j)
            tags.append(tag)
            for k in keys:
                x = ds.get_data(j, k)
                what = f"{case} epoch {epoch} seq {j} key {k!r}"
                if kind in zoo.GEN and x.dtype.kind in "if" and str(x.dtype) != str(ds.get_data_dtype(k)) and x.dtype.kind == numpy.dtype(ds.get_data_dtype(k)).kind:
                    gen_dtype.add((k, str(x.dtype), str(ds.get_data_dtype(k))))  # known finding, reported at the end
                    x = x.astype(ds.get_data_dtype(k))
                expect_eq(str(x.dtype), str(ds.get_data_dtype(k)) if x.dtype.kind not in "OUS" else str(x.dtype), what + ": dtype")
                shape = ds.get_data_shape(k)
                has_dim = bool(ds.get_data_dim(k))
                if kind not in ("combined",):
                    if ds.is_data_sparse(k):
                        expect(x.dtype.kind in "iu", what + ": sparse but not int")
                        if x.size:
                            expect(0 <= x.min() and x.max() < ds.get_data_dim(k), what + f": label out of range {x} dim {ds.get_data_dim(k)}")
                    elif has_dim and x.ndim > 1:
                        expect_eq(x.shape[-1], ds.get_data_dim(k), what + ": feature dim")
                    if x.ndim >= 1 and shape is not None:
                        expect_eq(list(x.shape[1:]), [int(s) if s is not None else x.shape[1 + i] for i, s in enumerate(shape)], what + ": get_data_shape")
            if order is not None:
                cidx = int(order[j])
                if ds.have_corpus_seq_idx():
                    expect_eq(int(ds.get_corpus_seq_idx(j)), cidx, f"{case}: get_corpus_seq_idx({j}) vs get_current_seq_order")
                if all_tags is not None:
                    expect_eq(all_tags[cidx], tag, f"{case}: tag of seq {j} vs get_all_tags[order]")
            elif all_tags is not None:
                expect(tag in all_tags, f"{case}: tag {tag} not in get_all_tags")
            try:
                hc = ds2.have_get_corpus_seq()
            except NI:
                hc = False
            if hc and order is not None:
                s = ds2.get_corpus_seq(int(order[j]))
                expect_eq(s.seq_tag, tag, f"{case}: get_corpus_seq tag")
                for k in keys:
                    expect_eq(zoo.canon(s.get_data(k)), zoo.canon(ds.get_data(j, k)), f"{case}: get_corpus_seq data {k}")
            fr = ds.get_complete_frac(j)
            if fr is not None:
                expect(0.0 < fr <= 1.0 and fr >= fr_prev, f"{case}: get_complete_frac({j}) = {fr} after {fr_prev}")
                fr_prev = fr
            j += 1
        expect_eq(ds.num_seqs, j, f"{case}: num_seqs")
        if order is not None:
            expect_eq(len(order), j, f"{case}: len of current seq order")
        if kind not in ("variable", "multi_epoch", "postproc_stream", "lm_skip"):  # those do not know num_seqs in advance
            expect(fr_prev == 1.0, f"{case}: complete frac at the end is {fr_prev}")
        ctx.state((kind, oi, epoch))
        ctx.outcome((kind, oi, epoch, tuple(tags)))
        ctx.trace()
    ctx.sample({"case": case, "keys": keys, "last epoch tags": tags})
    expect(not gen_dtype, f"{case}: key, dtype delivered, get_data_dtype: {sorted(gen_dtype)}", key="generating-dtype-width")


def _case_hdfcache(case, ctx):
    kind, oi, cache, n = case["kind"], case["oi"], case["cache"], case["n"]
    ref_ds = _mk(kind, oi, n)
    ref_ds.init_seq_order(epoch=1)
    ref = zoo.read_epoch(ref_ds)
    m = len(ref)
    ds = _mk(kind, oi, n, cache_byte_size=cache)
    # the preload thread of the cache: the schedule where it runs to completion when started
    zoo.sync_cache_threads()
    # random access: any order of windows, including going backwards
    wins = [(s, e) for s in range(m) for e in range(s + 1, m + 1)]
    trs = list(itertools.product(wins, repeat=2)) + [[w] for w in wins]
    for tr in trs[case["part"] :: case["parts"]]:
        ds.init_seq_order(epoch=1)
        for s, e in tr:
            ds.load_seqs(s, e)
            ctx.trans()
            for j in range(s, e):
                expect_eq(zoo.read_seq(ds, j), ref[j], f"{case} windows {tr}: seq {j}")
        ctx.state((kind, oi, cache, tuple(tr)))
        ctx.trace()
    ctx.outcome((kind, oi, repr(ref)))


def _case_frac(case, ctx):
    """complete frac as function of (seq idx, num seqs): in (0,1], strictly monotone, 1 at the end"""
    from returnn.datasets.basic import Dataset

    for num in range(1, case["n"] + 1):
        prev = 0.0
        for i in range(num):
            f = Dataset.generic_complete_frac(i, num)
            expect(0.0 < f <= 1.0 and f > prev, f"generic_complete_frac({i}, {num}) = {f}, previous {prev}")
            prev = f
            ctx.trans()
            ctx.state(("frac", num, i))
        expect_eq(prev, 1.0, f"generic_complete_frac at the end of {num}")
    ctx.trace()


if __name__ == "__main__":
    harness.main(__name__)
