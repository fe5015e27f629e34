"""C06: what is written to HDF (SimpleHDFWriter in any batching, also extending a file, and HDFDatasetWriter from any dataset) is exactly what HDFDataset reads back; an incomplete file never appears under the final name."""
import itertools, os, shutil
from vlib import harness
from vlib.harness import Violation, expect, expect_eq

PID = "C06"
LEVEL = "model_checking"
RULE = (
    "case = (writer, kind of inputs, extra streams); run_case enumerates all length tuples x all segmentations into insert_batch calls x all positions where the file is closed and extended (or a new file is begun);"
    " oracle = the sequences which were written (tags, every stream, dtype, dims, labels), compared with HDFDataset over the files (with and without its cache, in order, by tag, by corpus index);"
    " crash cases: each step of close() interrupted; state = (streams, lengths, segmentation, extension points)"
)
BOUNDS = {
    "quick": "1-2 seqs of lengths 0-3 and 3 seqs of lengths 0-1, all segmentations, all extension points, 5 kinds of inputs x 6 sets of extra streams; dumps of datasets with 1-4 seqs with 2 streams; every interruption of close()",
    "thorough": "1-3 seqs of lengths 0-3, 4 seqs of lengths 0,1,3",
}
ASSUMPTIONS = ["batches which are inserted together have one length for their extra streams (documented restriction)", "rename within one directory is atomic"]
CASE_TIMEOUT = 600

EXTRAS = {
    "none": {},
    "classes": {"classes": ("int32", 1)},
    "two": {"classes": ("int32", 1), "align": ("float32", 2)},
    "two_rev": {"zz": ("int32", 1), "aa": ("int64", 1)},
    "scalar": {"score": ("float32", 0)},
    "three": {"m": ("float32", 0), "a": ("int32", 1), "z": ("float32", 2)},
}


def parent_init():
    from returnn.log import log

    log.initialize(verbosity=[0])
    import returnn.datasets.hdf  # noqa
    import h5py  # noqa
    from vlib import ds

    ds.sync_cache_threads()


def gen_cases(tier):
    n = 3 if tier == "quick" else 4
    ml = 2 if tier == "quick" else 3
    for kind in ("dense", "sparse", "int_dense", "raw1", "2d"):
        for ex in EXTRAS:
            for et in (False, True):
                if et and ex == "none":
                    continue
                yield dict(t="simple", kind=kind, ex=ex, et=et, n=n, ml=ml)
    for kind in ("dense", "sparse"):
        for tk in ("none", "sparse", "dense", "two"):
            yield dict(t="dump", kind=kind, tk=tk, n=4 if tier == "quick" else 5)
    yield dict(t="crash")


def _input(kind, i, ln):
    import numpy

    if kind == "dense":
        return (numpy.arange(ln * 2).reshape(ln, 2) * 0.5 + 10 * i + 0.25).astype("float32")
    if kind == "sparse":
        return ((numpy.arange(ln) * 3 + i) % 5).astype("int32")
    if kind == "int_dense":
        return (numpy.arange(ln * 2).reshape(ln, 2) + 7 * i).astype("uint8")
    if kind == "raw1":
        return (numpy.arange(ln * 1).reshape(ln, 1) * 0.1 + i).astype("float64")
    if kind == "2d":
        return (numpy.arange(ln * (i + 1) * 2).reshape(ln, i + 1, 2) * 0.5 + 100 * i).astype("float32")


def _extra(key, dtype, nd, i, ln):
    import numpy

    o = sum(map(ord, key))
    if nd == 0:
        return numpy.array(i + o * 0.5).astype(dtype)
    if nd == 1:
        return ((numpy.arange(ln) + i + o) % 7).astype(dtype)
    return (numpy.arange(ln * 3).reshape(ln, 3) + i * 0.5 + o).astype(dtype)


def _compositions(n):
    for bits in itertools.product((0, 1), repeat=n - 1):
        cur, out = [0], []
        for i, b in enumerate(bits):
            if b:
                out.append(cur)
                cur = []
            cur.append(i + 1)
        out.append(cur)
        yield out


def _read(files, cache):
    from returnn.datasets.hdf import HDFDataset

    ds = HDFDataset(files=files, cache_byte_size=cache)
    ds.initialize()
    return ds


def _check(ds, seqs, keys, dims, dtypes, what, cache, ctx):
    """seqs: list of (tag, {key: array})"""
    import numpy

    expect_eq(ds.get_all_tags(), [t for t, _ in seqs], f"{what}: all tags")
    expect_eq(ds.get_total_num_seqs(), len(seqs), f"{what}: total num seqs")
    expect_eq(set(ds.get_data_keys()), set(keys), f"{what}: data keys")
    for k in keys:
        expect_eq(str(ds.get_data_dtype(k)), dtypes[k], f"{what}: dtype of {k}")
        if dims[k] is not None:
            expect_eq(ds.get_data_dim(k), dims[k], f"{what}: dim of {k}")
        expect_eq(ds.is_data_sparse(k), "int" in dtypes[k] and all(v[k].ndim <= 1 for _, v in seqs), f"{what}: sparse {k}")
    ds.init_seq_order(epoch=1)
    expect_eq(ds.num_seqs, len(seqs), f"{what}: num seqs")
    for i, (tag, d) in enumerate(seqs):
        expect(ds.is_less_than_num_seqs(i), f"{what}: seq {i} missing")
        ds.load_seqs(i, i + 1)
        expect_eq(ds.get_tag(i), tag, f"{what}: tag of seq {i}")
        for k in keys:
            got = ds.get_data(i, k)
            exp = d[k] if d[k].ndim else d[k][None]
            expect(got.shape == exp.shape and got.dtype == exp.dtype and bool((got == exp).all()), lambda: f"{what}: seq {i} ({tag}) {k}: got {got.tolist()} {got.dtype}, expected {exp.tolist()} {exp.dtype}")
            expect_eq(int(ds.get_seq_length(i)[k]), exp.shape[0], f"{what}: seq {i} length of {k}")
            if not cache:
                g2 = ds.get_data_by_seq_tag(tag, k)
                expect(g2.shape == exp.shape and bool((g2 == exp).all()), lambda: f"{what}: {tag} by tag, {k}: {g2.tolist()}, expected {exp.tolist()}")
                g3 = ds.get_corpus_seq(i).features[k]
                expect(g3.shape == exp.shape and bool((g3 == exp).all()), lambda: f"{what}: corpus seq {i} {k}: {g3.tolist()}, expected {exp.tolist()}")
    expect(not ds.is_less_than_num_seqs(len(seqs)), f"{what}: more seqs than written")
    ctx.trans(len(seqs))


def _case_simple(case, ctx, tmp):
    import numpy
    from returnn.datasets.hdf import SimpleHDFWriter

    kind, extras = case["kind"], EXTRAS[case["ex"]]
    count = 0
    for n in range(1, case["n"] + 1):
        for lens in itertools.product((0, 1, 3)[: case["ml"]] if n == case["n"] else range(0, 4), repeat=n):
            if kind == "2d" and 0 in lens:
                continue
            seqs = []
            for i, ln in enumerate(lens):
                d = {"data": _input(kind, i, ln)}
                for k, (dt, nd) in extras.items():
                    # the first of its batch defines it below
                    d[k] = (dt, nd)
                seqs.append(("täg/%d-%s" % (i, "x" * (i * 3)), d))
            for comp in _compositions(n):
                # extras: one length per inserted batch
                for b in comp:
                    el = [1 + (lens[b[0]] % 3), 2, 3][len(extras) % 3]
                    for i in b:
                        for k, (dt, nd) in extras.items():
                            seqs[i][1][k] = _extra(k, dt, nd, i, el + (2 if k < "b" else 0))
                for brk in range(len(comp)):  # after brk batches: close, then extend (brk=0: no break)
                    for newfile in (False, True):
                        if newfile and not brk:
                            continue
                        count += 1
                        what = f"{kind} extras {list(extras)} lens {lens} batches {comp} {'new file' if newfile else 'extend'} after {brk}"
                        files = [f"{tmp}/a{count}.hdf"]
                        kw = dict(dim={"dense": 2, "sparse": 5, "int_dense": 2, "raw1": 1, "2d": 2}[kind], ndim={"sparse": 1, "2d": 3}.get(kind, 2))
                        if kind == "sparse":
                            kw["labels"] = list("vwxyz")
                        if case["et"]:
                            kw["extra_type"] = {k: (3 if nd == 2 else 7 if nd == 1 else 1, nd, dt) for k, (dt, nd) in extras.items()}
                            if "classes" in extras:
                                kw["extra_labels"] = {"classes": list("abcdefg")}
                        try:
                            w = SimpleHDFWriter(files[0], **kw)
                            for bi, b in enumerate(comp):
                                if bi and bi == brk:
                                    w.close()
                                    if newfile:
                                        files.append(f"{tmp}/b{count}.hdf")
                                        w = SimpleHDFWriter(files[-1], **kw)
                                    else:
                                        w = SimpleHDFWriter(files[0], extend_existing_file=True, **kw)
                                ds_ = [seqs[i][1]["data"] for i in b]
                                mx = [max(x.shape[a] for x in ds_) for a in range(2 if kind == "2d" else 1)]
                                inp = numpy.full([len(b)] + mx + list(ds_[0].shape[len(mx) :]), 99, dtype=ds_[0].dtype)
                                for j, x in enumerate(ds_):
                                    inp[(j,) + tuple(slice(0, s) for s in x.shape)] = x
                                sl = {a: [x.shape[a] for x in ds_] for a in range(len(mx))}
                                w.insert_batch(inp, seq_len=sl if kind == "2d" else sl[0], seq_tag=[seqs[i][0] for i in b], extra={k: numpy.stack([seqs[i][1][k] for i in b]) for k in extras} or None)
                            expect(not os.path.exists(files[-1]) or (brk and not newfile), f"{what}: file exists before close")
                            w.close()
                        except Violation:
                            raise
                        except Exception as e:
                            raise Violation(f"{what}: writing fails: {type(e).__name__}: {e}"[:900])
                        exp = []
                        for tag, d in seqs:
                            d = dict(d)
                            if kind == "2d":
                                d["sizes"] = numpy.array(d["data"].shape[:2], dtype="int32")
                                d["data"] = d["data"].reshape(-1, 2)
                            exp.append((tag, d))
                        keys = ["data"] + list(extras) + (["sizes"] if kind == "2d" else [])
                        dims = {k: None for k in keys}
                        dims["data"] = kw["dim"]
                        for k, (dt, nd) in extras.items():
                            if nd == 2:
                                dims[k] = 3
                            elif nd == 1 and case["et"]:
                                dims[k] = 7
                        dtypes = {k: str(exp[0][1][k].dtype) for k in keys}
                        for cache in (0,) if kind == "2d" or "score" in extras or len(extras) > 1 or (count % 4) else (0, 10**6):
                            try:
                                ds = _read(files, cache)
                                if kind == "sparse":
                                    expect_eq(list(ds.labels.get("data", [])), list("vwxyz"), f"{what}: labels")
                                if case["et"] and "classes" in extras:
                                    expect_eq(list(ds.labels["classes"]), list("abcdefg"), f"{what}: labels of classes")
                                _check(ds, exp, keys, dims, dtypes, what, cache, ctx)
                            except Violation:
                                raise
                            except Exception as e:
                                raise Violation(f"{what}: reading fails: {type(e).__name__}: {e}"[:900])
                            del ds
                        for f in files:
                            os.remove(f)
                        ctx.trace()
                        ctx.state((kind, case["ex"], lens, str(comp), brk, newfile))


def _case_dump(case, ctx, tmp):
    import numpy
    from returnn.datasets.basic import init_dataset
    from returnn.datasets.hdf import HDFDatasetWriter

    kind, tk = case["kind"], case["tk"]
    count = 0
    for n in range(1, case["n"] + 1):
        for lens in itertools.product((0, 1, 3), repeat=n):
            if n == case["n"] and sum(lens) % 2:
                continue
            if not sum(lens):
                continue  # nothing at all
            data = []
            for i, ln in enumerate(lens):
                d = {"data": _input(kind, i, ln)}
                if tk in ("sparse", "two"):
                    d["classes"] = ((numpy.arange((ln + i) % 3 + 1) + i) % 4).astype("int32")
                if tk in ("dense", "two"):
                    d["other"] = (numpy.arange(3 * ((ln + 2 * i) % 4)).reshape(-1, 3) + i).astype("float32")
                data.append(d)
            od = {"data": (2, 2) if kind == "dense" else (5, 1)}
            if tk in ("sparse", "two"):
                od["classes"] = (4, 1)
            if tk in ("dense", "two"):
                od["other"] = (3, 2)
            if tk != "none" and not any(sum(len(d[k]) for d in data) for k in od if k != "data"):
                continue
            for order in ("default", "reverse"):
                for start in range(0, n):
                    if sum(lens[::-1][start:] if order == "reverse" else lens[start:]) == 0:
                        continue
                    count += 1
                    what = f"dump {kind}+{tk} lens {lens} order {order} start {start}"
                    ds = init_dataset({"class": "StaticDataset", "data": data, "output_dim": od, "seq_ordering": order})
                    fn = f"{tmp}/d{count}.hdf"
                    try:
                        w = HDFDatasetWriter(fn)
                        w.dump_from_dataset(ds, start_seq=start, use_progress_bar=False)
                        w.close()
                    except Exception as e:
                        raise Violation(f"{what}: dump fails: {type(e).__name__}: {e}"[:900])
                    idx = (list(range(n))[::-1] if order == "reverse" else list(range(n)))[start:]
                    exp = [("seq-%d" % i, {k: data[i][k] for k in od}) for i in idx]
                    keys = [k for k in od]
                    for cache in (0, 10**6) if tk == "sparse" and count % 5 == 0 else (0,):
                        try:
                            r = _read([fn], cache)
                            _check(r, exp, keys, {k: v[0] for k, v in od.items()}, {k: str(data[0][k].dtype) for k in od}, what, cache, ctx)
                        except Violation:
                            raise
                        except Exception as e:
                            raise Violation(f"{what}: reading fails: {type(e).__name__}: {e}"[:900])
                    os.remove(fn)
                    ctx.trace()
                    ctx.state(("dump", kind, tk, lens, order, start))


def _case_crash(case, ctx, tmp):
    """the process is killed at each file operation of the writer: under the final name, there is the old complete file or the new complete one"""
    import numpy
    from vlib import vos
    from returnn.datasets.hdf import SimpleHDFWriter, HDFDataset

    class Kill(BaseException):
        pass

    for extend in (False, True):
        k = 0
        while True:
            fn = f"{tmp}/c{extend}{k}.hdf"
            old = [("a", _input("dense", 0, 2))]
            new = [("b", _input("dense", 1, 3))]

            def write(seqs, **kw):
                w = SimpleHDFWriter(fn, dim=2, **kw)
                for t, x in seqs:
                    w.insert_batch(x[None], seq_len=[len(x)], seq_tag=[t])
                w.close()

            if extend:
                write(old)
            ops = []
            real = {}

            def wrap(mod, name):
                f = getattr(mod, name)
                real[mod, name] = f

                def g(*a, **kw):
                    ops.append(name)
                    if len(ops) == k + 1:
                        raise Kill
                    if name in ("copyfile", "copy2"):
                        # killed in between: only half of it is there
                        ops.append(name + "-half")
                        if len(ops) == k + 1:
                            data = open(a[0], "rb").read()
                            with open(a[1], "wb") as ff:
                                ff.write(data[: len(data) // 2])
                            raise Kill
                    else:
                        ops.append(name + "-done")
                        if len(ops) == k + 1:
                            f(*a, **kw)
                            raise Kill
                    return f(*a, **kw)

                setattr(mod, name, g)

            for mod, names in ((shutil, ["copyfile", "move", "copy2"]), (os, ["rename", "replace", "remove", "link", "symlink"])):
                for nm in names:
                    wrap(mod, nm)
            killed = False
            try:
                write(new, extend_existing_file=extend)
            except Kill:
                killed = True
            finally:
                for (mod, nm), f in real.items():
                    setattr(mod, nm, f)
            full = (old if extend else []) + new
            if os.path.exists(fn):
                try:
                    ds = _read([fn], 0)
                    got = ds.get_all_tags()
                    ds.init_seq_order(1)
                    vals = [ds.get_data(i, "data") for i in range(len(got))]
                except Exception as e:
                    raise Violation(f"extend={extend}: killed at {ops[-1:]} (op {len(ops)}): unreadable file under the final name: {type(e).__name__}: {e}"[:600])
                opts = [[t for t, _ in full]] + ([[t for t, _ in old]] if extend and killed else [])
                expect(got in opts, f"extend={extend}: killed at {ops[-1:]}: file has seqs {got}")
                for v, (t, x) in zip(vals, full):
                    expect(v.shape == x.shape and bool((v == x).all()), f"extend={extend}: wrong content of {t} after kill at {ops[-1:]}")
            else:
                expect(killed and not extend, f"extend={extend}: file missing, killed={killed} at {ops[-1:]}")
            ctx.trans()
            ctx.trace()
            ctx.state(("crash", extend, tuple(ops)))
            if not killed:
                break
            k += 1
            if k > 50:
                raise harness.HarnessError("too many ops")


def run_case(case, ctx):
    import tempfile

    tmp = tempfile.mkdtemp(prefix="c06")
    old = tempfile.tempdir
    tempfile.tempdir = tmp
    try:
        globals()["_case_" + case["t"]](case, ctx, tmp)
        ctx.outcome(case["t"] + case.get("kind", "") + case.get("ex", "") + case.get("tk", ""))
    finally:
        tempfile.tempdir = old
        shutil.rmtree(tmp, ignore_errors=True)


def check_vacuity(total):
    if total.transitions < 5000:
        return f"only {total.transitions} seqs read"


if __name__ == "__main__":
    harness.main(__name__)
