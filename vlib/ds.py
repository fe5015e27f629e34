"""
Zoo of small concrete datasets, built through the public RETURNN dataset API (init_dataset with a config dict).

Sequence i of n has tag ``tag(i)`` and content which identifies (i, t), for every data key.
"""

from __future__ import annotations
import os, json, gzip, pickle, zipfile
import numpy

LENS = {"inc": lambda i: i + 1, "mix": lambda i: [3, 1, 2, 3, 1, 4, 2, 5, 1, 2, 3, 1][i % 12], "dec": lambda i: 7 - i % 7}


def content(i, lens="mix", off=0):
    n = LENS[lens](i)
    return {
        "data": numpy.array([[100.0 * (i + off) + t, -(100.0 * (i + off) + t)] for t in range(n)], dtype="float32"),
        "classes": numpy.array([10 * (i + off) + t for t in range(n)], dtype="int32"),
    }


def build_hdf(fn, idxs, *, tag=lambda i: "seq-%i" % i, lens="mix", off=0, order=None):
    from returnn.datasets.hdf import SimpleHDFWriter

    w = SimpleHDFWriter(fn, dim=2, ndim=2, extra_type={"classes": (1000, 1, "int32")})
    for i in idxs:
        c = content(i, lens, off)
        w.insert_batch(
            c["data"][None],
            seq_len=[len(c["data"])],
            seq_tag=[tag(i)],
            extra={"classes": c["classes"][None]},
        )
    w.close()


WORDS = "abcdefghijklmnopqrstuvwxyz"


def _text(i, lens):
    return " ".join([WORDS[i % 26]] * LENS[lens](i))


def _vocab_file(d):
    fn = d + "/vocab.pkl"
    if not os.path.exists(fn):
        v = {w: i + 2 for i, w in enumerate(WORDS)}
        v["[END]"] = 0
        v["[UNKNOWN]"] = 1
        with open(fn, "wb") as f:
            pickle.dump(v, f)
    return fn


def spec(kind, d, n, lens="mix", off=0, tagoff=0, **kw):
    """:return: dataset dict for the given kind with n seqs; files in directory d"""
    tag = lambda i: "seq-%i" % (i + tagoff)  # noqa
    key = "%s-%i-%s-%i-%i" % (kind, n, lens, off, tagoff)
    if kind == "static":
        return dict({"class": "StaticDataset", "data": [content(i, lens, off) for i in range(n)], "output_dim": {"classes": (1000, 1), "data": (2, 2)}}, **kw)
    if kind in ("hdf", "hdf2"):
        fns = []
        k = max(1, (n + 1) // 2) if kind == "hdf2" else n
        for j, part in enumerate([range(0, k), range(k, n)]):
            if not len(part):
                continue
            fn = f"{d}/{key}-{j}.hdf"
            if not os.path.exists(fn):
                build_hdf(fn, part, tag=tag, lens=lens, off=off)
            fns.append(fn)
        return dict({"class": "HDFDataset", "files": fns}, **kw)
    if kind == "hdf_cache":  # everything fits in the cache
        return dict(spec("hdf", d, n, lens, off, tagoff), cache_byte_size=1 << 20, **kw)
    if kind == "hdf_cache_small":
        return dict(spec("hdf", d, n, lens, off, tagoff), cache_byte_size=200, **kw)
    if kind == "map":
        return dict({"class": "MapDatasetWrapper", "map_dataset": _MapDs(n, lens, off)}, **kw)
    if kind == "from_list":
        return dict({"class": "MapDatasetWrapper", "map_dataset": _FromList(n, lens, off)}, **kw)
    if kind.startswith("gen_"):
        return dict({"num_seqs": n}, **GEN[kind], **kw)
    if kind == "lm":
        fn = f"{d}/{key}.txt"
        if not os.path.exists(fn):
            open(fn, "w").write("".join(_text(i + off, lens) + "\n" for i in range(n)))
        return dict(
            {
                "class": "LmDataset",
                "corpus_file": fn,
                "orth_vocab": {"class": "Vocabulary", "vocab_file": _vocab_file(d), "unknown_label": "[UNKNOWN]"},
            },
            **kw,
        )
    if kind == "lm_skip":  # every 3rd line has an unknown symbol and is skipped
        fn = f"{d}/{key}.txt"
        if not os.path.exists(fn):
            open(fn, "w").write("".join(_text(i + off, lens) + (" ???" if i % 3 == 1 else "") + "\n" for i in range(n)))
            open(fn + ".voc", "w").write("".join("%s %i\n" % (w, i) for i, w in enumerate(WORDS)))
        return dict(
            {
                "class": "LmDataset",
                "corpus_file": fn,
                "orth_symbols_map_file": fn + ".voc",
                "word_based": True,
                "seq_end_symbol": None,
                "unknown_symbol": None,
                "error_on_invalid_seq": False,
            },
            **kw,
        )
    if kind == "text_dict":
        fn = f"{d}/{key}.py.gz"
        if not os.path.exists(fn):
            with gzip.open(fn, "wt") as f:
                f.write(repr({tag(i): _text(i + off, lens) for i in range(n)}))
        return dict(
            {
                "class": "TextDictDataset",
                "filename": fn,
                "item_format": "single",
                "vocab": {"class": "Vocabulary", "vocab_file": _vocab_file(d), "unknown_label": "[UNKNOWN]"},
            },
            **kw,
        )
    if kind == "ogg":
        fn = f"{d}/{key}.zip"
        name = os.path.basename(fn)[:-4]
        if not os.path.exists(fn):
            with zipfile.ZipFile(fn, "w") as z:
                z.writestr(
                    name + ".txt",
                    repr(
                        [
                            {"text": _text(i + off, lens).replace(" ", ""), "duration": float(LENS[lens](i)), "seq_name": tag(i)}
                            for i in range(n)
                        ]
                    ),
                )
        return dict(
            {
                "class": "OggZipDataset",
                "path": fn,
                "audio": None,
                "targets": {"class": "CharacterTargets", "vocab_file": _vocab_file(d), "seq_postfix": None, "unknown_label": "[UNKNOWN]"},
            },
            **kw,
        )
    if kind == "translation":
        dd = f"{d}/{key}"
        if not os.path.exists(dd):
            os.mkdir(dd)
            open(dd + "/source.t", "w").write("".join(_text(i + off, lens) + "\n" for i in range(n)))
            open(dd + "/target.t", "w").write("".join(_text(i + off + 1, lens) + "\n" for i in range(n)))
            for s in ["source", "target"]:
                pickle.dump({**{w: i + 1 for i, w in enumerate(WORDS)}, "</S>": 0}, open(f"{dd}/{s}.vocab.pkl", "wb"))
        return dict({"class": "TranslationDataset", "path": dd, "file_postfix": "t"}, **kw)
    if kind == "meta":  # order by MetaDataset itself
        return dict(
            {
                "class": "MetaDataset",
                "datasets": {"a": spec("hdf2", d, n, lens, off), "b": _perm_hdf(d, n, lens, off)},
                "data_map": {"data": ("a", "data"), "classes": ("b", "classes")},
            },
            **kw,
        )
    if kind == "meta_ctrl":  # order by the control dataset. options go there
        return {
            "class": "MetaDataset",
            "datasets": {"a": spec("hdf2", d, n, lens, off, **kw), "b": _perm_hdf(d, n, lens, off)},
            "data_map": {"data": ("a", "data"), "classes": ("b", "classes")},
            "seq_order_control_dataset": "a",
        }
    if kind == "combined":
        k = max(1, n // 2)
        return dict(
            {
                "class": "CombinedDataset",
                "datasets": {"a": spec("hdf", d, k, lens, off), "b": spec("hdf", d, n - k, lens, off + 50, tagoff=50)},
                "data_map": {("a", "data"): "data", ("a", "classes"): "classes", ("b", "data"): "data", ("b", "classes"): "classes"},
            },
            **kw,
        )
    if kind == "concat":
        k = max(1, n // 2)
        return dict({"class": "ConcatDataset", "datasets": [spec("text_dict", d, k, lens, off), spec("text_dict", d, n - k, lens, off + k, tagoff=50)]}, **kw)
    if kind == "multi_epoch":
        return dict({"class": "MultiEpochDataset", "multi_epoch": 2, "dataset": spec("static", d, n, lens, off, **kw)})
    if kind == "variable":
        return {"class": "VariableDataset", "get_dataset": _GetDs(d, n, lens, off, kw)}
    if kind == "postproc":
        return {"class": "PostprocessingDataset", "dataset": spec("hdf2", d, n, lens, off, **kw), "map_seq": _map_seq_id}
    if kind == "postproc_stream":
        return {
            "class": "PostprocessingDataset",
            "dataset": spec("static", d, n, lens, off, **kw),
            "map_seq_stream": _laplace(),
        }
    raise ValueError(kind)


class _SyncThread:
    def __init__(self, target, args=(), **_kw):
        self.target, self.args = target, args

    def start(self):
        self.target(*self.args)


class _SyncThreading:
    Thread = _SyncThread


def sync_cache_threads():
    """the preload thread of the HDF cache: the schedule where it runs to completion when started"""
    import returnn.datasets.cached as cached_mod

    cached_mod.threading = _SyncThreading


def _map_seq_id(seq, **_kwargs):
    return seq


def _laplace():
    from returnn.datasets.postprocessing import LaplaceOrdering

    return LaplaceOrdering(num_seqs_per_bin=2)


def _GetDs(d, n, lens, off, kw):
    def get_dataset(*, epoch, **_kwargs):
        return spec("hdf", d, n, lens, off + 10 * (epoch % 3), **kw)

    return get_dataset


def _perm_hdf(d, n, lens, off):
    """same tags, other order in the file"""
    fn = f"{d}/perm-{n}-{lens}-{off}.hdf"
    if not os.path.exists(fn):
        build_hdf(fn, [(i * 5 + 2) % n if _coprime(5, n) else n - 1 - i for i in range(n)], lens=lens, off=off)
    return {"class": "HDFDataset", "files": [fn]}


def _coprime(a, b):
    import math

    return math.gcd(a, b) == 1


def _mk_map_base():
    from returnn.datasets.map import MapDatasetBase
    return MapDatasetBase


GEN = {
    "gen_12ax": {"class": "Task12AXDataset"},
    "gen_episodic": {"class": "TaskEpisodicCopyDataset"},
    "gen_xml": {"class": "TaskXmlModelingDataset"},
    "gen_assign": {"class": "TaskVariableAssignmentDataset"},
    "gen_base": {"class": "TaskNumberBaseConvertDataset"},
    "gen_copy": {"class": "CopyTaskDataset", "nsymbols": 5, "minlen": 1, "maxlen": 4, "minlen_epoch_factor": 1, "maxlen_epoch_factor": 2},
    "gen_dummy": {"class": "DummyDataset", "input_dim": 3, "output_dim": 4, "seq_len": 3},
    "gen_dummy_lens": {"class": "DummyDatasetMultipleSequenceLength", "input_dim": 3, "output_dim": 4, "seq_len": {"data": 4, "classes": 3}},
    "gen_dummy_keys": {"class": "DummyDatasetMultipleDataKeys", "output_dim": {"data": (3, 2), "classes": (7, 1)}, "seq_len": {"data": 4, "classes": 3}},
    "gen_generic": {
        "class": "DummyGenericDataset",
        "data_template": {"data": {"dim": 3, "shape": (None, 3)}, "classes": {"dim": 7, "sparse": True, "shape": (None,)}},
        "seq_lens": {"data": (1, 4), "classes": (1, 3)},
    },
}


def _FromList(n, lens, off):
    from returnn.datasets.map import FromListDataset

    return FromListDataset(
        [content(i, lens, off) for i in range(n)],
        sort_data_key="data",
        data_types={"data": {"shape": (None, 2), "dim": 2}, "classes": {"sparse": True, "dim": 1000, "shape": (None,)}},
    )


def _MapDs(n, lens, off):
    return _get_map_cls()(n, lens, off)


_map_cls = None


def _get_map_cls():
    global _map_cls
    if _map_cls is None:
        base = _mk_map_base()

        class MapDs(base):
            def __init__(self, n, lens, off):
                super().__init__(data_types={"data": {"shape": (None, 2), "dim": 2}, "classes": {"sparse": True, "dim": 1000, "shape": (None,)}})
                self.args = (n, lens, off)

            def __len__(self):
                return self.args[0]

            def __getitem__(self, i):
                return content(i, self.args[1], self.args[2])

            def get_seq_len(self, i):
                return LENS[self.args[1]](i)

            def __reduce__(self):
                return _MapDs, self.args

        MapDs.__module__ = "vlib.ds"
        _map_cls = MapDs
    return _map_cls


def read_epoch(ds, *, step=1, max_seqs=1000):
    """:return: list of (tag, {key: (shape, dtype, bytes)}) for the current epoch, in order"""
    res = []
    i = 0
    while ds.is_less_than_num_seqs(i):
        ds.load_seqs(i, i + step)
        for j in range(i, i + step):
            if not ds.is_less_than_num_seqs(j):
                break
            res.append(read_seq(ds, j))
        i += step
        assert i < max_seqs
    return res


def read_seq(ds, j):
    feat = {}
    for k in sorted(ds.get_data_keys()):
        x = ds.get_data(j, k)
        feat[k] = canon(x)
    return (ds.get_tag(j), tuple(sorted(feat.items())))


def canon(x):
    x = numpy.asarray(x)
    if x.dtype.kind in "OUS" or x.dtype.kind == "T":
        return (x.shape, repr(x.tolist()))
    return (x.shape, str(x.dtype), repr(x.tolist()) if x.size < 50 else x.tobytes())


def truth(kind, tag, n, lens="mix"):
    """:return: dict key -> nested list: what was stored under this tag (off=0), for the kinds where this is static"""
    i = int(tag.split("-")[-1])
    off = 0
    k = max(1, n // 2)
    if kind in ("combined", "concat") and i >= 50:
        i, off = i - 50, 50 if kind == "combined" else k
    if kind in ("lm", "text_dict", "concat", "ogg", "translation", "lm_skip"):
        j = i + off
        ln = LENS[lens](j)
        if kind == "lm_skip":
            assert i % 3 != 1, "invalid seq not skipped"
            return {"data": [j % 26] * ln}
        if kind == "ogg":
            return {"classes": [j % 26 + 2] * ln, "orth": [ord(WORDS[j % 26])] * ln}
        if kind == "translation":
            return {"data": [j % 26 + 1] * ln, "classes": [(j + 1) % 26 + 1] * LENS[lens](j + 1)}
        return {"data": [j % 26 + 2] * ln}
    return {kk: v.tolist() for kk, v in content(i, lens, off).items()}
