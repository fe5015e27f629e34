"""C02: what a dataset delivers in an epoch depends only on its options and the epoch, not on the history of calls."""
import os, itertools, copy, pickle
from vlib import harness
from vlib.harness import Violation, expect, expect_eq
from vlib import ds as zoo

PID = "C02"
LEVEL = "model_checking"
RULE = (
    "one case = (dataset kind, options, first op); inside: all operation histories up to the depth bound over the op"
    " alphabet, each on a fresh instance, followed by init_seq_order(e) + full read, compared to a fresh instance;"
    " state = (kind, options, sequence of observable dataset contents); distinct outcome = distinct epoch content"
)
BOUNDS = {
    "quick": "19 dataset kinds x 3 option sets, histories of length <=3 over 13 ops (init e1/e2/e3/None, seq_list, seq_order, partial load, full load, windowed load, metadata queries, finish_epoch, deepcopy, pickle)",
    "thorough": "same with history length <=4",
}
ASSUMPTIONS = ["histories only contain calls in the documented protocol order (data is loaded only in an initialised epoch)"]

KINDS = "static hdf hdf2 map lm text_dict ogg translation meta meta_ctrl combined concat multi_epoch variable postproc postproc_stream lm_skip hdf_cache hdf_cache_small from_list".split() + sorted(zoo.GEN)
OPTS = [
    dict(seq_ordering="random", partition_epoch=2),
    dict(seq_ordering="laplace:2"),
    dict(seq_ordering="default", partition_epoch=3),
]
N = 5
OPS = ["i1", "i2", "i3", "iN", "sl", "so", "l1", "l3", "all", "q", "f", "ff", "dc", "pk"]
NO_SEQ_LIST = {"multi_epoch", "variable", "postproc", "postproc_stream", "static"}  # see _supports
NO_COPY = {"translation"}  # reader thread


def gen_cases(tier):
    depth = 3 if tier == "quick" else 4
    for kind in KINDS:
        for oi in range(len(OPTS)):
            if kind == "concat" and oi != 2:
                continue
            if kind in zoo.GEN and oi == 1:  # no lens
                continue
            if kind in ("hdf_cache", "hdf_cache_small", "lm_skip") and "partition_epoch" in OPTS[oi]:
                continue
            yield dict(kind=kind, oi=oi, depth=depth, first=None)
            for op in OPS:
                if kind == "translation" and oi == 1:
                    continue
                yield dict(kind=kind, oi=oi, depth=depth - SLOW.get(kind, 0), first=op)


SLOW = {"translation": 2, "multi_epoch": 1, "variable": 1, "hdf_cache": 1, "hdf_cache_small": 1, "from_list": 1, **{k: 1 for k in zoo.GEN}}


def _mk(kind, oi):
    from returnn.datasets.basic import init_dataset

    d = os.environ["TMPDIR"] + "/zoo"
    os.makedirs(d, exist_ok=True)
    kw = dict(OPTS[oi]) if kind != "concat" else {}
    return init_dataset(zoo.spec(kind, d, N, **kw))


_ref = {}
_sup = {}


def _fresh(kind, oi, what):
    k = (kind, oi, what)
    if k not in _ref:
        x = _mk("hdf" if kind.startswith("hdf_cache") else kind, oi)
        _do_init(x, kind, what)
        _ref[k] = zoo.read_epoch(x)
    return _ref[k]


TAGS = {}


def _tags(kind):
    if kind not in TAGS:
        x = _mk("hdf" if kind.startswith("hdf_cache") else kind, 2)
        tags = []
        for e in [1, 2, 3]:
            x.init_seq_order(epoch=e)
            tags += [t for t, _ in zoo.read_epoch(x)]
        TAGS[kind] = list(dict.fromkeys(tags))
    return TAGS[kind]


def _do_init(x, kind, what):
    if what in ("i1", "i2", "i3"):
        x.init_seq_order(epoch=int(what[1]))
    elif what == "iN":
        x.init_seq_order()
    elif what == "sl":
        t = _tags(kind)
        x.init_seq_order(epoch=1, seq_list=[t[3], t[0], t[1]])
    elif what == "so":
        x.init_seq_order(epoch=1, seq_order=[4, 1, 2])


def _supports(kind, oi, what):
    k = (kind, what)
    if k not in _sup:
        if what == "sl":
            _sup[k] = kind not in ("lm_skip", "combined", "concat", "multi_epoch", "variable", "postproc", "postproc_stream")
        elif what == "so":
            _sup[k] = kind in ("static", "hdf", "hdf2", "hdf_cache", "hdf_cache_small", "lm", "text_dict", "ogg", "translation", "map", "from_list") or kind in zoo.GEN
        else:
            _sup[k] = True
    return _sup[k]


class _Run:
    def __init__(self, kind, oi):
        self.kind, self.oi = kind, oi
        self.x = _mk(kind, oi)
        self.ep = None
        self.pos = 0

    def enabled(self, op):
        if op in ("sl", "so"):
            return _supports(self.kind, self.oi, op)
        if op in ("l1", "l3", "all"):
            return self.ep not in (None, "iN")
        if op in ("dc", "pk"):
            return self.kind not in NO_COPY and not (op == "pk" and self.kind in ("variable",))
        return True

    def do(self, op, hist):
        x, kind = self.x, self.kind
        if op in ("sl", "so"):
            from returnn.util.basic import OptionalNotImplementedError as E

            try:
                _do_init(x, kind, op)
            except (NotImplementedError, E):
                return False  # this dataset does not support a predefined order
            self.ep = op
            self.pos = 0
        elif op in ("i1", "i2", "i3", "iN"):
            _do_init(x, kind, op)
            self.ep = op
            self.pos = 0
        elif op in ("l1", "l3"):
            k = int(op[1])
            exp = _fresh(kind, self.oi, self.ep)
            if x.is_less_than_num_seqs(self.pos):
                k = max(i for i in range(1, k + 1) if i == 1 or x.is_less_than_num_seqs(self.pos + i - 1))
                x.load_seqs(self.pos, self.pos + k)
                for j in range(self.pos, self.pos + k):
                    if not x.is_less_than_num_seqs(j):
                        break
                    expect_eq(zoo.read_seq(x, j), exp[j], f"{kind} {OPTS[self.oi]} after {hist}: seq {j}")
                self.pos += k
        elif op == "all":
            exp = _fresh(kind, self.oi, self.ep)
            j = self.pos
            while x.is_less_than_num_seqs(j):
                x.load_seqs(j, j + 1)
                expect(j < len(exp), f"{kind} after {hist}: too many seqs")
                expect_eq(zoo.read_seq(x, j), exp[j], f"{kind} {OPTS[self.oi]} after {hist}: seq {j}")
                j += 1
            expect(j >= len(exp), f"{kind} {OPTS[self.oi]} after {hist}: too few seqs, {j} vs {len(exp)}")
            self.pos = j
        elif op == "q":
            from returnn.util.basic import OptionalNotImplementedError as E

            for f in [lambda: x.get_all_tags(), lambda: x.get_total_num_seqs(), lambda: x.get_data_keys(), lambda: x.get_current_seq_order(), lambda: x.num_seqs, lambda: x.estimated_num_seqs]:
                try:
                    f()
                except Exception:  # query may be unsupported in this state. what matters is what is delivered later
                    pass
        elif op == "f":
            x.finish_epoch()
            self.ep = None
        elif op == "ff":
            x.finish_epoch(free_resources=True)
            self.ep = None
        elif op == "dc":
            self.x = copy.deepcopy(x)
            self.ep = None
        elif op == "pk":
            self.x = pickle.loads(pickle.dumps(x))
            self.ep = None


def worker_init():
    zoo.sync_cache_threads()


def run_case(case, ctx):
    kind, oi, depth, first = case["kind"], case["oi"], case["depth"], case["first"]
    if first is None:
        hists = [()]
    else:
        hists = [(first,) + r for k in range(depth) for r in itertools.product(OPS, repeat=k)]
    n = 0
    skip = None
    for h in hists:
        if skip is not None and h[: len(skip)] == skip:
            continue
        # prune equivalent/no-op histories: two successive pure metadata ops
        if any(a == b and a in ("q", "f", "ff", "dc", "pk", "iN") for a, b in zip(h, h[1:])):
            continue
        r = _Run(kind, oi)
        ok = True
        for k, op in enumerate(h):
            if not r.enabled(op):
                ok = False
                break
            if r.do(op, h[: k + 1]) is False:
                ok = False
                break
            ctx.trans()
        if not ok:
            continue
        for e in ("i1", "i2") if len(h) < depth else ("i1",):
            _do_init(r.x, kind, e)
            got = zoo.read_epoch(r.x)
            ctx.trans(len(got))
            exp = _fresh(kind, oi, e)
            if got != exp:
                raise Violation(
                    f"{kind} {OPTS[oi]}: after history {list(h)}, init_seq_order(epoch={e[1]}) delivers"
                    f" {[(t, str(c)[:60]) for t, c in got]} but a fresh dataset {[(t, str(c)[:60]) for t, c in exp]}"
                )
            ctx.outcome((kind, oi, e, tuple(t for t, _ in got)))
            ctx.state((kind, oi, h, e))
        ctx.trace()
        n += 1
    if first == "i2":
        ctx.sample({"kind": kind, "opts": OPTS[oi], "histories": n, "last": list(h)})
    ctx.count("histories", n)


def check_vacuity(total):
    if total.extra.get("histories", 0) < 5000:
        return "too few histories"


if __name__ == "__main__":
    harness.main(__name__)
