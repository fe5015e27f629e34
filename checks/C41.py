"""C41: caches (lru_cache, rf Cache, positional encodings) never change a result."""
import collections, gc, itertools, math, weakref
from vlib import harness, rft
from vlib.harness import Violation, expect, expect_eq

PID = "C41"
LEVEL = "model_checking"
RULE = (
    "lru: case = (initial size, first operation); all operation sequences up to the depth, each observation compared to a reference (ordered dict); operations of another thread while the cached function runs are"
    " enumerated as nested operations (everything else happens under one lock);"
    " pos: case = first call; all histories of calls of the cached encodings, each result compared to the closed form; store: case = first operation, all histories of set / get / release on a Cache;"
    " state = history; transition = operation"
)
BOUNDS = {
    "quick": "lru: maxsize 1, 2 (and changed in between), 25 operations (3 keys), depth 4 (maxsize 0: depth 3), full drain at the end; pos: histories of 2 calls x (dims kept / released and collected in between), 38 calls; store: size 2, 18 operations, depth 4",
    "thorough": "lru: maxsize 0..3, depth 4, maxsize 2 depth 5; pos: histories of 3 calls; store: depth 5",
}
ASSUMPTIONS = ["torch backend, eager mode", "a cached function is deterministic"]
CASE_TIMEOUT = 850


def parent_init():
    rft.init()
    import returnn.util.lru_cache
    import returnn.frontend._cache


# ---------------------------------------------------------------------------- lru

BASE = [("call", k) for k in (1, 2, 3)] + [("peek", 1), ("peekstat", 2), ("pop", 1), ("pop", 3), ("popf", 2), ("oldest",), ("oldestf",), ("clear",)]
BASE += [("set", k) for k in (1, 2)] + [("max", n) for n in (0, 1, 2)]
NESTED = [("nest", 1, op) for op in (("call", 1), ("call", 2), ("set", 1), ("pop", 2), ("clear",), ("max", 0), ("max", 1), ("max", 2))]
LRU_OPS = BASE + NESTED + [("nest", 3, ("max", 0))]


class Model:
    def __init__(self, size, set_moves):
        self.size, self.d, self.hits, self.misses, self.set_moves = size, collections.OrderedDict(), 0, 0, set_moves

    def insert(self, k, v):
        if k in self.d or self.size == 0:
            return
        if len(self.d) >= self.size:
            self.d.popitem(last=False)
        self.d[k] = v

    def op(self, op, fresh):
        """-> result"""
        o = op[0]
        if o in ("call", "nest"):
            k = op[1]
            if k in self.d:
                self.hits += 1
                self.d.move_to_end(k)
                return self.d[k]
            self.misses += 1
            n = fresh()
            if o == "nest":
                inner = self.op(op[2], fresh)
            v = ("v", k, n)
            self.insert(k, v)
            return (v, inner) if o == "nest" else v
        if o == "peek":
            return self.d.get(op[1], "none")
        if o == "peekstat":
            if op[1] in self.d:
                self.hits += 1
            else:
                self.misses += 1
            return self.d.get(op[1], "none")
        if o == "pop":
            return self.d.pop(op[1]) if op[1] in self.d else "KeyError"
        if o == "popf":
            return self.d.pop(op[1], "fb")
        if o == "oldest":
            return self.d.popitem(last=False)[1] if self.d else "KeyError"
        if o == "oldestf":
            return self.d.popitem(last=False)[1] if self.d else "fb"
        if o == "clear":
            self.d.clear()
            self.hits = self.misses = 0
            return None
        if o == "set":
            v = ("set", op[1], fresh())
            if op[1] in self.d:
                self.d[op[1]] = v
                if self.set_moves:
                    self.d.move_to_end(op[1])
            else:
                self.insert(op[1], v)
            return None
        if o == "max":
            self.size = op[1]
            while len(self.d) > self.size:
                self.d.popitem(last=False)
            return None
        raise AssertionError(op)


class Impl:
    def __init__(self, size, decorated):
        from returnn.util.lru_cache import lru_cache

        self.n = 0
        self.pending = None
        self.inner = None

        def func(k):
            n = self.fresh()
            if self.pending is not None:
                op, self.pending = self.pending, None
                self.inner = self.op(op)
            return ("v", k, n)

        self.f = lru_cache(maxsize=size)(func)

    def fresh(self):
        self.n += 1
        return self.n

    def op(self, op):
        f, o = self.f, op[0]
        if o == "call":
            return f(op[1])
        if o == "nest":
            self.inner = None
            self.pending = op[2]
            n = self.n
            r = f(op[1])
            if self.pending is not None:
                self.pending = None
                return r
            return (r, self.inner)
        if o == "peek":
            return f.cache_peek(op[1], update_statistics=False, fallback="none")
        if o == "peekstat":
            return f.cache_peek(op[1], fallback="none")
        try:
            if o == "pop":
                return f.cache_pop(op[1])
            if o == "oldest":
                return f.cache_pop_oldest()
        except KeyError:
            return "KeyError"
        if o == "popf":
            return f.cache_pop(op[1], fallback="fb")
        if o == "oldestf":
            return f.cache_pop_oldest(fallback="fb")
        if o == "clear":
            return f.cache_clear()
        if o == "set":
            return f.cache_set(op[1], result=("set", op[1], self.fresh()))
        if o == "max":
            return f.cache_set_maxsize(op[1])
        raise AssertionError(op)


def _lru_history(size, ops, ctx):
    im = Impl(size, True)
    models = [(Model(size, m), [0]) for m in (False, True)]
    for i, op in enumerate(ops):
        ctx.trans()
        try:
            got = im.op(op)
        except Exception as exc:
            raise Violation("lru_cache(%i): %r: %s: %s" % (size, ops[: i + 1], type(exc).__name__, exc), key="lru:exc")
        info = im.f.cache_info()
        obs = [got, tuple(info), im.f.cache_len(), [im.f.cache_peek(k, update_statistics=False, fallback=None) for k in (1, 2, 3)]]
        nxt, want = [], None
        for m, cnt in models:

            def fresh(cnt=cnt):
                cnt[0] += 1
                return cnt[0]

            r = m.op(op, fresh)
            want = [r, (m.hits, m.misses, m.size, len(m.d)), len(m.d), [m.d.get(k) for k in (1, 2, 3)]]
            if want == obs:
                nxt.append((m, cnt))
        if not nxt:
            raise Violation("lru_cache(%i): after %r: got (result, (hits, misses, maxsize, size), len, entries) = %r, expected %r" % (size, ops[: i + 1], obs, want), key="lru:obs")
        models = nxt
    drained = []
    while True:
        r = im.op(("oldestf",))
        if r == "fb":
            break
        drained.append(r)
    if not any(list(m.d.values()) == drained for m, _ in models):
        raise Violation("lru_cache(%i): after %r: order oldest first %r, expected %r" % (size, ops, drained, list(models[0][0].d.values())), key="lru:order")
    ctx.state((size, ops))


def _lru_keys(ctx):
    """argument forms: positional, keyword, several; types"""
    from returnn.util.lru_cache import lru_cache
    import functools

    forms = [((1,), {}), ((1.0,), {}), ((True,), {}), (("1",), {}), ((1, 2), {}), (((1, 2),), {}), ((1,), {"b": 2}), ((), {"a": 1, "b": 2}), ((), {"b": 2, "a": 1}), ((1,), {"b": None}), ((None,), {}), ((), {"a": None}), (("b", 2), {}), ((1, "b", 2), {})]
    for typed in (False, True):
        for hist in itertools.product(range(len(forms)), repeat=3):
            log1, log2 = [], []

            def mk(log):
                def f(*args, **kw):
                    log.append((args, kw))
                    return len(log), args, sorted(kw.items(), key=str)

                return f

            f1, f2 = lru_cache(maxsize=2, typed=typed)(mk(log1)), functools.lru_cache(maxsize=2, typed=typed)(mk(log2))
            for h in hist:
                ctx.trans()
                a, k = forms[h]
                r1, r2 = f1(*a, **k), f2(*a, **k)
                expect(r1 == r2 and f1.cache_info() == f2.cache_info(), lambda: "lru_cache(2, typed=%r): calls %r: result %r %r, the Python lru_cache gives %r %r" % (typed, [forms[i] for i in hist], r1, f1.cache_info(), r2, f2.cache_info()), key="lru:keys")
            ctx.state((typed, hist))


# ---------------------------------------------------------------------------- encodings


class World:
    """dims, lazily created, by name"""

    def __init__(self):
        self.d = {}

    def __getitem__(self, name):
        from returnn.tensor import single_step_dim, batch_dim, Dim

        if name == "step":
            return single_step_dim
        if name == "B":
            if "B" not in self.d:
                self.d["B"] = rft.static(2, "batch")
            return self.d["B"]
        if name not in self.d:
            mk = {
                "S3": lambda: rft.static(3, "S3"),
                "S3b": lambda: rft.static(3, "S3b"),
                "S1": lambda: rft.static(1, "S1"),
                "S4": lambda: rft.static(4, "S4"),
                "D3": lambda: rft.dyn(3, [], "D3"),
                "D1": lambda: rft.dyn(1, [], "D1"),
                "T32": lambda: rft.dyn([3, 2], [self["B"]], "T32"),
                "T32b": lambda: rft.dyn([3, 2], [self["B"]], "T32b"),
                "T13": lambda: rft.dyn([1, 3], [self["B"]], "T13"),
                "F4": lambda: rft.static(4, "F4"),
                "G4": lambda: rft.static(4, "G4"),
                "F6": lambda: rft.static(6, "F6"),
            }
            self.d[name] = mk[name]()
        return self.d[name]


SIN = [
    (sp, f, off, base, dt)
    for sp, f, off, base, dt in [
        ("S3", "F4", None, 1e4, None),
        ("S3b", "F4", None, 1e4, None),
        ("S3", "G4", None, 1e4, None),
        ("S3", "F6", None, 1e4, None),
        ("S4", "F4", None, 1e4, None),
        ("F4", "S4", None, 1e4, None),
        ("S3", "F4", 0, 1e4, None),
        ("S3", "F4", 2, 1e4, None),
        ("S3", "F4", None, 1e2, None),
        ("S3", "F4", None, 1e4, "float64"),
        ("D3", "F4", None, 1e4, None),
        ("T32", "F4", None, 1e4, None),
        ("T32b", "F4", None, 1e4, None),
        ("T13", "F4", None, 1e4, None),
        ("S1", "F4", 0, 1e4, None),
        ("S1", "F4", 2, 1e4, None),
        ("D1", "F4", 2, 1e4, None),
        ("step", "F4", 0, 1e4, None),
        ("step", "F4", 2, 1e4, None),
        ("S3", "F4", "t2", 1e4, None),
        ("step", "F4", "tB", 1e4, None),
    ]
]
REL = [
    ("S3", "S3", "F4", 0, None),
    ("S3", "S3b", "F4", 0, None),
    ("S3b", "S3", "G4", 0, None),
    ("S3", "S4", "F4", 0, None),
    ("S4", "S3", "F4", 0, None),
    ("S3", "S3", "F4", 1, None),
    ("S3", "S3", "F6", 0, None),
    ("S3", "S3", "F4", 0, "float64"),
    ("D3", "D3", "F4", 0, None),
    ("T32", "T32", "F4", 0, None),
    ("T32b", "T13", "F4", 0, None),
    ("S1", "S3", "F4", 0, None),
    ("step", "S3", "F4", 0, None),
    ("step", "S1", "F4", 0, None),
    ("S1", "S1", "F4", 0, None),
]
POS = [("sin",) + c for c in SIN] + [("rel",) + c for c in REL] + [("meta_sin",) + SIN[0], ("meta_rel",) + REL[0]]


def _len(d):
    return rft.max_len(d)


def _pos_call(w, c, hist):
    """do one call, check the result"""
    import returnn.frontend as rf
    import torch
    from returnn.tensor import Tensor, single_step_dim

    kind = c[0]
    if kind.startswith("meta_"):
        with rf.set_default_device_ctx("meta"):
            return _pos_call2(w, (kind[5:],) + c[1:], hist, "meta")
    return _pos_call2(w, c, hist, "cpu")


def _pos_call2(w, c, hist, device):
    import returnn.frontend as rf
    import torch
    from returnn.tensor import Tensor, single_step_dim

    what = lambda: "calls %r" % (hist,)
    if c[0] == "sin":
        _, sp, f, off, base, dt = c
        spd, fd = w[sp], w[f]
        offs = None
        if off == "t2":
            offt = rf.constant(2, dims=(), dtype="int32")
            offs = {(): 2}
        elif off == "tB":
            offt = Tensor("off", [w["B"]], dtype="int32", raw_tensor=torch.tensor([1, 5], dtype=torch.int32))
        else:
            offt = off
        out = rf.sinusoidal_positional_encoding(spatial_dim=spd, feat_dim=fd, offset=offt, base=base, dtype=dt)
        pos_dims = ([spd] if sp != "step" else []) + ([w["B"]] if off == "tB" else [])
        o0 = {None: [0], "t2": [2], "tB": [1, 5]}.get(off, [off])
        rows = [[o + (p if sp != "step" else 0) for o in o0] for p in range(_len(spd) if sp != "step" else 1)]
        n2 = _len(fd) // 2
        scale = math.log(base) / (n2 - 1)
        div = [math.exp(-j * scale) for j in range(n2)]
        dims = set(pos_dims) | {fd}
        order = pos_dims + [fd]
        flat = [r for rr in rows for r in rr]
    else:
        _, q, k, f, off, dt = c
        qd, kd, fd = w[q], w[k], w[f]
        out, od = rf.relative_positional_encoding(query_spatial_dim=qd, key_value_spatial_dim=kd, feat_dim=fd, query_offset=off, dtype=dt)
        ql, kl = _len(qd), _len(kd)
        if q == "step":
            expect(od == kd, lambda: "%s: out dim %r is not the dim of the history %r" % (what(), od, kd), key="pos:outdim")
            flat = [p - (kl - 1) for p in range(kl)]
        else:
            flat = [p - off for p in range(-(ql - 1), kl)]
            expect(int(od.get_dim_value()) == ql + kl - 1, lambda: "%s: out dim %r has size %r, expected %r" % (what(), od, od.get_dim_value(), ql + kl - 1), key="pos:outdim")
        n2 = _len(fd) // 2
        div = [math.exp(-j * 2 * math.log(1e4) / _len(fd)) for j in range(n2)]
        dims = {od, fd}
        order = [od, fd]
    expect(set(out.dims) == dims and len(out.dims) == len(dims), lambda: "%s: the result has dims %r, expected %r" % (what(), out.dims, order), key="pos:dims")
    expect(out.feature_dim == fd, lambda: "%s: the result has feature dim %r, expected %r" % (what(), out.feature_dim, fd), key="pos:feat")
    expect(out.dtype == (dt or "float32"), lambda: "%s: the result has dtype %r" % (what(), out.dtype), key="pos:dtype")
    raw = out.copy_compatible_to_dims_raw(order)
    expect(raw.device.type == device, lambda: "%s: the result is on device %s, requested %s" % (what(), raw.device, device), key="pos:device")
    if device != "cpu":
        return
    raw = raw.reshape(len(flat), -1)
    expect(raw.shape[1] == 2 * n2, lambda: "%s: shape %r" % (what(), raw.shape), key="pos:shape")
    want = [[math.sin(p * d) for d in div] + [math.sin(p * d + math.pi / 2) for d in div] for p in flat]
    diff = (raw.double() - torch.tensor(want, dtype=torch.float64)).abs().max().item()
    expect(diff < 1e-4, lambda: "%s: the result is wrong by %g: %r, expected %r" % (what(), diff, raw.tolist(), want), key="pos:value")


def _pos_history(calls, release, ctx):
    """release: drop all dims between the calls"""
    import returnn.frontend.attention as att
    from returnn.frontend._cache import Cache

    for v in list(vars(att).values()):
        if isinstance(v, Cache):
            v.__init__(128)  # empty cache, if it is such
    w = World()
    for i, c in enumerate(calls):
        if i and release:
            w = World()
            gc.collect()
        ctx.trans()
        try:
            _pos_call(w, c, (calls[: i + 1], "dims released in between" if release else "same dims"))
        except Violation:
            raise
        except Exception as exc:
            raise Violation("calls %r (%s): %s: %s" % (calls[: i + 1], "dims released in between" if release else "same dims", type(exc).__name__, str(exc)[:300]), key="pos:exc")
    ctx.state((calls, release))


# ---------------------------------------------------------------------------- Cache

KEYS = {
    "a": lambda w: ("a",),
    "n": lambda w: (None, 1, "x"),
    "s3": lambda w: (w["S3"], "x"),
    "s3b": lambda w: (w["S3b"], "x"),
    "s3s4": lambda w: (w["S3"], w["S4"]),
    "s1": lambda w: (w["S1"], "x"),
    "step": lambda w: (w["step"], "x"),
    "t": lambda w: (w["T32"], "x"),
    "tb": lambda w: (w["T32b"], "x"),
    "ten": lambda w: (_tensor(w), 1),
}
EQUIV = {"s3": "dim3", "s3b": "dim3", "s1": "dim1", "s3s4": "dim34"}  # others: own class, tied to the objects of the world


def _tensor(w):
    import torch
    from returnn.tensor import Tensor

    if "ten" not in w.d:
        w.d["ten"] = Tensor("ten", [w["S3"]], dtype="float32", raw_tensor=torch.zeros(3))
    return w.d["ten"]


STORE_OPS = [("put", k) for k in KEYS] + [("get", k) for k in ("a", "s3", "s3b", "step", "s1", "t", "ten")] + [("release",)]


def _store_history(size, ops, ctx):
    from returnn.frontend._cache import Cache
    import torch
    from returnn.tensor import Tensor, Dim

    cache = Cache(size)
    w = World()
    gen = 0
    last = {}  # class -> (serial, raw value)
    serial = 0
    values = []  # weakrefs to the raw values

    def cls(k):
        return EQUIV.get(k) or (k if k in ("a", "n", "step") else (k, gen))

    for i, op in enumerate(ops):
        ctx.trans()
        what = "Cache(%i), history %r" % (size, ops[: i + 1])
        try:
            if op[0] == "release":
                w = World()
                gen += 1
                gc.collect()
            else:
                key = KEYS[op[1]](w)
                dims = [d for d in key if isinstance(d, Dim) and d != w["step"]]
                if op[0] == "put":
                    serial += 1
                    raw = torch.full([_len(d) for d in dims], float(serial))
                    values.append((serial, weakref.ref(raw), cls(op[1])))
                    cache.set(key, (Tensor("v", dims, dtype="float32", raw_tensor=raw), serial, dims[0] if dims else None))
                    last[cls(op[1])] = serial
                    del raw
                got = cache.get(key, "default")
                if got == "default":
                    expect(op[0] != "put", "%s: just stored, but not there" % what, key="store:lost")
                else:
                    v, s, d0 = got
                    expect(last.get(cls(op[1])) == s, lambda: "%s: got the value of set number %r, the last one with this key was number %r" % (what, s, last.get(cls(op[1]))), key="store:stale")
                    expect(list(v.dims) == dims and (v.raw_tensor == s).all().item() and (d0 is None if not dims else d0 == dims[0]), lambda: "%s: got %r %r, dims must be %r" % (what, v, d0, dims), key="store:dims")
                    del v, d0
                del key, dims, got
        except Violation:
            raise
        except Exception as exc:
            raise Violation("%s: %s: %s" % (what, type(exc).__name__, str(exc)[:300]), key="store:exc")
    gc.collect()
    alive = [(s, c) for s, r, c in values if r() is not None]
    expect(len(alive) <= size, lambda: "Cache(%i), history %r: %i values are still alive: %r" % (size, ops, len(alive), alive), key="store:bound")
    ctx.state((size, ops))


def gen_cases(tier):
    for size, depth in ((0, 3), (1, 4), (2, 4)) if tier == "quick" else ((0, 4), (1, 4), (2, 5), (3, 4)):
        for op in LRU_OPS:
            yield {"part": "lru", "size": size, "op": LRU_OPS.index(op), "depth": depth}
    yield {"part": "keys"}
    for i in range(len(POS)):
        yield {"part": "pos", "first": i, "n": 2 if tier == "quick" else 3}
    for i in range(len(STORE_OPS)):
        yield {"part": "store", "first": i, "depth": 4 if tier == "quick" else 5}


def run_case(case, ctx):
    part = case["part"]
    gc.collect()
    gc.freeze()  # such that the following collections only look at new objects
    if part == "lru":
        first = LRU_OPS[case["op"]]
        for rest in itertools.product(LRU_OPS, repeat=case["depth"] - 1):
            _lru_history(case["size"], (first,) + rest, ctx)
    elif part == "keys":
        _lru_keys(ctx)
    elif part == "pos":
        for rest in itertools.product(POS, repeat=case["n"] - 1):
            for release in (False, True):
                _pos_history((POS[case["first"]],) + rest, release, ctx)
    elif part == "store":
        for rest in itertools.product(STORE_OPS, repeat=case["depth"] - 1):
            _store_history(2, (STORE_OPS[case["first"]],) + rest, ctx)


if __name__ == "__main__":
    harness.main(__name__)
