"""C30: elementwise ops, comparisons and matmul on frontend tensors match by dim tags, for every dim order."""
import itertools, math, operator
from vlib import harness, rft
from vlib.harness import Violation, expect, expect_eq

PID = "C30"
LEVEL = "model_checking"
RULE = (
    "case = (op, dim order of a); run_case enumerates all dim orders of b (all ordered subsets of 4 dims, sizes equal and different, one of them ragged) and dim_order options;"
    " each is executed on the real frontend with torch backend incl. the native code; oracle = index-wise reference by dim; state = (op, dims a, dims b)"
)
BOUNDS = {
    "quick": "all 65 x 65 ordered dim subsets of {batch, ragged time, feature, other} for 3 size assignments (equal sizes; different sizes; two ragged dims) for all 19 ops, python/numpy scalars, all dim_order permutations for <=3 dims, where() of three tensors, matmul with all dim orders of <=3 dims and all reduce sets",
    "thorough": "the same",
}
ASSUMPTIONS = ["torch backend on CPU"]

BIN = {
    "add": (lambda a, b: a + b, lambda rf, a, b: a + b),
    "sub": (lambda a, b: a - b, lambda rf, a, b: a - b),
    "mul": (lambda a, b: a * b, lambda rf, a, b: a * b),
    "truediv": (lambda a, b: a / b, lambda rf, a, b: a / b),
    "floordiv": (lambda a, b: a // b, lambda rf, a, b: a // b),
    "mod": (lambda a, b: a % b, lambda rf, a, b: a % b),
    "pow": (lambda a, b: a**b, lambda rf, a, b: a**b),
    "maximum": (max, lambda rf, a, b: rf.maximum(a, b)),
    "minimum": (min, lambda rf, a, b: rf.minimum(a, b)),
    "squared_difference": (lambda a, b: (a - b) ** 2, lambda rf, a, b: rf.squared_difference(a, b)),
    "lt": (operator.lt, lambda rf, a, b: a < b),
    "le": (operator.le, lambda rf, a, b: a <= b),
    "gt": (operator.gt, lambda rf, a, b: a > b),
    "ge": (operator.ge, lambda rf, a, b: a >= b),
    "eq": (operator.eq, lambda rf, a, b: a == b),
    "ne": (operator.ne, lambda rf, a, b: a != b),
    "and": (lambda a, b: a and b, lambda rf, a, b: a & b),
    "or": (lambda a, b: a or b, lambda rf, a, b: a | b),
    "ceil_divide": (lambda a, b: -(-a // b), lambda rf, a, b: rf.ceil_divide(a, b)),
}
COMB = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "floordiv": "//", "mod": "%", "pow": "**", "maximum": "maximum", "minimum": "minimum", "squared_difference": "squared_difference", "and": "logical_and", "or": "logical_or"}
CMP = {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!="}


def parent_init():
    rft.init()


def _orders(n=4, maxlen=4):
    out = []
    for k in range(0, maxlen + 1):
        out += [list(p) for p in itertools.permutations(range(n), k)]
    return out


def gen_cases(tier):
    for sizes in ("eq", "ne", "rag"):
        for oa in _orders():
            for op in BIN:
                yield dict(t="bin", op=op, a=oa, sizes=sizes, maxb=4, dtype="bool" if op in ("and", "or") else "float32")
            if len(oa) <= 2:
                for op in BIN:
                    if op in ("and", "or"):
                        yield dict(t="bin", op=op, a=oa, sizes=sizes, maxb=2, dtype="bool")
                    else:
                        yield dict(t="bin", op=op, a=oa, sizes=sizes, maxb=2, dtype="float32")
                        if op not in ("truediv", "pow"):
                            yield dict(t="bin", op=op, a=oa, sizes=sizes, maxb=2, dtype="int32")
    for op in BIN:
        yield dict(t="scalar", op=op)
    for sizes in ("eq", "ne", "rag"):
        for oa in _orders(4, 3):
            yield dict(t="matmul", a=oa, sizes=sizes)
            yield dict(t="order", a=oa, sizes=sizes)
            yield dict(t="where", a=oa, sizes=sizes)
    yield dict(t="marked")


def _dims(sizes):
    if sizes == "eq":
        b = rft.static(2, "B")
        t = rft.dyn([2, 1], [b], "T")
        f = rft.static(2, "F")
        o = rft.static(2, "O")
    elif sizes == "rag":
        b = rft.static(2, "B")
        t = rft.dyn([2, 1], [b], "T")
        f = rft.dyn([1, 3], [b], "F")
        o = rft.static(1, "O")
    else:
        b = rft.static(3, "B")
        t = rft.dyn([1, 4, 2], [b], "T")
        f = rft.static(1, "F")
        o = rft.static(2, "O")
    return [b, t, f, o]


def _mk(dims, order, dtype, salt):
    ds = [dims[i] for i in order]
    if 0 not in order and (1 in order or (2 in order and dims[2].dimension is None)):
        # ragged dim without its batch dim: all values up to the max are there
        return None
    pos = {i: order.index(i) for i in order}

    def func(idx):
        v = sum((idx[p] + 1) * (3**i) for i, p in pos.items())
        v = (v * (7 + salt) + salt * 3) % 11
        if dtype == "bool":
            return bool(v % 2)
        return float(v) / 2 + 0.5 if dtype == "float32" else v + 1

    return rft.mk(ds, func, dtype=dtype, pad=float("nan") if dtype == "float32" else (99 if dtype != "bool" else 1))


def _val(t, dims_order, idx):
    return t[tuple(idx[d] for d in dims_order)]


def _case_bin(case, ctx):
    import returnn.frontend as rf

    dims = _dims(case["sizes"])
    op, dt = case["op"], case["dtype"]
    f, g = BIN[op]
    a = _mk(dims, case["a"], dt, 1)
    if a is None:
        return
    da = rft.get(a, a.dims)
    for ob in _orders(4, case["maxb"]):
        b = _mk(dims, ob, dt, 2)
        if b is None:
            continue
        db = rft.get(b, b.dims)
        union = [dims[i] for i in range(4) if i in case["a"] or i in ob]
        exp = {}
        for idx in rft.valid(union):
            exp[tuple(idx[d] for d in union)] = f(_val(da, a.dims, idx), _val(db, b.dims, idx))
        full = set(union) == set(a.dims) or set(union) == set(b.dims)
        ctx.trans()
        ctx.state((op, dt, case["a"], ob, case["sizes"]))
        info = f"{op} of {dt} tensors with dims {[d.name for d in a.dims]} and {[d.name for d in b.dims]} (sizes {case['sizes']})"
        outs = []
        try:
            outs.append(("operator", g(rf, a, b)))
        except Exception as exc:
            # broadcasting both sides implicitly may be refused
            if full:
                raise Violation(f"{info}: {type(exc).__name__}: {exc}")
        if op in COMB:
            outs.append(("combine", rf.combine(a, COMB[op], b, allow_broadcast_all_sources=True)))
        if op in CMP:
            outs.append(("compare", rf.compare(a, CMP[op], b, allow_broadcast_all_sources=True)))
        for name, r in outs:
            _judge(r, union, exp, f"{info} via {name}")
            expect_eq(r.dtype, "bool" if op in CMP or dt == "bool" else dt, f"{info} via {name}: dtype")
            expect(r.raw_tensor.dtype == getattr(__import__("torch"), r.dtype), f"{info}: raw dtype {r.raw_tensor.dtype} vs {r.dtype}")
    # inputs unchanged
    expect(rft.diff(rft.get(a, a.dims), da) is None, f"{op}: input changed")
    ctx.trace()


def _judge(r, union, exp, info, tol=1e-5):
    try:
        got = rft.get(r, union)
    except ValueError as exc:
        raise Violation(f"{info}: {exc}")
    d = rft.diff(got, exp, tol)
    if d:
        raise Violation(f"{info}: result {d}")


def _case_scalar(case, ctx):
    import returnn.frontend as rf, numpy

    op = case["op"]
    f, g = BIN[op]
    dims = _dims("ne")
    for dt in ["bool"] if op in ("and", "or") else ["float32", "int32"]:
        if dt == "int32" and op in ("truediv", "pow"):
            continue
        for order in _orders(4, 3):
            a = _mk(dims, order, dt, 1)
            if a is None:
                continue
            da = rft.get(a, a.dims)
            for s in [True, False] if dt == "bool" else [2, 3] if dt == "int32" else [2.0, 0.5, numpy.float32(1.5), 3]:
                if op in ("maximum", "minimum", "squared_difference", "ceil_divide") and not isinstance(s, float):
                    continue
                for rev in (False, True):
                    if rev and (op in ("maximum", "minimum", "squared_difference", "ceil_divide") or isinstance(s, numpy.generic)):
                        continue
                    r = g(rf, s, a) if rev else g(rf, a, s)
                    exp = {k: f(float(s) if isinstance(s, numpy.generic) else s, v) if rev else f(v, float(s) if isinstance(s, numpy.generic) else s) for k, v in da.items()}
                    _judge(r, a.dims, exp, f"{op} dtype {dt} with scalar {s!r} reverse {rev}, dims {a.dims}")
                    ctx.trans()
                    ctx.state((op, dt, order, repr(s), rev))
    ctx.trace()


def _case_order(case, ctx):
    """explicit out dim order"""
    import returnn.frontend as rf

    dims = _dims(case["sizes"])
    a = _mk(dims, case["a"], "float32", 1)
    if a is None:
        return
    da = rft.get(a, a.dims)
    for ob in _orders(4, 3):
        b = _mk(dims, ob, "float32", 2)
        if b is None:
            continue
        union = [dims[i] for i in range(4) if i in case["a"] or i in ob]
        if len(union) > 3:
            continue
        db = rft.get(b, b.dims)
        exp = {tuple(idx[d] for d in union): _val(da, a.dims, idx) - _val(db, b.dims, idx) for idx in rft.valid(union)}
        for p in itertools.permutations(union):
            r = rf.combine(a, "-", b, dim_order=p, allow_broadcast_all_sources=True)
            info = f"combine with dim_order {[d.name for d in p]} of dims {a.dims} and {b.dims}"
            expect(list(r.dims) == list(p), lambda: f"{info}: out dims {r.dims}")
            _judge(r, union, exp, info)
            ctx.trans()
            ctx.state(("order", case["a"], ob, [d.name for d in p]))
            # copy_transpose / copy_compatible_to_dims
            t = r.copy_transpose(list(union))
            expect(list(t.dims) == list(union), lambda: f"copy_transpose: {t.dims}")
            _judge(t, union, exp, "copy_transpose " + info)
        # extend to all dims
        full = [dims[i] for i in range(4)]
        c = a.copy_compatible_to_dims(full)
        expect(list(c.dims)[0] is full[0] or c.dims[0].dimension == 1, f"copy_compatible_to_dims {c.dims}")
        e = rf.expand_dims(a, [d for d in full if d not in a.dims])
        _judge(e, full, {tuple(idx[d] for d in full): _val(da, a.dims, idx) for idx in rft.valid(full)}, f"expand_dims {a.dims}")
    ctx.trace()


def _case_where(case, ctx):
    import returnn.frontend as rf

    dims = _dims(case["sizes"])
    c = _mk(dims, case["a"], "bool", 3)
    if c is None:
        return
    dc = rft.get(c, c.dims)
    for oa in _orders(4, 2):
        for ob in [[], [0], [2, 0], [0, 1], None]:
            a = _mk(dims, oa, "float32", 1)
            if a is None:
                continue
            b = _mk(dims, ob, "float32", 2) if ob is not None else 0.25
            da = rft.get(a, a.dims)
            db = rft.get(b, b.dims) if ob is not None else None
            union = [dims[i] for i in range(4) if i in case["a"] or i in oa or i in (ob or [])]
            exp = {tuple(idx[d] for d in union): (_val(da, a.dims, idx) if _val(dc, c.dims, idx) else (_val(db, b.dims, idx) if db is not None else b)) for idx in rft.valid(union)}
            r = rf.where(c, a, b, allow_broadcast_all_sources=True)
            _judge(r, union, exp, f"where cond {c.dims}, {a.dims}, {b}")
            ctx.trans()
            ctx.state(("where", case["a"], oa, ob))
    ctx.trace()


def _case_matmul(case, ctx):
    import returnn.frontend as rf

    dims = _dims(case["sizes"])
    a = _mk(dims, case["a"], "float32", 1)
    if a is None or not case["a"]:
        return
    da = rft.get(a, a.dims)
    for ob in _orders(4, 3):
        b = _mk(dims, ob, "float32", 2)
        if b is None:
            continue
        db = rft.get(b, b.dims)
        common = [i for i in case["a"] if i in ob]
        union = [dims[i] for i in range(4) if i in case["a"] or i in ob]
        for k in range(1, len(common) + 1):
            for red in itertools.combinations(common, k):
                ragged = [i for i in range(4) if dims[i].dimension is None]
                if 0 in red and any(i not in red and (i in case["a"] or i in ob) for i in ragged):
                    continue  # reduce the batch but keep the ragged dim: no defined meaning
                rd = [dims[i] for i in red]
                out = [d for d in union if d not in rd]
                exp = {}
                for idx in rft.valid(union):
                    key = tuple(idx[d] for d in out)
                    exp[key] = exp.get(key, 0.0) + _val(da, a.dims, idx) * _val(db, b.dims, idx)
                if any(i in red for i in ragged):
                    # masking in matmul is not implemented (raises): the user masks the inputs
                    am, bm = (x.copy_masked(0.0) for x in (a, b))
                    r = rf.matmul(am, bm, reduce=rd[0] if len(rd) == 1 else rd, use_mask=False)
                else:
                    r = rf.matmul(a, b, reduce=rd[0] if len(rd) == 1 else rd)
                _judge(r, out, exp, f"matmul of dims {[d.name for d in a.dims]} and {[d.name for d in b.dims]}, reduce {[d.name for d in rd]}, sizes {case['sizes']}", 1e-4)
                ctx.trans()
                ctx.state(("mm", case["a"], ob, red, case["sizes"]))
    ctx.trace()


def _case_marked(case, ctx):
    """same dim twice (square matrix): needs the match priority; must be consistent"""
    import returnn.frontend as rf
    import torch
    from returnn.tensor import Tensor

    f = rft.static(3, "F")
    f2 = f.copy(match_priority=1)
    w = Tensor("w", [f2, f], "float32", raw_tensor=torch.arange(9.0).reshape(3, 3))
    x = Tensor("x", [f], "float32", raw_tensor=torch.tensor([1.0, 10.0, 100.0]))
    r = rf.matmul(x, w, reduce=f)
    exp = {(0,): 0.0, (1,): 0.0, (2,): 0.0}
    # x[f] matches the axis with the higher priority
    for i in range(3):
        for j in range(3):
            exp[(j,)] += [1.0, 10.0, 100.0][i] * (i * 3 + j)
    _judge(r, [f], exp, "square matmul with match_priority")
    ctx.trans()
    ctx.trace()


def run_case(case, ctx):
    globals()["_case_" + case["t"]](case, ctx)
    ctx.outcome(case["t"] + case.get("op", ""))


def check_vacuity(total):
    if total.transitions < 30000:
        return f"only {total.transitions} evaluations"


if __name__ == "__main__":
    harness.main(__name__)
