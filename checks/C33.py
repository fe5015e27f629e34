"""C33: arithmetic on dims: the size of a derived dim is the arithmetic on the sizes, per sequence and in every batch; dims which compare equal have equal sizes."""
import itertools
from vlib import harness, rft
from vlib.harness import Violation, expect, expect_eq

PID = "C33"
LEVEL = "model_checking"
RULE = (
    "case = (base dims, first op); run_case enumerates all expressions up to the depth over the op set and operands, builds them on real Dim objects and evaluates them on batches;"
    " oracle = integer arithmetic per sequence; all pairs of dims of the same base compared: equal => equal sizes, same hash; state = (expression, batch)"
)
BOUNDS = {
    "quick": "expressions of depth <=2 over 11 ops x operands {1,2,3, static dims 2 and 3, the dynamic dims T and U} (depth 3 over {1,2,T,static 3}), from a static, a batch-dynamic and a scalar-dynamic base; batches with all lengths 4..9; 3 batches in a row with new sizes",
    "thorough": "depth 3 over all operands",
}
ASSUMPTIONS = ["torch backend", "behavior_version 24", "only expressions where no intermediate value is negative and divisions declared exact are exact", "derived dims are derived anew for each batch (a derived dim object which is kept over batches is not reset)"]

LENS = [[4, 5, 6, 7, 8, 9], [9, 7, 12, 4, 6, 5], [8, 8, 6, 10, 4, 11]]
LENS_U = [[3, 1, 4, 2, 4, 3], [2, 2, 3, 4, 1, 3], [1, 4, 4, 3, 2, 2]]
SCAL = [6, 7, 4]


def parent_init():
    rft.init(24)


class World:
    """one process-lifetime set of base dims, new sizes set per batch"""

    def __init__(self):
        import torch
        from returnn.tensor import Dim, Tensor

        self.B = rft.static(6, "B")
        self.T = Dim(Tensor("T", [self.B], "int32"), name="T")
        self.U = Dim(Tensor("U", [self.B], "int32"), name="U")
        self.Z = Dim(Tensor("Z", [], "int32"), name="Z")
        self.S = rft.static(12, "S")
        self.s2 = rft.static(2, "s2")
        self.s3 = rft.static(3, "s3")
        self.torch = torch
        self.n = None

    def set(self, n):
        for d, v in ((self.T, LENS[n]), (self.U, LENS_U[n]), (self.Z, SCAL[n])):
            d.reset_eager()
            d.dyn_size_ext.raw_tensor = self.torch.tensor(v, dtype=self.torch.int32)
        self.n = n

    def dim(self, x):
        return x if isinstance(x, int) else getattr(self, x)

    def val(self, x):
        """per batch entry, or int"""
        n = self.n
        return {"T": LENS[n], "U": LENS_U[n], "Z": SCAL[n], "S": 12, "s2": 2, "s3": 3}[x] if isinstance(x, str) else x


class Skip(Exception):
    pass


def _lift(f, a, b):
    if isinstance(a, list) or isinstance(b, list):
        n = len(a) if isinstance(a, list) else len(b)
        return [f(a[i] if isinstance(a, list) else a, b[i] if isinstance(b, list) else b) for i in range(n)]
    return f(a, b)


def _nonneg(x):
    if x < 0:
        raise Skip
    return x


def _pos(x):
    if x <= 0:
        raise Skip
    return x


OPS = {
    # name: (on dims, on ints)
    "add": (lambda d, o: d + o, lambda a, b: a + b),
    "radd": (lambda d, o: o + d, lambda a, b: a + b),
    "sub": (lambda d, o: d - o, lambda a, b: _nonneg(a - b)),
    "sub_left": (lambda d, o: d.sub_left(o), lambda a, b: _nonneg(a - b)),
    "mul": (lambda d, o: d * o, lambda a, b: a * b),
    "rmul": (lambda d, o: o * d, lambda a, b: a * b),
    "floordiv": (lambda d, o: d // o, lambda a, b: a // _pos(b)),
    "ceildiv_right": (lambda d, o: d.ceildiv_right(o), lambda a, b: -(-a // _pos(b))),
    "ceildiv_left": (lambda d, o: d.ceildiv_left(o), lambda a, b: -(-a // _pos(b))),
    "div_right": (lambda d, o: d.div_right(o), lambda a, b: a // b if b and a % b == 0 else _nonneg(-1)),
    "div_left": (lambda d, o: d.div_left(o), lambda a, b: a // b if b and a % b == 0 else _nonneg(-1)),
}
OPERANDS = [1, 2, 3, "s2", "s3", "T", "U"]


def gen_cases(tier):
    for base in ("T", "S", "Z"):
        for op in OPS:
            for o in OPERANDS:
                yield dict(t="expr", base=base, first=[op, o], depth=2, ops3=None)
                if o in (1, 2, "T", "s3"):
                    yield dict(t="expr", base=base, first=[op, o], depth=3, operands=[2, "T", "s3"] if tier == "quick" else OPERANDS)
    for base in ("T", "S"):
        for op in OPS:
            yield dict(t="eq", base=base, op=op)
    yield dict(t="identities")


def _build(w, base, ops):
    """:return: (dim, value)"""
    d, v = w.dim(base), w.val(base)
    for op, o in ops:
        fd, fv = OPS[op]
        v = _lift(fv, v, w.val(o))
        d = fd(d, w.dim(o))
    return d, v


def _values(w, base, ops):
    v = w.val(base)
    terms = [v]  # of the sum, in order
    for op, o in ops:
        x = w.val(o)
        v = _lift(OPS[op][1], v, x)
        if op == "add":
            terms = terms + [x]
        elif op == "radd":
            terms = [x] + terms
        elif op == "sub":
            terms = terms + [_lift(lambda a, b: -b, 0, x)]
        elif op == "sub_left":
            terms = [_lift(lambda a, b: -b, 0, x)] + terms
        elif op in ("mul", "rmul"):
            terms = [_lift(lambda a, b: a * b, t, x) for t in terms]
        else:
            divs = [_lift(lambda a, b: a // b if a % b == 0 else None, t, x) for t in terms]
            terms = divs if all(None not in (t if isinstance(t, list) else [t]) for t in divs) else [v]
        # A size is never negative, so partial sums of the terms must not be.
        p = 0
        for i, t in enumerate(terms):
            p = _lift(lambda a, b: a + b, p, t)
            if i > 0 and min(p if isinstance(p, list) else [p]) < 0:
                raise Skip
    return v


def _expr_str(base, ops):
    return base + "".join(f".{op}({o})" for op, o in ops)


def _check_dim(w, d, v, info):
    d.complete_dyn_size()
    if d.dimension is not None:
        expect(not isinstance(v, list) or len(set(v)) == 1, lambda: f"{info} has static dimension {d.dimension}, but sizes {v}")
        expect_eq(int(d.dimension), v[0] if isinstance(v, list) else v, f"{info}: static dimension")
        return
    ext = d.dyn_size_ext
    expect(ext is not None and ext.raw_tensor is not None, lambda: f"{info}: has no size")
    got = ext.raw_tensor.tolist()
    if isinstance(got, list):
        expect(ext.dims == (w.B,), lambda: f"{info}: size has dims {ext.dims}")
        exp = v if isinstance(v, list) else [v] * 6
    else:
        exp = v
        if isinstance(v, list):
            expect(len(set(v)) == 1, lambda: f"{info}: size is scalar {got}, expected {v}")
            exp = v[0]
    expect_eq(got, exp, f"{info}: sizes")
    m = int(d.get_dim_value())
    mx = max(exp) if isinstance(exp, list) else exp
    expect(m >= mx, lambda: f"{info}: padded size {m}, but sizes are {exp}")


def _seqs(case):
    first = tuple(case["first"])
    ops = list(OPS)
    if case["depth"] == 2:
        yield (first,)
        for op in ops:
            for o in OPERANDS:
                yield (first, (op, o))
    else:
        for op in ops:
            for o in case["operands"]:
                for op2 in ops:
                    for o2 in case["operands"]:
                        yield (first, (op, o), (op2, o2))


def _case_expr(case, ctx):
    w = World()
    for n in range(3):
        w.set(n)
        for seq in _seqs(case):
            try:
                _values(w, case["base"], seq)
            except Skip:
                continue
            info = f"{_expr_str(case['base'], seq)} with T={LENS[n]}, U={LENS_U[n]}, Z={SCAL[n]} (batch {n})"
            d, v = _build(w, case["base"], seq)
            _check_dim(w, d, v, info)
            ctx.trans()
            ctx.state((case["base"], seq, n))
        ctx.trace()


def _case_eq(case, ctx):
    w = World()
    base = case["base"]
    exprs = [()] + [((op, o),) for op in OPS for o in OPERANDS] + [((case["op"], o), (op2, o2)) for o in OPERANDS for op2 in OPS for o2 in OPERANDS]
    dims = []
    w.set(0)
    for e in exprs:
        vals = []
        for n in range(3):
            w.n = n
            try:
                vals.append(_values(w, base, e))
            except Skip:
                vals.append(None)
        w.n = 0
        if vals[0] is None:
            continue
        d, _ = _build(w, base, e)
        dims.append((e, d, vals))
    neq = 0
    for (e1, d1, v1), (e2, d2, v2) in itertools.combinations(dims, 2):
        eq = d1 == d2
        expect(eq == (d2 == d1), lambda: f"equality not symmetric: {_expr_str(base, e1)}, {_expr_str(base, e2)}")
        ctx.trans()
        if eq and d1.dimension is None:
            neq += 1
            for a, b in zip(v1, v2):
                if a is not None and b is not None:
                    aa = a if isinstance(a, list) else [a] * 6
                    bb = b if isinstance(b, list) else [b] * 6
                    expect(aa == bb, lambda: f"{_expr_str(base, e1)} == {_expr_str(base, e2)}, but sizes {a} vs {b}")
            expect(hash(d1) == hash(d2), lambda: f"{_expr_str(base, e1)} == {_expr_str(base, e2)}, but hashes differ")
        elif eq:
            expect(d2.dimension == d1.dimension, lambda: f"{_expr_str(base, e1)} == {_expr_str(base, e2)}, but {d1.dimension} vs {d2.dimension}")
            expect(hash(d1) == hash(d2), lambda: f"{_expr_str(base, e1)} == {_expr_str(base, e2)}, but hashes differ")
        expect(not (eq and d1 != d2), "== and !=")
    ctx.count("equal_pairs", neq)
    ctx.state((base, case["op"]))
    ctx.trace()


def _case_identities(case, ctx):
    """documented: undoing an op gives the same dim back"""
    for n in range(3):
        for a in (1, 2, 3, "s2", "s3", "U"):
            w = World()
            w.set(n)
            o = w.dim(a)
            T = w.T
            for name, d in [
                ("T+a-a", lambda: (T + o).sub_right(o)), ("a+T left-minus a", lambda: (o + T).sub_left(o)), ("(T-a)+a", lambda: T.sub_right(o) + o), ("a+(T left-minus a)", lambda: o + T.sub_left(o)),
                ("T*a/a", lambda: (T * o).div_right(o)), ("T*a//a", lambda: (T * o) // o), ("T*a ceildiv a", lambda: (T * o).ceildiv_right(o)), ("a*T left div a", lambda: (o * T).div_left(o)),
                ("a+T+a-a-a", lambda: (o + T + o).sub_left(o).sub_right(o)),
            ]:  # fmt: skip
                r = d()
                expect(r == T, lambda: f"{name} for a={a} is {r}, not the same as T")
                ctx.trans()
            if isinstance(a, int):
                expect(T + a + 1 == T + (a + 1), lambda: f"T+{a}+1 is not T+{a+1}")
                expect(T - a - 1 == T - (a + 1), lambda: f"T-{a}-1 is not T-{a+1}")
                expect(T + a != T and T - a != T and T * (a + 1) != T and T // (a + 1) != T, lambda: f"derived dim (a={a}) is equal to T")
            expect(T + o == T + o and T // o == T // o, "not deterministic")
            ctx.state(("id", n, a))
    ctx.trace()


def run_case(case, ctx):
    globals()["_case_" + case["t"]](case, ctx)
    ctx.outcome((case["t"], case.get("base"), str(case.get("first", case.get("op")))))
    ctx.sample(case)


if __name__ == "__main__":
    harness.main(__name__)
