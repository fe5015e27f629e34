"""C35: loops: rf.while_loop / rf.scan / rf.cond / TensorArray run each sequence exactly for its own length, as a plain Python loop would."""
import itertools
from vlib import harness, rft
from vlib.harness import Violation, expect, expect_eq

PID = "C35"
LEVEL = "model_checking"
RULE = (
    "case = (kind of loop, structure of state/outputs, axis order); run_case enumerates all length resp. stop-condition tuples within the bound and runs the loop on the real code;"
    " oracle = a plain Python loop per sequence; state = (program, lengths); transition = loop iteration"
)
BOUNDS = {
    "quick": "batch 1..3 with all length tuples over 0..3 (batch 3: 0..2); all stop conditions over 0..3; max_seq_len none/0..4 as int and tensor; state as tensor/tuple/dict/with None; nested loops; loops with a growing dim; all TensorArray op sequences up to depth 5; cond with all predicates",
    "thorough": "batch 3 over 0..4, batch 4 over 0..2, depth 6",
}
ASSUMPTIONS = ["torch backend (eager)", "a TensorArray is used linearly (an older version of it is not used any more after push_back)"]


def parent_init():
    rft.init(24)


def _lens(tier):
    t = tier != "quick"
    for b, m in ((1, 4 if t else 3), (2, 4 if t else 3), (3, 4 if t else 2)) + (((4, 2),) if t else ()):
        yield from itertools.product(range(m + 1), repeat=b)


def gen_cases(tier):
    for order in ("BT", "TB"):
        for feat in (False, True):
            for st in ("single", "tuple", "dict", "none"):
                for dim in ("dyn", "static", "scalar"):
                    yield dict(t="scan", order=order, feat=feat, st=st, dim=dim, tier=tier)
    for before in (True, False):
        for mx in (None, 0, 1, 2, 3, 4):
            for mt in ("int", "tensor") if mx is not None else ("int",):
                for given in (False, True):
                    yield dict(t="scancond", before=before, mx=mx, mt=mt, given=given, tier=tier)
    for order in ("BT", "TB"):
        yield dict(t="nested", order=order, tier=tier)
    for k in range(5):
        yield dict(t="while", n=k, tier=tier)
    yield dict(t="grow", tier=tier)
    for depth in range(0, 6 if tier == "quick" else 7):
        yield dict(t="ta", depth=depth, tier=tier)
    yield dict(t="cond", tier=tier)


def _pack(st, a, b):
    return {"single": a, "tuple": (a, b), "dict": {"x": a, "y": {"z": b}}, "none": (a, None, b)}[st]


def _unpack(st, s):
    if st == "single":
        return s, None
    if st == "tuple":
        return s
    if st == "dict":
        return s["x"], s["y"]["z"]
    assert s[1] is None
    return s[0], s[2]


def _get(t, dims, what):
    try:
        return rft.get(t, dims)
    except ValueError as e:
        raise Violation(f"{what}: {e}")


def _case_scan(case, ctx):
    import returnn.frontend as rf
    from returnn.tensor import Tensor

    st = case["st"]
    B0 = None
    for lens in _lens(case["tier"]):
        if case["dim"] != "dyn" and len(set(lens)) != 1:
            continue
        B = rft.static(len(lens), "B")
        F = rft.static(2, "F")
        if case["dim"] == "dyn":
            T = rft.dyn(list(lens), [B], "T")
        elif case["dim"] == "static":
            T = rft.static(lens[0], "T")
        else:
            T = rft.dyn(lens[0], [], "T")
        dims = [B, T] if case["order"] == "BT" else [T, B]
        fd = [F] if case["feat"] else []
        f = lambda i: sum(v * m for v, m in zip(i, (7, 5, 3))) + 1
        x = rft.mk(dims + fd, f, dtype="int64", pad=-99)
        x2 = rft.mk([T], lambda i: 100 + i[0], dtype="int64", pad=-99) if case["dim"] != "dyn" else rft.mk([T, B], lambda i: 100 + i[0], dtype="int64", pad=-99)
        init_a = rft.mk([B] + fd, lambda i: 1 + i[0], dtype="int64")
        init_b = rft.mk([B], lambda i: 2 + i[0], dtype="int64")
        calls = [0]

        def body(xs, s):
            calls[0] += 1
            xa, xb = xs["a"], xs["b"]
            a, b = _unpack(st, s)
            a2 = a * 3 + xa
            b2 = None if b is None else b * 2 + xb
            ya = a2 - a  # uses old and new
            yb = xa * 2
            return _pack(st, ya, yb), _pack(st, a2, b2)

        tmpl = Tensor("y", [B] + fd, "int64")
        ys, fin, out_dim = rf.scan(spatial_dim=T, initial=_pack(st, init_a, init_b), xs={"a": x, "b": x2}, ys=_pack(st, tmpl, Tensor("y2", [B] + fd, "int64")), body=body)
        info = f"{case} lens {lens}"
        expect(out_dim is T or out_dim == T, lambda: f"{info}: returned dim {out_dim}")
        expect_eq(calls[0], max(lens, default=0), f"{info}: number of iterations")
        xv = _get(x, [B, T] + fd, info)
        # oracle
        fidx = [()] if not fd else [(0,), (1,)]
        ya, yb = _unpack(st, ys)
        exp_a, exp_b, exp_ya, exp_yb = {}, {}, {}, {}
        for i, n in enumerate(lens):
            b = 2 + i
            for t in range(n):
                b = b * 2 + 100 + t
            exp_b[(i,)] = b
            for fi in fidx:
                a = 1 + i
                for t in range(n):
                    a_ = a * 3 + xv[(i, t) + fi]
                    exp_ya[(i, t) + fi] = a_ - a
                    exp_yb[(i, t) + fi] = xv[(i, t) + fi] * 2
                    a = a_
                exp_a[(i,) + fi] = a
        fa, fb = _unpack(st, fin)
        for got, exp, dd, w in ((fa, exp_a, [B] + fd, "final state"), (fb, exp_b, [B], "final state 2"), (ya, exp_ya, [B, T] + fd, "ys"), (yb, exp_yb, [B, T] + fd, "ys 2")):
            if st == "single" and w.endswith("2"):
                continue
            d = rft.diff(_get(got, dd, f"{info} {w}"), exp)
            if d:
                raise Violation(f"{info}: {w} {d}")
            expect_eq(got.dtype, "int64", f"{info}: {w} dtype")
        ctx.trans(calls[0] + 1)
        ctx.trace()
        ctx.state(("scan", str(case), lens))
        ctx.outcome(("scan", calls[0], str(sorted(exp_a.values()))))


def _run_cond(limits, case):
    import returnn.frontend as rf
    from returnn.tensor import Tensor, Dim
    import torch

    B = rft.static(len(limits), "B")
    lim = rft.mk([B], lambda i: limits[i[0]], dtype="int64")
    init = (rft.mk([B], lambda i: 0, dtype="int64"), rft.mk([B], lambda i: limits[i[0]] + 1, dtype="int64"))
    calls = [0]

    def cond(xs, s):
        assert xs is None
        return s[0] < lim

    def body(xs, s):
        assert xs is None
        calls[0] += 1
        n, v = s
        v2 = v * 2 + n
        return (v2, n), (n + 1, v2)

    mx = case["mx"]
    if mx is not None and case["mt"] == "tensor":
        mx = Tensor("mx", [], "int32", raw_tensor=torch.tensor(mx, dtype=torch.int32))
    T = Dim(None, name="T") if case["given"] else None
    ys, fin, T2 = rf.scan(
        spatial_dim=T, cond_dims=[B], cond_before_body=case["before"], initial=init, cond=cond, body=body, max_seq_len=mx, ys=(Tensor("y", [B], "int64"), Tensor("n", [B], "int64"))
    )
    if case["given"]:
        expect(T2 is T or T2 == T, f"{case}: returned another dim {T2} than given {T}")
    return B, T2, ys, fin, calls[0]


def _case_scancond(case, ctx):
    for limits in _lens(case["tier"]):
        info = f"{case} limits {limits}"
        B, T, ys, fin, calls = _run_cond(limits, case)
        mx = 10**6 if case["mx"] is None else case["mx"]
        lens = [min(mx, n if case["before"] else max(1, n)) for n in limits]
        expect_eq([rft.dim_len(T, {B: i}) for i in range(len(limits))], lens, f"{info}: lengths")
        expect_eq(calls, max(lens), f"{info}: number of iterations")
        exp_v, exp_n = {}, {}
        for i, n in enumerate(lens):
            v = limits[i] + 1
            for t in range(n):
                v = v * 2 + t
                exp_v[(i, t)] = v
                exp_n[(i, t)] = t
        for got, exp, w in ((ys[0], exp_v, "ys"), (ys[1], exp_n, "ys 2")):
            d = rft.diff(_get(got, [B, T], f"{info} {w}"), exp)
            if d:
                raise Violation(f"{info}: {w} {d}")
        # the final state of an entry does not depend on the other entries (unless cut by max_seq_len, which is common)
        f0, f1 = (_get(x, [B], info) for x in fin)
        for i, n in enumerate(limits):
            B1, T1, _, fin1, _ = _run_cond((n,), case)
            g0, g1 = (_get(x, [B1], info) for x in fin1)
            expect_eq((f0[(i,)], f1[(i,)]), (g0[(0,)], g1[(0,)]), f"{info}: final state of entry {i} vs this entry alone")
            seq = [(0, limits[i] + 1)]
            for t in range(lens[i]):
                seq.append((t + 1, seq[-1][1] * 2 + t))
            expect((f0[(i,)], f1[(i,)]) in seq[-2:], lambda: f"{info}: final state of entry {i} {(f0[(i,)], f1[(i,)])}, not the last or before-last of {seq}")
            if lens[i] and lens[i] < (n if case["before"] else max(1, n)):  # cut by max_seq_len: still running
                expect_eq((f0[(i,)], f1[(i,)]), seq[-1], f"{info}: final state of entry {i} cut by max_seq_len")
        ctx.trans(calls + 1)
        ctx.trace()
        ctx.state(("cond", str(case), limits))
        ctx.outcome(("cond", tuple(lens), calls))


def _case_nested(case, ctx):
    """scan over T, inside scan over S, both ragged"""
    import returnn.frontend as rf
    from returnn.tensor import Tensor

    for b in (1, 2):
        for tl in itertools.product(range(0, 3), repeat=b):
            for sl in itertools.product(range(0, 3), repeat=b):
                B = rft.static(b, "B")
                T = rft.dyn(list(tl), [B], "T")
                S = rft.dyn(list(sl), [B], "S")
                x = rft.mk([B, T] if case["order"] == "BT" else [T, B], lambda i: 1 + i[0] * 3 + i[1] * 2, dtype="int64", pad=-50)
                z = rft.mk([S, B] if case["order"] == "BT" else [B, S], lambda i: 2 + i[0] + i[1] * 4, dtype="int64", pad=-70)

                def body(x_, s):
                    def inner(z_, s2):
                        s3 = s2 * 2 + z_ + x_
                        return s3, s3

                    ys2, s2, _ = rf.scan(spatial_dim=S, initial=s, xs=z, ys=Tensor("i", [B], "int64"), body=inner)
                    return ys2, s2

                ys, fin, _ = rf.scan(spatial_dim=T, initial=rft.mk([B], lambda i: 1, dtype="int64"), xs=x, ys=Tensor("o", [B, S], "int64"), body=body)
                info = f"{case} T {tl} S {sl}"
                xv, zv = _get(x, [B, T], info), _get(z, [B, S], info)
                ey, ef = {}, {}
                for i in range(b):
                    s = 1
                    for t in range(tl[i]):
                        for u in range(sl[i]):
                            s = s * 2 + zv[(i, u)] + xv[(i, t)]
                            ey[(i, t, u)] = s
                    ef[(i,)] = s
                for got, exp, dd in ((ys, ey, [B, T, S]), (fin, ef, [B])):
                    d = rft.diff(_get(got, dd, info), exp)
                    if d:
                        raise Violation(f"{info}: {d}")
                ctx.trans(sum(tl) * sum(sl) + 1)
                ctx.trace()
                ctx.state(("nested", case["order"], tl, sl))


def _case_while(case, ctx):
    import returnn.frontend as rf
    from returnn.tensor import Tensor, Dim
    import torch

    n = case["n"]
    for kind in ("bool", "tensor"):
        for st in ("single", "tuple", "dict", "none"):
            for a0 in range(0, 4):
                i0 = Tensor("i", [], "int64", raw_tensor=torch.tensor(a0))
                v0 = Tensor("v", [], "int64", raw_tensor=torch.tensor(5))
                log = []

                def cond(s):
                    c = _unpack(st, s)[0] < n
                    log.append("c")
                    return bool(c.raw_tensor) if kind == "bool" else c

                def body(s):
                    log.append("b")
                    a, b = _unpack(st, s)
                    return _pack(st, a + 1, None if b is None else b * 2 + a)

                r = rf.while_loop(cond, body, _pack(st, i0, v0))
                a, b = _unpack(st, r)
                i, v, el = a0, 5, ["c"]
                while i < n:
                    v = v * 2 + i
                    i += 1
                    el += ["b", "c"]
                expect_eq(log, el, f"{case} {kind} {st} start {a0}: calls")
                expect_eq(int(a.raw_tensor), i, f"{case} {kind} {st} start {a0}: loop var")
                if b is not None:
                    expect_eq(int(b.raw_tensor), v, f"{case} {kind} {st} start {a0}: loop var 2")
                ctx.trans(len(log))
                ctx.trace()
                ctx.state(("while", n, kind, st, a0))


def _case_grow(case, ctx):
    """a history with a dim which grows each iteration (as in decoding with attention over the own history)"""
    from returnn.frontend.tensor_array import TensorArray
    import returnn.frontend as rf
    from returnn.tensor import Tensor, Dim
    import torch

    for b in (1, 2):
        for start in itertools.product(range(0, 3), repeat=b):
            for n in range(0, 4):
                for order in (0, 1):
                    B = rft.static(b, "B")
                    H = rft.dyn(list(start), [B], "H")
                    h = rft.mk([B, H] if order == 0 else [H, B], lambda i: 1 + i[0] * 5 + i[1] * 2, dtype="int64", pad=-33)
                    hv = _get(h, [B, H], "h")
                    ta = TensorArray(Tensor("y", [B, H], "int64"))
                    sums = TensorArray(Tensor("z", [B], "int64"))

                    def body(s):
                        i, h, H, ta, sums = s
                        su = rf.reduce_sum(h, axis=H)
                        new = su * 2 + rf.cast(i, "int64")
                        h2, H2 = rf.cum_concat_step(new, prev_accum=h, axis=H)
                        return i + 1, h2, H2, ta.push_back(h2), sums.push_back(su)

                    i0 = Tensor("i", [], "int32", raw_tensor=torch.tensor(0, dtype=torch.int32))
                    i, h2, H2, ta, sums = rf.while_loop(lambda s: s[0] < n, body, (i0, h, H, ta, sums))
                    info = f"{case} batch {b} start {start} n {n} order {order}"
                    exp, hist = {}, []
                    cur = [[hv[(k, j)] for j in range(start[k])] for k in range(b)]
                    esums = {}
                    for t in range(n):
                        for k in range(b):
                            esums[(t, k)] = sum(cur[k])
                            cur[k].append(sum(cur[k]) * 2 + t)
                        hist.append([list(c) for c in cur])
                    d = rft.diff(_get(h2, [B, H2], info), {(k, j): v for k in range(b) for j, v in enumerate(cur[k])})
                    if d:
                        raise Violation(f"{info}: final history {d}")
                    for t in range(n):
                        it = ta[t]
                        Ht = [x for x in it.dims if x != B]
                        expect(len(Ht) == 1, f"{info}: dims {it.dims}")
                        d = rft.diff(_get(it, [B, Ht[0]], info), {(k, j): v for k in range(b) for j, v in enumerate(hist[t][k])})
                        if d:
                            raise Violation(f"{info}: history of iteration {t} {d}")
                    N = rft.static(n, "N")
                    d = rft.diff(_get(sums.stack(axis=N), [N, B], info), esums)
                    if d:
                        raise Violation(f"{info}: stacked {d}")
                    ctx.trans(n + 1)
                    ctx.trace()
                    ctx.state(("grow", b, start, n, order))


def _case_ta(case, ctx):
    """all op sequences: start by unstack (any axis order) or empty; push (2 dim orders), get (int/tensor index), stack"""
    from returnn.frontend.tensor_array import TensorArray
    import returnn.frontend as rf
    from returnn.tensor import Tensor
    import torch

    B, F = rft.static(2, "B"), rft.static(3, "F")
    for start in (None, 0, 1, 2):
        for ops in itertools.product(("p0", "p1", "get", "stack"), repeat=case["depth"]):
            for order in range(3) if start is not None else (0,):
                vals = []  # python lists {(b,f): v}
                if start is None:
                    ta = TensorArray(Tensor("x", [B, F], "int64"))
                else:
                    N = rft.static(start, "N")
                    dd = ([N, B, F], [B, N, F], [F, B, N])[order]
                    x = rft.mk(dd, lambda i: 1 + i[0] * 9 + i[1] * 4 + i[2], dtype="int64")
                    xv = rft.get(x, [N, B, F])
                    ta = TensorArray.unstack(x, axis=N)
                    vals = [{(b, f): xv[(n, b, f)] for b in range(2) for f in range(3)} for n in range(start)]
                info = f"start {start} order {order} ops {ops}"
                for op in ops + ("get", "stack"):
                    if op[0] == "p":
                        k = len(vals) * 100 + 7
                        t = rft.mk([B, F] if op == "p0" else [F, B], lambda i: k + i[0] * 10 + i[1], dtype="int64")
                        ta = ta.push_back(t)
                        vals.append(rft.get(t, [B, F]))
                    elif op == "get":
                        for i in range(len(vals)):
                            for ix in (i, Tensor("i", [], "int32", raw_tensor=torch.tensor(i, dtype=torch.int32))):
                                d = rft.diff(_get(ta[ix], [B, F], info), vals[i])
                                if d:
                                    raise Violation(f"{info}: get {i}: {d}")
                    else:
                        M = rft.static(len(vals), "M")
                        r = ta.stack(axis=M)
                        d = rft.diff(_get(r, [M, B, F], info), {(i,) + k: v for i, e in enumerate(vals) for k, v in e.items()})
                        if d:
                            raise Violation(f"{info}: stack: {d}")
                        expect_eq(r.dtype, "int64", f"{info}: stack dtype")
                    ctx.trans(1)
                ctx.trace()
                ctx.state(("ta", start, order, ops))
                ctx.outcome(("ta", start, len(vals)))


def _case_cond(case, ctx):
    import returnn.frontend as rf
    from returnn.tensor import Tensor
    import torch

    for kind in ("bool", "tensor", "nested"):
        for p, q in itertools.product((False, True), repeat=2):
            log = []

            def mkp(v):
                return v if kind == "bool" else Tensor("p", [], "bool", raw_tensor=torch.tensor(v))

            def leaf(name, v):
                def f():
                    log.append(name)
                    return {"v": Tensor("v", [], "int64", raw_tensor=torch.tensor(v))}

                return f

            if kind == "nested":
                r = rf.cond(mkp(p), lambda: rf.cond(mkp(q), leaf("tt", 3), leaf("tf", 2)), lambda: rf.cond(mkp(q), leaf("ft", 1), leaf("ff", 0)))
                e = ("t" if p else "f") + ("t" if q else "f"), p * 2 + q
            else:
                r = rf.cond(mkp(p), leaf("t", 1), leaf("f", 0))
                e = ("t" if p else "f"), int(p)
            expect_eq((log, int(r["v"].raw_tensor)), ([e[0]], e[1]), f"cond {kind} {p} {q}")
            ctx.trans(1)
            ctx.trace()
            ctx.state(("if", kind, p, q))


def run_case(case, ctx):
    globals()["_case_" + case["t"]](case, ctx)
    ctx.outcome((case["t"], str({k: v for k, v in case.items() if k != "tier"})))
    ctx.sample(case)


if __name__ == "__main__":
    harness.main(__name__)
