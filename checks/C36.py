"""C36: TF RecLayer: whatever subnetwork and however it is optimized, each sequence gets what the step-by-step definition of the subnetwork gives."""
import itertools
from vlib import harness, tfnet
from vlib.harness import Violation, expect, expect_eq

PID = "C36"
LEVEL = "model_checking"
RULE = (
    "case = a set of subnetworks (all data flow graphs of the given size and layer kinds); each is built as a real RecLayer, once with and once without moving layers out of the loop, and run on one batch with sequences of all lengths and garbage in the padding;"
    " oracle = step-by-step interpretation of the subnetwork in Python per sequence; state = (graph, kinds, options); transition = loop step"
)
BOUNDS = {
    "quick": "all graphs with 2 nodes, 1-2 inputs each out of {source, previous frame of any node, earlier nodes} for every pair of 8 layer kinds; all graphs with 3 nodes of kind eval; initial_output 0 or 2; lengths 0..5 in one batch",
    "thorough": "3 nodes with all layer kinds",
}
ASSUMPTIONS = ["CPU, float32 with small integer values (exact)", "behavior_version 22"]

LENS = [5, 3, 0, 1, 4, 2]
SRC = "data:source"


def parent_init():
    tfnet.init()


def _inputs(i, n):
    return [SRC] + [f"prev:n{j}" for j in range(n)] + [f"n{j}" for j in range(i)]


def _subsets(xs, kmax=2):
    for k in range(1, kmax + 1):
        yield from itertools.combinations(xs, k)


KINDS = ("eval", "add", "cumsum", "window", "step", "base", "masked", "subnet")
UNARY = ("cumsum", "window", "step", "masked", "subnet", "base")


def graphs(n, kinds):
    """:return: list of nets: list of (kind, inputs). only those where the output (last) depends on all nodes"""
    per = []
    for i in range(n):
        per.append([(k, ins) for k in kinds[i] for ins in _subsets(_inputs(i, n)) if (k in UNARY) == (len(ins) == 1) or k == "eval"])
    for g in itertools.product(*per):
        reach, todo = {n - 1}, [n - 1]
        while todo:
            for x in g[todo.pop()][1]:
                if x != SRC and int(x[-1]) not in reach:
                    reach.add(int(x[-1]))
                    todo.append(int(x[-1]))
        dep = set()  # nodes which depend on the source
        while True:
            new = {i for i in range(n) if any(x == SRC or int(x[-1]) in dep for x in g[i][1])}
            if new == dep:
                break
            dep = new
        if len(reach) == n and len(dep) == n:
            yield g


def gen_cases(tier):
    opts = []
    for kk in itertools.product(KINDS, repeat=2):
        opts.append(dict(n=2, kinds=[[k] for k in kk], opt=[True, False] if tier != "quick" else [True], init=0))
    opts.append(dict(n=2, kinds=[["eval"], ["eval"]], opt=[False], init=0))
    opts.append(dict(n=2, kinds=[["eval"], ["eval"]], opt=[True], init=2))
    opts.append(dict(n=2, kinds=[["eval"], ["eval"]], opt=[True], init=0, dir=-1, only=1))
    opts.append(dict(n=2, kinds=[["eval"], ["eval"]], opt=[True], init=0, out0=True))
    if tier == "quick":
        opts.append(dict(n=3, kinds=[["eval"]] * 3, opt=[True], init=0, sub=4))
    else:
        opts.append(dict(n=3, kinds=[["eval"]] * 3, opt=[True, False], init=0))
        for kk in itertools.product(KINDS, repeat=2):
            opts.append(dict(n=3, kinds=[[kk[0]], [kk[1]], ["eval"]], opt=[True], init=0))
    for o in opts:
        m = sum(1 for _ in graphs(o["n"], o["kinds"]))
        step = 30
        if "only" in o:
            m = o["only"]
        for s in range(0, m, step):
            yield dict(o, start=s, stop=min(m, s + step))


def _layers(g, case):
    """net dict of the rec unit"""
    d = {}
    for i, (kind, ins) in enumerate(g):
        ins = list(ins)
        n = f"n{i}"
        io = {"initial_output": case["init"]} if case["init"] else {}
        if kind == "eval":
            e = " + ".join(f"source({k}) * {k + 2}" for k in range(len(ins)))
            d[n] = dict({"class": "eval", "from": ins, "eval": f"tf.math.floormod({e} + 1, 7)"}, **io)
        elif kind == "add":
            d[n] = dict({"class": "combine", "kind": "add", "from": ins}, **io)
            # keep it small
            d[n] = {"class": "combine", "kind": "maximum", "from": ins}
        elif kind == "cumsum":
            d[n] = {"class": "cumsum", "from": ins}
        elif kind == "window":
            d[n + "w"] = {"class": "window", "from": ins, "window_size": 2, "window_right": 0}
            d[n] = {"class": "reduce", "mode": "max", "axis": "stag:window", "from": n + "w"}
        elif kind == "step":
            d[n] = {"class": "eval", "from": ins + [":i"], "eval": "source(0) + tf.cast(source(1), tf.float32)"}
        elif kind == "base":
            d[n] = {"class": "combine", "kind": "add", "from": ins + ["base:enc"]}
        elif kind == "masked":
            d["mask0"] = {"class": "reduce", "mode": "max", "axis": "F", "from": SRC}
            d["mask"] = {"class": "compare", "kind": "greater", "value": 3, "from": "mask0"}
            d[n + "m"] = {"class": "masked_computation", "mask": "mask", "from": ins, "unit": {"class": "eval", "from": "data", "eval": "source(0) + 1"}}
            d[n] = {"class": "unmask", "from": n + "m", "mask": "mask"}
        elif kind == "subnet":
            d[n] = {
                "class": "subnetwork",
                "from": ins,
                "subnetwork": {
                    "x": {"class": "eval", "from": ["data", "prev:x"], "eval": "tf.math.floormod(source(0) + source(1) * 2, 5)"},
                    "output": {"class": "eval", "from": ["x", "data"], "eval": "source(0) - source(1)"},
                },
            }
        else:
            raise Exception(kind)
    d["output"] = {"class": "copy", "from": f"n{len(g) - 1}"}
    if case.get("out0"):
        d["n0"]["is_output_layer"] = True
    return d


def _ref(g, case, x, enc):
    """:param x: list of [F] lists; :return: list of node values per step, each {node: [F]}"""
    n = len(g)
    F = len(enc)
    prev = {i: [float(case["init"] if g[i][0] == "eval" else 0)] * F for i in range(n)}
    aux = {}
    out = []
    for t in range(len(x)):
        cur = {}

        def val(s):
            if s == SRC:
                return x[t]
            return prev[int(s[-1])] if s.startswith("prev:") else cur[int(s[-1])]

        for i, (kind, ins) in enumerate(g):
            v = [val(s) for s in ins]
            if kind == "eval":
                cur[i] = [(sum(v[k][f] * (k + 2) for k in range(len(v))) + 1) % 7 for f in range(F)]
            elif kind == "add":
                cur[i] = [max(a, b) for a, b in zip(*v)]
            elif kind == "cumsum":
                aux[i] = [a + b for a, b in zip(aux.get(i, [0] * F), v[0])]
                cur[i] = aux[i]
            elif kind == "window":
                p = aux.get(i, [0] * F)
                cur[i] = [max(a, b) for a, b in zip(p, v[0])]
                aux[i] = v[0]
            elif kind == "step":
                cur[i] = [a + t for a in v[0]]
            elif kind == "base":
                cur[i] = [a + e for a, e in zip(v[0], enc)]
            elif kind == "masked":
                if max(x[t]) > 3:
                    aux[i] = [a + 1 for a in v[0]]
                cur[i] = aux.get(i, [0.0] * F)
            elif kind == "subnet":
                xx = [(a + b * 2) % 5 for a, b in zip(v[0], aux.get(i, [0] * F))]
                aux[i] = xx
                cur[i] = [a - b for a, b in zip(xx, v[0])]
        out.append(cur)
        prev = cur
    return out


def _data():
    import numpy

    F = 2
    x = numpy.full((len(LENS), max(LENS), F), 1000.0, dtype="float32")
    for b, l in enumerate(LENS):
        for t in range(l):
            for f in range(F):
                x[b, t, f] = (b * 5 + t * 3 + f * 2 + (b * t) % 4) % 7
    enc = numpy.array([[b % 3, (b + 1) % 4] for b in range(len(LENS))], dtype="float32")
    return x, enc


def run_case(case, ctx):
    import numpy

    x, enc = _data()
    direction = case.get("dir", 1)
    for g in itertools.islice(graphs(case["n"], case["kinds"]), case["start"], case["stop"]):
        for opt in case["opt"]:
            unit = _layers(g, case)
            info = f"unit {g} optimize {opt} init {case['init']} direction {direction}"
            nd = {
                "enc": {"class": "copy", "from": "data:enc"},
                "output": dict({"class": "rec", "from": "data", "unit": unit, "optimize_move_layers_out": opt}, **({"direction": -1} if direction == -1 else {})),
            }
            try:
                net = tfnet.Net(nd, {"data": {"dim": 2}, "enc": {"dim": 2, "shape": (2,), "time_dim_axis": None, "available_for_inference": True}})
            except AssertionError as e:
                if "currently cannot use both cur + prev frame" in str(e):  # documented limitation
                    ctx.count("refused")
                    continue
                raise
            with net:
                wanted = ["output"] + (["output/n0"] if case.get("out0") else [])
                res = net.run(wanted, net.feed(data=(x, LENS), enc=(enc, None)))
            for name in wanted:
                v, sizes = res[name]
                expect_eq([list(s) for s in sizes.values()], [LENS], f"{info}: lengths of {name}")
                node = len(g) - 1 if name == "output" else 0
                for b, l in enumerate(LENS):
                    seq = x[b, :l].tolist()
                    if direction == -1:
                        seq = seq[::-1]
                    exp = [s[node] for s in _ref(g, case, seq, enc[b].tolist())]
                    if direction == -1:
                        exp = exp[::-1]
                    got = v[b, :l].tolist()
                    if direction == -1 and got != exp and got == [s[node] for s in _ref(g, case, seq[::-1], enc[b].tolist())]:
                        raise Violation(f"{info}: direction is ignored", key="rec-subnet-direction-ignored")
                    expect(len(got) == len(exp) and all(abs(a - e) < 1e-4 for r, s in zip(got, exp) for a, e in zip(r, s)), lambda: f"{info}: {name} of seq {b} is {got}, the definition gives {exp}; source {x[b, :l].tolist()}")
            ctx.trans(sum(LENS))
            ctx.trace()
            ctx.state((g, opt, case["init"], direction, case.get("out0")))
            ctx.outcome(hash(v[0].tobytes()))
    ctx.sample(dict(case))


if __name__ == "__main__":
    harness.main(__name__)
