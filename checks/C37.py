"""C37: TF beam search: the result is exactly that of the definition of beam search; states and outputs belong to the right hypothesis."""
import itertools, math
from vlib import harness, tfnet
from vlib.harness import Violation, expect, expect_eq

PID = "C37"
LEVEL = "model_checking"
RULE = (
    "case = (net variant, beam size, max length, normalization, options, chunk of tables); all score tables of the bound are one batch; each is decoded by the real rec+choice+decide layers;"
    " oracle = beam search in plain Python which carries the whole history of each hypothesis; state = (variant, options, table); transition = decoding step"
)
BOUNDS = {
    "quick": "3 labels (0 = end of sequence), all 216 combinations of row permutations of the scores (made tie-free), beam 1..5, max length 1..4, with/without length normalization, scores depending on: previous label, own recurrent state (eval / cumsum / window / subnetwork), two sources, two choices per step",
    "thorough": "also 3^5 step dependent tables, max length 5, beam 7",
}
ASSUMPTIONS = ["entries where two candidates have (almost) the same score are skipped (the choice between them is not defined)", "CPU"]

V = 3
PERMS = list(itertools.permutations([-0.4, -1.3, -2.7]))


def parent_init():
    tfnet.init()


VARIANTS = ("markov", "hist", "cumsum", "window", "subnet", "step", "twosrc", "twochoice")


def gen_cases(tier):
    q = tier == "quick"
    for var in VARIANTS:
        for beam in (1, 2, 3, 5) if q else (1, 2, 3, 4, 5, 7):
            for mx in (2, 4) if q else (1, 2, 3, 4, 5):
                for norm in (False, True) if var != "twochoice" else (False,):
                    yield dict(var=var, beam=beam, mx=mx, norm=norm)
    for mx in (1, 3):
        yield dict(var="markov", beam=2, mx=mx, norm=False)
    for t in ("prob", "logits"):
        yield dict(var="markov", beam=3, mx=3, norm=False, type=t)
    yield dict(var="markov", beam=3, mx=3, norm=False, scale=(0.5, 1.0))
    yield dict(var="hist", beam=3, mx=3, norm=False, scale=(1.0, 0.5))
    yield dict(var="hist", beam=3, mx=3, norm=False, decnorm=True)
    yield dict(var="hist", beam=3, mx=4, norm=False, eos=True)
    yield dict(var="hist", beam=3, mx=4, norm=False, opt=False)


def tables():
    """:return: list of V x V tables"""
    eps = [math.sqrt(p) for p in (2, 3, 5, 7, 11, 13, 17, 19, 23)]
    out = []
    for rows in itertools.product(PERMS, repeat=V):
        out.append([[rows[r][c] - 0.013 * eps[r * V + c] for c in range(V)] for r in range(V)])
    return out


def _net(case):
    var, beam = case["var"], case["beam"]
    choice = {"class": "choice", "target": "classes", "beam_size": beam, "initial_output": 0, "from": "score", "input_type": case.get("type", "log_prob"), "length_normalization": case["norm"]}
    if "scale" in case:
        choice["prob_scale"], choice["base_beam_score_scale"] = case["scale"]
    unit = {
        "row": {"class": "gather", "from": "base:data", "position": "prev:output", "axis": "stag:row"},
        "score": {"class": "copy", "from": "row"},
        "output": choice,
        "end": {"class": "compare", "from": "output", "value": 0},
    }
    # "bonus": [B] int -> +0.37 for the label == bonus
    bonus = {"class": "eval", "from": ["row", "bonus"], "eval": "source(0) + 0.37 * tf.one_hot(source(1, auto_convert=False), %d)" % V}
    if var == "hist":
        unit["h"] = {"class": "eval", "from": ["prev:h", "output"], "eval": "tf.math.floormod(source(0) * 2 + source(1) + 1, 5)", "out_type": {"dtype": "int32", "sparse": False, "sparse_dim": None, "dim": None, "feature_dim": None, "shape": ()}, "initial_output": 0, "is_output_layer": True}
        unit["bonus"] = {"class": "eval", "from": "prev:h", "eval": "tf.math.floormod(source(0), 3)"}
        unit["score"] = bonus
    elif var in ("cumsum", "window", "subnet"):
        unit["oi"] = {"class": "eval", "from": "output", "eval": "tf.cast(source(0), tf.float32)", "out_type": {"dtype": "float32", "sparse": False, "sparse_dim": None, "dim": None, "feature_dim": None, "shape": ()}}
        unit["of"] = {"class": "expand_dims", "from": "oi", "axis": "f"}
        if var == "cumsum":
            unit["h"] = {"class": "cumsum", "from": "of", "is_output_layer": True}
        elif var == "window":
            unit["hw"] = {"class": "window", "from": "of", "window_size": 2, "window_right": 0}
            unit["h"] = {"class": "reduce", "mode": "sum", "axis": "stag:window", "from": "hw", "is_output_layer": True}
        else:
            unit["h"] = {"class": "subnetwork", "from": "of", "is_output_layer": True, "subnetwork": {"x": {"class": "eval", "from": ["data", "prev:x"], "eval": "source(0) * 2 + source(1)"}, "output": {"class": "eval", "from": "x", "eval": "source(0) + 1"}}}
        unit["bonus"] = {"class": "eval", "from": "hp", "eval": "tf.math.floormod(tf.cast(source(0), tf.int32), 3)", "out_type": {"dtype": "int32"}}
        unit["hp"] = {"class": "squeeze", "from": "prev:h", "axis": "f"}
        unit["score"] = bonus
    elif var == "step":
        unit["score"] = {"class": "eval", "from": ["row", ":i"], "eval": "source(0) + 0.37 * tf.one_hot(tf.math.floormod(source(1, auto_convert=False), 3), %d)[None]" % V}
    elif var == "twosrc":
        unit["row2"] = {"class": "gather", "from": "base:rev", "position": "prev:output", "axis": "stag:row"}
        unit["score"] = {"class": "combine", "kind": "add", "from": ["row", "row2"]}
    elif var == "twochoice":
        # another choice in each step before the main one, which depends on it
        unit["row2"] = {"class": "gather", "from": "base:rev", "position": "prev:output", "axis": "stag:row"}
        unit["second"] = dict(choice, **{"from": "row2", "target": "classes2", "is_output_layer": True})
        unit["bonus"] = {"class": "copy", "from": "second"}
        unit["score"] = bonus
    rec = {"class": "rec", "from": [], "target": "classes", "unit": unit, "max_seq_len": case["mx"]}
    if "opt" in case:
        rec["optimize_move_layers_out"] = case["opt"]
    if case.get("eos"):
        rec["include_eos"] = True
    return {
        "rev": {"class": "eval", "from": "data", "eval": "0.3 * source(0)[:, :, ::-1]"},
        "output": rec,
        "decision": {"class": "decide", "from": "output", "is_output_layer": True, "length_normalization": bool(case.get("decnorm"))},
    }


def _oracle(case, tab):
    """:return: final beam [(score, labels, extra per step)], best first; or None if not defined (tie)"""
    var, beam, mx = case["var"], case["beam"], case["mx"]
    ps, bs = case.get("scale", (1.0, 1.0))
    rev = [[0.3 * x for x in r[::-1]] for r in tab]
    GAP = 2e-4

    def softmax(r):
        m = max(r)
        z = math.log(sum(math.exp(x - m) for x in r)) + m
        return [x - z for x in r]

    def top(cands):
        cands = sorted(cands, key=lambda c: -c[0])
        for a, b in zip(cands, cands[1:]):
            if a[0] - b[0] < GAP and b[0] > -1e20:
                raise ZeroDivisionError
        out = cands[:beam]
        return out

    def h_of(labels):
        if var == "hist":
            h = 0
            for l in labels:
                h = (h * 2 + l + 1) % 5
            return h
        if var == "cumsum":
            return sum(labels)
        if var == "window":
            return sum(labels[-2:])
        if var == "subnet":
            x = 0
            for l in labels:
                x = l * 2 + x
            return x + 1 if labels else 0
        return None

    beamset = [dict(s=0.0, lab=(), sec=(), end=False)]
    t = 0
    while t < mx:  # the batch always has some sequence which needs all steps
        if var == "twochoice":
            c2 = []
            for h in beamset:
                prev = h["lab"][-1] if h["lab"] else 0
                sc = [0.0] + [-1e30] * (V - 1) if h["end"] else rev[prev]
                for l in range(V):
                    c2.append((h["s"] * bs + sc[l] * ps, dict(h, sec=h["sec"] + (l,))))
            beamset = [dict(h, s=s) for s, h in top(c2) if s > -1e20]
        cands = []
        for h in beamset:
            base = h["s"]
            if case["norm"] and h["end"]:
                base *= (t + 1) / t
            if h["end"]:
                sc = [0.0] + [-1e30] * (V - 1)
            else:
                prev = h["lab"][-1] if h["lab"] else 0
                sc = list(tab[prev])
                if var in ("hist", "cumsum", "window", "subnet"):
                    sc[h_of(h["lab"]) % 3] += 0.37
                elif var == "step":
                    sc[t % 3] += 0.37
                elif var == "twosrc":
                    sc = [a + b for a, b in zip(sc, rev[prev])]
                elif var == "twochoice":
                    sc[h["sec"][-1]] += 0.37
                if case.get("type") == "logits":
                    sc = softmax(sc)
            for l in range(V):
                cands.append((base * bs + sc[l] * ps, dict(lab=h["lab"] + (l,), sec=h["sec"], end=h["end"] or l == 0)))
        cands = [c for c in top(cands) if c[0] > -1e20]
        beamset = [dict(h, s=s) for s, h in cands]
        t += 1
    out = []
    for h in beamset:
        n = next((i for i, l in enumerate(h["lab"]) if l == 0), len(h["lab"]))
        n_ = n
        if case.get("eos"):
            n_ = min(n + 1, len(h["lab"]))
        labels = h["lab"][:n_]
        extra = None
        if var in ("hist", "cumsum", "window", "subnet"):
            extra = [h_of(h["lab"][: i + 1]) for i in range(n_)]
        elif var == "twochoice":
            extra = list(h["sec"][:n_])
        out.append((h["s"], list(labels), extra))
    return out


def run_case(case, ctx):
    import numpy
    from returnn.tensor import Dim

    tabs = tables()
    row = Dim(V, name="row")
    lab = Dim(V, name="lab", kind=Dim.Types.Feature)
    arr = numpy.array(tabs, dtype="float32")
    if case.get("type") == "prob":
        arr = numpy.exp(arr)
    ext = {"data": {"dim_tags": [Dim(kind=Dim.Types.Batch, name="B", dimension=None) if False else _batch(), row, lab], "available_for_inference": True}, "classes": {"dim": V, "sparse": True}, "classes2": {"dim": V, "sparse": True}}
    extra_name = {"hist": "output/h", "cumsum": "output/h", "window": "output/h", "subnet": "output/h", "twochoice": "output/second"}.get(case["var"])
    with tfnet.Net(_net(case), ext, search=True) as net:
        o = net.net.layers["output"]
        with net.graph.as_default():
            out = o.output.copy_as_batch_major()
            fetch = {"out": out.placeholder, "len": out.get_sequence_lengths(), "sc": o.get_search_choices().beam_scores}
            d = net.net.layers["decision"].output.copy_as_batch_major()
            fetch["dec"], fetch["declen"] = d.placeholder, d.get_sequence_lengths()
            fetch["decsc"] = net.net.layers["decision"].search_choices.beam_scores if net.net.layers["decision"].search_choices else tf_none()
            if extra_name:
                e = net.net.get_layer(extra_name).output.copy_as_batch_major()
                fetch["extra"] = e.placeholder
            fetch = {k: v for k, v in fetch.items() if v is not None}
        r = net.session.run(fetch, feed_dict=net.feed(data=(arr, None)))
    n, k = len(tabs), case["beam"]
    out = r["out"].reshape(n, k, -1)
    lens = r["len"].reshape(n, k)
    ties = 0
    for i, tab in enumerate(tabs):
        try:
            exp = _oracle(case, tab)
        except ZeroDivisionError:
            ties += 1
            continue
        info = f"{case} table {[[round(x, 4) for x in y] for y in tab]}"
        for j, (s, labels, ex) in enumerate(exp):
            got = out[i, j, : lens[i, j]].tolist()
            expect_eq(got, labels, f"{info}: hypothesis {j} (score {r['sc'][i, j]}, expected {s})")
            if not case["norm"]:
                expect(abs(r["sc"][i, j] - s) < 1e-4, lambda: f"{info}: score of hypothesis {j} {labels} is {r['sc'][i, j]}, expected {s}")
            else:  # normalized by some length which is common for the batch
                expect(abs(r["sc"][i, j] / r["sc"][i, 0] - s / exp[0][0]) < 1e-4, lambda: f"{info}: scores of hypothesis {j} {labels} vs 0 are {r['sc'][i, j]} / {r['sc'][i, 0]}, expected {s} / {exp[0][0]}")
            if ex is not None:
                g = r["extra"].reshape(n, k, out.shape[2])[i, j, : lens[i, j]].tolist()
                expect_eq([int(x) for x in g], ex, f"{info}: {extra_name} of hypothesis {j} {labels}")
        for j in range(len(exp), k):
            expect(r["sc"][i, j] < -1e20, lambda: f"{info}: additional hypothesis {out[i, j].tolist()} with score {r['sc'][i, j]}")
        best = exp[0]
        if case.get("decnorm"):
            cand = sorted(((s / len(l) if l else float("-inf"), l) for s, l, _ in exp), key=lambda x: -x[0])
            if len(cand) > 1 and cand[0][0] - cand[1][0] < 2e-4:
                ties += 1
                continue
            best = cand[0]
        expect_eq(r["dec"][i, : r["declen"][i]].tolist(), best[1], f"{info}: decision (beam {exp})")
        ctx.trans(case["mx"])
        ctx.trace()
        ctx.state((str(case), i))
        ctx.outcome((str(case), str([x[1] for x in exp])))
    ctx.count("ties_skipped", ties)
    expect(ties < 0.5 * n, lambda: f"harness: {ties} ties")
    ctx.sample(dict(case))


def _batch():
    from returnn.tensor import batch_dim

    return batch_dim


def tf_none():
    return None


if __name__ == "__main__":
    harness.main(__name__)
