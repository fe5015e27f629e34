"""C27: the TF engine trains exactly as declared: losses (scale, normalization), L2, gradient accumulation, clipping variants, per layer updater options, optimizers, learning rates; reported scores; and a training restarted after any epoch continues exactly."""
import itertools, math, os, shutil, tempfile
from vlib import harness, tfnet
from vlib.harness import Violation, expect, expect_eq

PID = "C27"
LEVEL = "model_checking"
RULE = (
    "case = group of configs; run_case runs the real TF Engine (dataset, batching, feed, network, losses, updater, lr control, checkpoints) for each config for 3 epochs;"
    " oracle = independent float64 implementation of model, gradients, losses, update rule; compared: all params after each epoch, train and dev scores, number of steps, checkpoints;"
    " restarts: training is stopped after each epoch, and continued in a new engine (params bitwise the same as without, for optimizers without state; otherwise as the oracle with a fresh optimizer state); state = config"
)
BOUNDS = {
    "quick": "full products: losses(10) x accumulation{1,2,3} x batches{1,2,3 seqs} ; clipping (value x norm x avg norm x global norm, 16) x accumulation x 2 losses; 9 optimizers x 5 learning rate schedules x accumulation x lr multiplier; updater_opts of one layer (13) x global options (6); L2 / decoupled; restart after each epoch (and twice) x optimizers x accumulation x schedule; 5 sequences of ragged lengths",
    "thorough": "larger products",
}
ASSUMPTIONS = [
    "CPU, float32, one process",
    "TF checkpoints contain the model params only: after a restart, the optimizer state starts from zero",
    "no Adam with different accumulation for different layers (one step count for all of its params)",
    "accumulation: update after each n-th global step (over epoch boundaries), as in the code",
    "gradient_clip_global_norm is not combined with accumulation (the code takes the norm of the gradient of the last step only)",
    "float tolerance 2e-4",
]
CASE_TIMEOUT = 800

LENS = [3, 1, 4, 2, 2]
DEV_LENS = [2, 3, 1]
NE = 3
LR = 0.02
LOSSES = ["frame", "frame_scale", "frame_norm", "seq", "seq_norm", "two", "two_norm", "custom", "err", "zero"]
OPTS = ["none", "gd", "momentum", "nesterov", "adam", "adam_eps", "adagrad", "customgd", "customadam"]
LRS = ["const", "list", "dyn_dict", "dyn_func", "newbob"]
# options of one layer ("lin" or the "gain" variable)
LAYER_OPTS = {
    "-": None,
    "clip": {"gradient_clip": 0.2},
    "clip_norm": {"gradient_clip_norm": 0.25},
    "clip_avg": {"gradient_clip_avg_norm": 0.1},
    "clip_off": {"gradient_clip": 0.0, "gradient_clip_global_norm": 0.0, "gradient_clip_norm": 0.0},
    "acc2": {"accum_grad_multiple_step": 2},
    "acc0": {"accum_grad_multiple_step": 0},
    "opt": {"optimizer": {"class": "momentum", "momentum": 0.6}},
    "opt_mult": {"optimizer": {"learning_rate_multiplier": 0.3}},
    "opt_cls_mult": {"optimizer": {"class": "adam", "epsilon": 1e-3, "learning_rate_multiplier": 2.0}},
    "tag": {"tags": ["A"], "gradient_clip_global_norm": 0.4, "gradient_clip_global_norm_tag": "A"},
    "zero_high": {"grad_norm_to_clip_to_zero": 6.0},
    "frozen": "frozen",
}
GLOBAL_OPTS = {
    "-": {},
    "acc": {"accum_grad_multiple_step": 3},
    "clip": {"gradient_clip": 0.5},
    "norms": {"gradient_clip": 0.6, "gradient_clip_norm": 0.7},
    "global": {"gradient_clip_global_norm": 0.9},
    "zero_high": {"grad_norm_to_clip_to_zero": 9.0, "gradient_nan_inf_filter": True},
}


def parent_init():
    tfnet.init()


def gen_cases(tier):
    th = tier != "quick"
    for loss in LOSSES:
        for acc in [1, 2, 3] + ([4] if th else []):
            yield dict(loss=[loss], acc=[acc], bs=[1, 2, 3], clip=[(0, 0, 0, 0)], opt=["gd", "adam_eps"] if not th else OPTS, lr=["const"])
    for clip in itertools.product([0, 0.5], [0, 0.6], [0, 0.3], [0, 0.7]):
        yield dict(loss=["frame", "two_norm"], acc=[0, 1] if clip[3] else [0, 1, 2, 3], bs=[2] if not th else [1, 2, 3], clip=[clip], opt=["gd"] if not th else ["gd", "adam_eps", "momentum"], lr=["const"])
    for opt in OPTS:
        for lr in LRS:
            yield dict(loss=["two_norm"], acc=[1, 2, 3] if th else [1, 2], bs=[2], clip=[(0, 0, 0, 0), (0.4, 0, 0, 0)], opt=[opt], lr=[lr], mult=[1, 2.5])
    for lay in LAYER_OPTS:
        for which in ("lin", "gain"):
            yield dict(t="layer", lay=lay, which=which)
    for dec, lr in itertools.product([None, 1.0, 0.5, "default"], ["const", "list"]):
        if dec is None or (dec == 1.0 and lr == "const"):
            yield dict(t="l2", a=[0.3, 0.05], b=[0, 0.2], dec=dec, acc=[1, 2], lr=lr, opt=["gd", "adam_eps"])
        else:
            for a, b, acc, opt in itertools.product([0.3, 0.05], [0, 0.2], [1, 2], ["gd", "adam_eps"]):
                yield dict(t="l2", a=[a], b=[b], dec=dec, acc=[acc], lr=lr, opt=[opt])
    for opt in ["gd", "momentum", "adam", "adam_eps", "customadam"]:
        for acc in [1, 2]:
            yield dict(t="restart", opt=opt, acc=acc)
    for opt in ["gd", "adam_eps"]:
        yield dict(t="sparse", opt=opt)


# data


def _data(lens, salt):
    import numpy as np

    rng = np.random.RandomState(7 + salt)
    out = []
    for l in lens:
        out.append({"data": rng.uniform(-1, 1, (l, 2)).astype("float32"), "target": rng.uniform(-1, 1, (l, 1)).astype("float32"), "cls": rng.randint(0, 3, (l,)).astype("int32")})
    return out


def _dataset(name, lens, salt):
    from returnn.datasets.generating import StaticDataset

    d = StaticDataset(_data(lens, salt), output_dim={"data": (2, 2), "target": (1, 2), "cls": (3, 1)}, name=name)
    d.init_seq_order(epoch=1)
    return d


INIT = {"W": [[0.3], [-0.8]], "b": [0.2], "g": [1.1]}
INIT_SP = {"W": [[0.3], [-0.8], [0.5]], "b": [0.2], "g": [1.1]}


def _dyn_lr(*, network, global_train_step, learning_rate, **_kw):
    import tensorflow as tf

    s = tf.cast(global_train_step, tf.float32)
    return learning_rate * (0.5 + s) / (1.0 + s * s)


def _net(cfg, dims):
    TD, FD, OD = dims
    lin = {"class": "linear", "from": "data:cls" if cfg.get("sparse") else "data", "out_dim": OD, "activation": None}
    gain = {"class": "variable", "shape": [OD], "init": 1.1}
    lay = {"lin": lin, "gain": gain}
    if cfg.get("lay"):
        which, o = cfg["lay"]
        if o == "frozen":
            lay[which]["trainable"] = False
        elif o:
            lay[which]["updater_opts"] = {k: (dict(v) if isinstance(v, dict) else v) for k, v in o.items()}
    if cfg.get("l2"):
        lin["L2"] = cfg["l2"][0]
        if cfg["l2"][1]:
            gain["L2"] = cfg["l2"][1]
    net = {
        "lin": lin,
        "gain": gain,
        "y": {"class": "eval", "from": ["lin", "gain"], "eval": "source(0) * source(1)"},
        "d": {"class": "eval", "from": ["y", "data:target"], "eval": "tf.math.squared_difference(source(0), source(1))"},
        "ys": {"class": "reduce", "mode": "sum", "axis": "T", "from": "y"},
        "s": {"class": "eval", "from": "ys", "eval": "tf.square(source(0))"},
        "e": {"class": "eval", "from": "y", "eval": "tf.abs(source(0))"},
    }
    d, s, e = net["d"], net["s"], net["e"]
    l = cfg["loss"]

    def loss(layer, **o):
        layer["loss"] = "as_is"
        if o:
            layer["loss_opts"] = o

    if l == "frame":
        loss(d)
    elif l == "frame_scale":
        loss(d, scale=0.3)
    elif l == "frame_norm":
        loss(d, scale=2.0, use_normalized_loss=True)
    elif l == "seq":
        d.clear(), d.update({"class": "copy", "from": "data"})
        loss(s, scale=0.1)
    elif l == "seq_norm":
        loss(s, scale=0.2, use_normalized_loss=True)
    elif l == "two":
        loss(d, scale=0.5)
        loss(s, scale=0.1)
    elif l == "two_norm":
        loss(d, use_normalized_loss=True)
        loss(s, scale=0.1)
    elif l == "custom":
        loss(d, custom_norm_factor=0.25, use_normalized_loss=True)
        loss(s, scale=0.1)
    elif l == "err":
        loss(d, scale=0.3)
        loss(e, as_error=True)
    elif l == "zero":
        loss(d, scale=0.3)
        loss(s, scale=0.0)
    else:
        raise ValueError(l)
    return net


OPT_CFG = {
    "none": None,
    "gd": {"class": "GradientDescent"},
    "momentum": {"class": "momentum", "momentum": 0.7},
    "nesterov": {"class": "momentum", "momentum": 0.7, "use_nesterov": True},
    "adam": {"class": "adam"},
    "adam_eps": {"class": "adam", "epsilon": 1e-3, "beta1": 0.8, "beta2": 0.9},
    "adagrad": {"class": "adagrad", "initial_accumulator_value": 0.2},
    "customgd": {"class": "CustomGradientDescent"},
    "customadam": {"class": "CustomAdam", "epsilon": 1e-3, "beta1": 0.8, "beta2": 0.9},
}


def _config(cfg, tmp):
    from returnn.config import Config
    from returnn.tensor import Dim, batch_dim

    TD, FD, OD, CD = Dim(None, name="t"), Dim(2, name="f", kind=Dim.Types.Feature), Dim(1, name="o", kind=Dim.Types.Feature), Dim(3, name="c", kind=Dim.Types.Feature)
    o = dict(
        model=tmp + "/m", num_epochs=NE, batch_size=1000, max_seqs=cfg["bs"], learning_rate=LR, device="cpu", task="train", backend="tensorflow-net-dict",
        extern_data={"data": dict(dim_tags=[batch_dim, TD, FD], dtype="float32"), "target": dict(dim_tags=[batch_dim, TD, OD], dtype="float32"), "cls": dict(dim_tags=[batch_dim, TD], sparse_dim=CD, dtype="int32")},
        network=_net(cfg, (TD, FD, OD)), learning_rate_file=tmp + "/lr.txt", tf_log_dir=None, log_verbosity=0,
        tf_session_opts={"intra_op_parallelism_threads": 1, "inter_op_parallelism_threads": 1},
    )
    opt = OPT_CFG[cfg["opt"]]
    if opt is not None:
        opt = dict(opt)
        if cfg.get("mult", 1) != 1:
            opt["learning_rate_multiplier"] = cfg["mult"]
        o["optimizer"] = opt
    if cfg["acc"]:
        o["accum_grad_multiple_step"] = cfg["acc"]
    for k, v in zip(("gradient_clip", "gradient_clip_norm", "gradient_clip_avg_norm", "gradient_clip_global_norm"), cfg["clip"]):
        if v:
            o[k] = v
    o.update(cfg.get("glob", {}))
    if cfg["lr"] == "list":
        o["learning_rates"] = [0.02, 0.008, 0.03]
    elif cfg["lr"] == "dyn_dict":
        o["dynamic_learning_rate"] = {"interval": 2, "decay": 0.4}
    elif cfg["lr"] == "dyn_func":
        o["dynamic_learning_rate"] = _dyn_lr
    elif cfg["lr"] == "newbob":
        o.update(learning_rate_control="newbob_abs", learning_rate_control_error_measure="dev_score", newbob_error_threshold=-1e-9, newbob_learning_rate_decay=0.5)
        if cfg["loss"].startswith("two"):
            o["learning_rate_control_error_measure"] = "dev_score_d"
    if cfg.get("l2") and cfg["l2"][2] is not None:
        o["decouple_constraints"] = True
        if cfg["l2"][2] != "default":
            o["decouple_constraints_factor"] = cfg["l2"][2]
    return Config(o)


def _names(e):
    """var of the net -> our name"""
    out = {}
    for v in e.network.get_params_list():
        n = v.name.split(":")[0]
        out[{"lin/W": "W", "lin/b": "b"}.get(n, "g")] = v
    expect_eq(sorted(out), ["W", "b", "g"], "params")
    return out


def _engine(cfg, tmp, init=True, num_epochs=None, post=None):
    """:return: (params per epoch, EpochData per epoch)"""
    import numpy as np
    import tensorflow as tf
    from returnn.config import global_config_ctx
    from returnn.tf.engine import Engine
    from returnn.tf.util.basic import VariableAssigner

    config = _config(cfg, tmp)
    if num_epochs:
        config.set("num_epochs", num_epochs)
    hist = {}
    with global_config_ctx(config):
        e = Engine(config=config)
        try:
            e.init_train_from_config(config=config, train_data=_dataset("train", LENS, 0), dev_data=_dataset("dev", DEV_LENS, 1), eval_data=None)
            vs = _names(e)
            if init:
                for k, v in (INIT_SP if cfg.get("sparse") else INIT).items():
                    VariableAssigner(vs[k]).assign(np.array(v, "float32").reshape(vs[k].shape), e.tf_session)
            orig = e.train_epoch

            def train_epoch():
                orig()
                hist[e.epoch] = {k: np.array(e.tf_session.run(v)) for k, v in vs.items()}

            e.train_epoch = train_epoch
            e.train()
            data = {ep: d for ep, d in e.learning_rate_control.epoch_data.items()}
        finally:
            e.finalize()
    return hist, data


# oracle


def _fwd(P, seq, sparse):
    import numpy as np

    x = np.eye(3)[seq["cls"]] if sparse else seq["data"].astype("float64")
    z = (x @ P["W"])[:, 0] + P["b"][0]
    return x, z, z * P["g"][0], seq["target"][:, 0].astype("float64")


def _sums(P, batch, sparse):
    """losses (d, s2, err), norms, and gradients of d and s2"""
    import numpy as np

    gd = {k: np.zeros_like(v) for k, v in P.items()}
    gs = {k: np.zeros_like(v) for k, v in P.items()}
    d = s2 = er = 0.0
    n = 0
    for seq in batch:
        x, z, y, t = _fwd(P, seq, sparse)
        d += ((y - t) ** 2).sum()
        er += abs(y).sum()
        s = y.sum()
        s2 += s * s
        n += len(t)
        for gg, dy in ((gd, 2 * (y - t)), (gs, np.full(len(t), 2 * s))):
            gg["W"] = gg["W"] + P["g"][0] * (dy[:, None] * x).sum(0)[:, None]
            gg["b"] = gg["b"] + P["g"][0] * dy.sum()
            gg["g"] = gg["g"] + (dy * z).sum()
    return d, s2, er, n, gd, gs


def _lossinfo(l, frames, nb):
    """-> (weight of d, weight of s2, reported names)"""
    return {
        "frame": (1, 0, "d"), "frame_scale": (0.3, 0, "d"), "frame_norm": (2.0 / frames, 0, "d"), "seq": (0, 0.1, "s"), "seq_norm": (0, 0.2 / nb, "s"), "two": (0.5, 0.1, "ds"),
        "two_norm": (1 / frames, 0.1, "ds"), "custom": (0.25, 0.1, "ds"), "err": (0.3, 0, "de"), "zero": (0.3, 0, "ds"),
    }[l]


class _Opt:
    def __init__(self, opts, lr_mult=1.0):
        opts = dict(opts or {"class": "GradientDescent"})
        self.cls = opts["class"].lower()
        self.o = opts
        self.mult = opts.get("learning_rate_multiplier", 1.0)
        self.st = {}

    def apply(self, P, k, g, lr):
        import numpy as np

        lr = lr * self.mult
        st = self.st.setdefault(k, {})
        c = self.cls
        if c in ("gradientdescent", "customgradientdescent"):
            P[k] = P[k] - lr * g
        elif c == "momentum":
            m = self.o["momentum"]
            st["a"] = m * st.get("a", 0.0) + g
            P[k] = P[k] - lr * ((g + m * st["a"]) if self.o.get("use_nesterov") else st["a"])
        elif c == "adagrad":
            st["a"] = st.get("a", self.o["initial_accumulator_value"]) + g * g
            P[k] = P[k] - lr * g / np.sqrt(st["a"])
        elif c in ("adam", "customadam"):
            b1, b2, eps = self.o.get("beta1", 0.9), self.o.get("beta2", 0.999), self.o.get("epsilon", 1e-16)
            st["t"] = st.get("t", 0) + 1
            st["m"] = b1 * st.get("m", 0.0) + (1 - b1) * g
            st["v"] = b2 * st.get("v", 0.0) + (1 - b2) * g * g
            a = lr * math.sqrt(1 - b2 ** st["t"]) / (1 - b1 ** st["t"])
            P[k] = P[k] - a * st["m"] / (np.sqrt(st["v"]) + eps)
        else:
            raise ValueError(c)


def _ref(cfg, decay_variant="declared"):
    import numpy as np

    sparse = cfg.get("sparse")
    P = {k: np.array(v, "float64") for k, v in (INIT_SP if sparse else INIT).items()}
    train, dev = _data(LENS, 0), _data(DEV_LENS, 1)
    glob = dict(zip(("gradient_clip", "gradient_clip_norm", "gradient_clip_avg_norm", "gradient_clip_global_norm"), cfg["clip"]), accum_grad_multiple_step=cfg["acc"])
    glob.update(cfg.get("glob", {}))
    which, lay = cfg.get("lay") or (None, None)
    own = {"lin": "Wb", "gain": "g"}.get(which, "")
    opts_of = {k: dict(glob, **(lay if isinstance(lay, dict) and k in own else {})) for k in P}
    frozen = set(own) if lay == "frozen" else set()
    base = OPT_CFG[cfg["opt"]]
    if base is not None and cfg.get("mult", 1) != 1:
        base = dict(base, learning_rate_multiplier=cfg["mult"])
    default_opt = _Opt(base)
    optim = {k: default_opt for k in P}
    if isinstance(lay, dict) and "optimizer" in lay:
        o = dict(lay["optimizer"])
        if "class" not in o:
            o["class"] = (base or {"class": "GradientDescent"})["class"]
        oo = _Opt(o)
        for k in own:
            optim[k] = oo
    l2 = cfg.get("l2")
    l2_of = {"W": l2[0], "b": l2[0], "g": l2[1]} if l2 else {}
    decouple = l2 and l2[2] is not None
    acc_g = {k: None for k in P}
    step = 0
    lr_ep = LR
    last_dev = None
    hist, scores, nsteps = {}, {}, {}
    for ep in range(1, NE + 1):
        if ep - 1 in cfg.get("stops", ()):
            # new process: the state of the optimizer and of the accumulation is not part of the checkpoint
            acc_g = {k: np.zeros_like(v) for k, v in P.items()}
            for o in optim.values():
                o.st = {}
        if cfg["lr"] == "list":
            lr_ep = [0.02, 0.008, 0.03][ep - 1]
        elif cfg["lr"] == "newbob" and ep > 2:
            # newbob_abs: decay if the dev score of the last epoch did not improve over the one before
            a, b = [scores[i]["dev_score"] if "dev_score" in scores[i] else scores[i]["dev_score_d"] for i in (ep - 2, ep - 1)]
            if b - a > -1e-9:
                lr_ep *= 0.5
        acc_l, acc_n = {}, {}
        ns = 0
        for i in range(0, len(train), cfg["bs"]):
            batch = train[i : i + cfg["bs"]]
            d, s2, er, n, gd, gs = _sums(P, batch, sparse)
            wd, ws, names = _lossinfo(cfg["loss"], n, len(batch))
            for nm, v, m in (("d", d, 4.0 if cfg["loss"] == "custom" else n), ("s", s2, len(batch)), ("e", er, n)):
                if nm in names:
                    acc_l[nm] = acc_l.get(nm, 0) + v
                    acc_n[nm] = acc_n.get(nm, 0) + m
            G = {k: wd * gd[k] + ws * gs[k] for k in P if k not in frozen}
            if l2 and not decouple:
                for k in G:
                    if l2_of[k]:
                        G[k] = G[k] + 2 * l2_of[k] * P[k]
            lr = lr_ep
            if cfg["lr"] == "dyn_dict":
                lr = lr_ep * 0.4 ** (step % 2)
            elif cfg["lr"] == "dyn_func":
                lr = lr_ep * (0.5 + step) / (1.0 + step * step)
            norm_all = math.sqrt(sum((v**2).sum() for v in G.values()))
            newP = dict(P)
            for k, g in G.items():
                o = opts_of[k]
                a = o.get("accum_grad_multiple_step") or 0
                upd = True
                if a >= 1:
                    acc_g[k] = g if step % a == 0 else acc_g[k] + g
                    g = acc_g[k]
                    upd = step % a == a - 1
                if not upd:
                    continue
                if o.get("gradient_clip"):
                    g = np.clip(g, -o["gradient_clip"], o["gradient_clip"])
                if o.get("gradient_clip_norm"):
                    c = o["gradient_clip_norm"]
                    g = g * c / max(math.sqrt((g**2).sum()), c)
                if o.get("gradient_clip_avg_norm"):
                    c = o["gradient_clip_avg_norm"]
                    g = g * c / max(math.sqrt((g**2).sum()) / g.size, c)
                if o.get("gradient_clip_global_norm"):
                    c = o["gradient_clip_global_norm"]
                    nn = norm_all
                    if o.get("gradient_clip_global_norm_tag"):
                        nn = math.sqrt(sum((G[k2] ** 2).sum() for k2 in G if o["gradient_clip_global_norm_tag"] in opts_of[k2].get("tags", ())))
                    g = g * c / max(nn, c)
                if o.get("grad_norm_to_clip_to_zero") and norm_all > o["grad_norm_to_clip_to_zero"]:
                    g = np.zeros_like(g)
                if decouple and l2_of[k]:
                    f = 0.025 if l2[2] == "default" else l2[2]
                    f *= lr / LR
                    if decay_variant == "no-factor":
                        f = 1.0
                    newP[k] = newP[k] * (1 - 2 * l2_of[k] * f)
                optim[k].apply(newP, k, g, lr)
            P = newP
            step += 1
            ns += 1
        hist[ep] = {k: v.copy() for k, v in P.items()}
        nsteps[ep] = ns
        sc = {}
        dd, ds2, der, dn, _, _ = _sums(P, dev, sparse)
        dv = {"d": dd / (12.0 if cfg["loss"] == "custom" else dn), "s": ds2 / len(dev), "e": der / dn}
        if cfg["loss"] == "custom":
            # one fixed norm factor per batch
            dv["d"] = dd * 0.25 / math.ceil(len(dev) / cfg["bs"])
        for pre, vals in (("train", {k: acc_l[k] / acc_n[k] for k in acc_l}), ("dev", {k: dv[k] for k in acc_l})):
            for k, v in vals.items():
                kk = "%s_%s" % (pre, "error" if k == "e" else "score")
                if sum((k2 == "e") == (k == "e") for k2 in acc_l) > 1:
                    kk += "_" + k
                sc[kk] = v
        scores[ep] = sc
    return hist, scores, nsteps


def _close(a, b, tol=2e-4):
    import numpy as np

    a, b = np.asarray(a, "float64").reshape(-1), np.asarray(b, "float64").reshape(-1)
    return a.shape == b.shape and (np.abs(a - b) <= tol * np.maximum(1.0, np.abs(b))).all()


def _compare(cfg, hist, data, ctx):
    rh, rs, rn = _ref(cfg)
    expect_eq(sorted(hist), sorted(rh), f"trained epochs ({cfg})")
    bad = None
    for ep in sorted(rh):
        for k in rh[ep]:
            if not _close(hist[ep][k], rh[ep][k]):
                bad = bad or f"param {k} after epoch {ep}: {hist[ep][k].reshape(-1).tolist()}, expected {rh[ep][k].reshape(-1).tolist()}; config {cfg}"
    if bad:
        key = None
        if cfg.get("l2") and cfg["l2"][2] is not None:
            h2, s2, _ = _ref(cfg, "no-factor")
            if all(_close(hist[ep][k], h2[ep][k]) for ep in h2 for k in h2[ep]):
                key = "decouple_constraints_factor has no effect"
        raise Violation(bad, key=key) if key else Violation(bad)
    for ep in sorted(rh):
        sc = {k: v for k, v in data[ep].error.items() if not k.startswith(":meta")}
        expect_eq(sorted(sc), sorted(rs[ep]), f"epoch {ep} score names ({cfg})")
        for k in sc:
            expect(_close(sc[k], rs[ep][k]), lambda: f"epoch {ep} {k}: {sc[k]}, expected {rs[ep][k]}; config {cfg}")
        expect_eq(data[ep].error.get(":meta:epoch_num_train_steps", data[ep].meta.get("epoch_num_train_steps") if hasattr(data[ep], "meta") else None), rn[ep], f"epoch {ep} steps ({cfg})")
    ctx.trans(sum(rn.values()))
    ctx.trace()
    ctx.state(str(cfg))


def _run_one(cfg, ctx):
    tmp = tempfile.mkdtemp()
    try:
        try:
            hist, data = _engine(cfg, tmp)
        except Violation:
            raise
        except Exception as exc:
            raise Violation(f"training fails: {type(exc).__name__}: {exc}; config {cfg}"[:1500])
        expect_eq(sorted(f for f in os.listdir(tmp) if f.endswith(".index")), ["m.%03i.index" % ep for ep in range(1, NE + 1)], f"checkpoints ({cfg})")
        _compare(cfg, hist, data, ctx)
        return hist, data
    finally:
        shutil.rmtree(tmp)


def _restart(case, ctx):
    """stop after epoch(s) and continue with a new engine"""
    import numpy as np

    for lr, bs in itertools.product(["const", "list", "newbob"], [2]):
        cfg = dict(loss="two_norm", acc=case["acc"], bs=bs, clip=(0, 0, 0, 0), opt=case["opt"], lr=lr)
        full, fdata = _run_one(cfg, ctx)
        for stops in [(1,), (2,), (1, 2)]:
            tmp = tempfile.mkdtemp()
            try:
                hist, data = {}, {}
                for j, last in enumerate(list(stops) + [NE]):
                    h, data = _engine(cfg, tmp, init=j == 0, num_epochs=last)
                    hist.update(h)
                what = f"training restarted after epochs {stops}, config {cfg}"
                expect_eq(sorted(hist), sorted(full), f"{what}: epochs")
                _compare(dict(cfg, stops=stops), hist, data, ctx)
                exact = case["opt"] == "gd" and case["acc"] == 1  # no state
                for ep in full:
                    if exact:
                        for k in full[ep]:
                            expect(np.array_equal(hist[ep][k], full[ep][k]), lambda: f"{what}: param {k} after epoch {ep}: {hist[ep][k].tolist()}, without restart {full[ep][k].tolist()}")
                    if lr != "newbob" or exact:
                        expect_eq(data[ep].learning_rate, fdata[ep].learning_rate, f"{what}: learning rate of epoch {ep}")
                ctx.state(what)
                ctx.trace()
            finally:
                shutil.rmtree(tmp)
    ctx.outcome("restart")


def run_case(case, ctx):
    t = case.get("t")
    if t == "layer":
        for gk, glob in GLOBAL_OPTS.items():
            for loss, opt in (("two_norm", "gd"), ("frame", "adam_eps")):
                lay = LAYER_OPTS[case["lay"]]
                la = dict(glob, **(lay if isinstance(lay, dict) else {}))
                cfg = dict(loss=loss, acc=0, bs=2, clip=(0, 0, 0, 0), opt=opt, lr="const", glob=glob, lay=(case["which"], lay))
                if la.get("accum_grad_multiple_step", 0) > 1 and (la.get("gradient_clip_global_norm") or la.get("grad_norm_to_clip_to_zero")):
                    continue
                if opt != "gd" and (la.get("accum_grad_multiple_step") or 0) != (glob.get("accum_grad_multiple_step") or 0):
                    continue  # Adam has its step count in common for all its params
                _run_one(cfg, ctx)
        ctx.outcome("layer")
        return
    if t == "l2":
        for a, b, acc, opt in itertools.product(case["a"], case["b"], case["acc"], case["opt"]):
            _run_one(dict(loss="two_norm", acc=acc, bs=2, clip=(0, 0, 0, 0), opt=opt, lr=case["lr"], l2=(a, b, case["dec"])), ctx)
        ctx.outcome("l2")
        return
    if t == "sparse":
        for loss, acc, bs, lr in itertools.product(["two_norm", "frame"], [0, 1, 2, 3], [1, 2, 3], ["list"]):
            _run_one(dict(loss=loss, acc=acc, bs=bs, clip=(0, 0, 0, 0), opt=case["opt"], lr=lr, sparse=True), ctx)
        ctx.outcome("sparse")
        return
    if t == "restart":
        return _restart(case, ctx)
    keys = ["loss", "acc", "bs", "clip", "opt", "lr"] + (["mult"] if "mult" in case else [])
    for vals in itertools.product(*[case[k] for k in keys]):
        cfg = dict(zip(keys, vals))
        if cfg.get("mult", 1) != 1 and cfg["opt"] == "none":
            continue
        _run_one(cfg, ctx)
        ctx.outcome(cfg["loss"] + cfg["opt"])


def check_vacuity(total):
    if total.transitions < 2000:
        return f"only {total.transitions} train steps"


if __name__ == "__main__":
    harness.main(__name__)
