"""C23: training does exactly the declared optimization: each update step = the optimizer rule on the gradient of the declared (scaled/normalized) losses over the accumulated batches, with clipping, learning rate schedule, weight decay groups; reported train scores and meta data fit."""
import itertools, math, os
from vlib import harness, teng
from vlib.harness import Violation, expect, expect_eq

PID = "C23"
LEVEL = "model_checking"
RULE = (
    "case = one group of training configs; run_case runs the real torch Engine (dataset, data pipeline, batching, train_step, run ctx losses, updater, lr control) for every config of the group;"
    " oracle = independent float64 implementation of model, gradients, losses, optimizer, clipping, schedules; compared: all params after training, scores and lrs of each epoch, number of steps;"
    " state = config"
)
BOUNDS = {
    "quick": "full product of batch sizes {1,2,3 seqs} x accumulation {1,2,3, callables} x clipping {none, value, norm, both} x 9 loss declarations; full product of 6 optimizer configs x 5 learning rate schedules x accumulation x lr multiplier; weight decay groups: all include checks; 5 seqs of ragged lengths, 2-3 epochs",
    "thorough": "full product of everything",
}
ASSUMPTIONS = ["CPU, float32, one process, num_workers=0", "a group of batches for accumulation which is incomplete at the end of an epoch makes no update (as in the code)", "float tolerance 5e-5"]
CASE_TIMEOUT = 800

LENS = [3, 1, 4, 2, 2]
LOSSES = ["frame", "frame_scale", "frame_norm", "seq", "seq_norm", "two", "two_norm", "custom", "custom_norm", "zero_err"]
ACC = [1, 2, 3, "dyn_ep", "dyn_step"]
CLIP = [(0, 0), (0.5, 0), (0, 0.7), (0.4, 0.5)]
OPTS = ["sgd", "momentum", "adam", "adamw", "adamw_blacklist", "sgd_wd"]
BLACKLISTS = ["default", "empty", "torch_types", "torch_str", "rf_types", "rf_str", "mixed", "base"]
GNORMS = [None, True, "true", 1, 2.5, 10, 3]
LRS = ["const", "list", "dyn_step", "dyn_cont", "mult"]


def parent_init():
    teng.init()


def gen_cases(tier):
    if tier == "quick":
        for loss in LOSSES:
            for acc in ACC:
                yield dict(loss=[loss], acc=[acc], bs=[1, 2, 3], clip=CLIP, opt=["sgd"], lr=["const"])
        for opt in OPTS:
            for lr in LRS:
                yield dict(loss=["frame", "two_norm"], acc=[1, 2], bs=[2], clip=[(0, 0), (0.4, 0.5)], opt=[opt], lr=[lr])
    else:
        for loss in LOSSES:
            for acc in ACC:
                for opt in OPTS:
                    yield dict(loss=[loss], acc=[acc], bs=[1, 2, 3, 5], clip=CLIP, opt=[opt], lr=LRS)
    for chk in range(16):
        yield dict(t="wd", mask=chk)
    yield dict(t="groups")
    for bl in BLACKLISTS:
        yield dict(t="struct", bl=bl)
    for gn in GNORMS:
        yield dict(t="report", gn=gn)
    for step in range(9):
        yield dict(t="nonfinite", step=step)
    yield dict(t="noise")


def _make_model(**_kw):
    import returnn.frontend as rf
    from returnn.tensor import Dim

    class Lin(rf.Module):
        def __init__(self):
            super().__init__()
            self.weight = rf.Parameter([_F])
            self.bias = rf.Parameter([])

    class Gain(rf.Module):
        def __init__(self):
            super().__init__()
            self.scale = rf.Parameter([])
            self.frozen = rf.Parameter([])
            self.frozen.trainable = False

    class M(rf.Module):
        def __init__(self):
            super().__init__()
            self.lin = Lin()
            self.gain = Gain()

    m = M()
    import torch

    with torch.no_grad():
        m.lin.weight.raw_tensor.copy_(torch.tensor([0.3, -0.8]))
        m.lin.bias.raw_tensor.fill_(0.2)
        m.gain.scale.raw_tensor.fill_(1.1)
        m.gain.frozen.raw_tensor.fill_(0.4)
    return m


_F = None
_cfg = None
_calls = []


def _train_step(*, model, extern_data, **_kw):
    import returnn.frontend as rf

    x = extern_data["data"]
    t = extern_data["target"]
    T = x.dims[1]
    B = x.dims[0]
    y = (rf.matmul(x, model.lin.weight, reduce=_F) + model.lin.bias) * model.gain.scale + model.gain.frozen
    tt = rf.squeeze(t, axis=t.feature_dim) if t.feature_dim in t.dims else t
    tt = rf.replace_dim(tt, in_dim=t.dims[1], out_dim=T)[0] if t.dims[1] != T else tt
    d = (y - tt) * (y - tt)
    s = rf.reduce_sum(y, axis=T)
    ctx = rf.get_run_ctx()
    l = _cfg["loss"]
    inv = rf.cast(x.dims[1].dyn_size_ext, "float32") + 0.5  # [B]
    if l == "frame":
        if _cfg.get("nonfinite"):
            d = d * _nonfinite_factor()
        ctx.mark_as_loss(d, "mse")
    elif l == "frame_scale":
        ctx.mark_as_loss(d, "mse", scale=0.3)
    elif l == "frame_norm":
        ctx.mark_as_loss(d, "mse", scale=2.0, use_normalized_loss=True)
    elif l == "seq":
        ctx.mark_as_loss(s * s, "seq", scale=0.1)
    elif l == "seq_norm":
        ctx.mark_as_loss(s * s, "seq", use_normalized_loss=True, scale=0.2)
    elif l == "two":
        ctx.mark_as_loss(d, "mse", scale=0.5)
        ctx.mark_as_loss(s * s, "seq", scale=0.1)
    elif l == "two_norm":
        ctx.mark_as_loss(d, "mse", use_normalized_loss=True)
        ctx.mark_as_loss(s * s, "seq", scale=0.1)
    elif l == "custom":
        ctx.mark_as_loss(d, "mse", custom_inv_norm_factor=inv, scale=0.3)
    elif l == "custom_norm":
        ctx.mark_as_loss(d, "mse", custom_inv_norm_factor=inv, use_normalized_loss=True)
        ctx.mark_as_loss(s * s, "seq", scale=0.1, use_normalized_loss=True)
    elif l == "zero_err":
        ctx.mark_as_loss(d, "mse", scale=0.3)
        ctx.mark_as_loss(s * s, "seq", scale=0.0)
        ctx.mark_as_loss(rf.abs(y), "err", as_error=True)
    else:
        raise ValueError(l)


_step_count = [0]


def _nonfinite_factor():
    i = _step_count[0]
    _step_count[0] += 1
    at, v = _cfg["nonfinite"]
    return {"inf": float("inf"), "nan": float("nan")}[v] if i == at else 1.0


def _dyn_lr(*, global_train_step, epoch, epoch_continuous, learning_rate, **_kw):
    _calls.append((global_train_step, epoch, epoch_continuous, learning_rate))
    return _lr_func(_cfg["lr"], global_train_step, epoch, epoch_continuous, learning_rate)


def _lr_func(kind, step, epoch, cont, lr):
    if kind == "dyn_step":
        return lr * (0.5 + step) / (1 + step * step)
    return lr * (1.0 - 0.3 * cont)


def _acc(kind, epoch, step):
    return kind if isinstance(kind, int) else (epoch if kind == "dyn_ep" else 1 + step % 2)


def _dyn_acc(*, epoch, epoch_continuous, global_train_step, **_kw):
    return _acc(_cfg["acc"], epoch, global_train_step)


NE = 3
LR = 0.02


def _opt_cfg(opt):
    return {
        "sgd": {"class": "sgd"},
        "momentum": {"class": "SGD", "momentum": 0.7},
        "adam": {"class": "adam", "epsilon": 1e-3, "betas": (0.8, 0.9)},
        "adamw": {"class": "adamw", "epsilon": 1e-3, "weight_decay": 0.2},
        "adamw_blacklist": {"class": "adamw", "epsilon": 1e-3, "weight_decay": 0.2, "weight_decay_modules_blacklist": []},
        "sgd_wd": {"class": "sgd", "weight_decay": 0.3, "momentum": 0.5},
    }[opt]


def _engine_train(cfg, extra):
    global _F, _cfg
    from returnn.config import Config, global_config_ctx
    from returnn.torch.engine import Engine
    from returnn.tensor import Dim

    _cfg = cfg
    _F = Dim(2, name="F")
    del _calls[:]
    batch_dim_cfg = {"data": {"dim_tags": None}}
    from returnn.tensor import batch_dim

    time_dim = Dim(None, name="time")
    extern = {
        "data": {"dims": [batch_dim, time_dim, _F], "dtype": "float32"},
        "target": {"dims": [batch_dim, time_dim, Dim(1, name="one")], "dtype": "float32"},
    }
    config = Config(
        dict(task="train", device="cpu", extern_data=extern, get_model=_make_model, train_step=_train_step, max_seqs=cfg["bs"], batch_size=100,
             torch_dataloader_opts={"num_workers": 0}, random_seed=3, backend="torch", num_epochs=NE, **extra)
    )
    with global_config_ctx(config):
        e = Engine(config=config)
        e.init_train_from_config(train_data=teng.dataset("train", teng.seqs(LENS)))
        e.train()
    return e


def _ref(cfg):
    """:return: (params, per epoch scores, per epoch effective lr at the start, steps per epoch, dyn lr args)"""
    import numpy as np

    data = [(s["data"].astype("float64"), s["target"][:, 0].astype("float64")) for s in teng.seqs(LENS)]
    P = {"w": np.array([0.3, -0.8]), "b": np.array(0.2), "g": np.array(1.1)}
    c = 0.4
    wd_names = {"adamw": ["w", "g"], "adamw_blacklist": ["w", "g"], "sgd_wd": ["w", "g"]}.get(cfg["opt"], [])
    if "wd_names" in cfg:
        wd_names = cfg["wd_names"]
    st = {k: {} for k in P}
    lrs = {"list": [0.02, 0.008, 0.03]}.get(cfg["lr"], [LR] * NE)
    mult = 2.5 if cfg["lr"] == "mult" else 1.0
    gstep = 0
    out_scores, eff, nsteps, calls = [], [], [], []
    for ep in range(1, NE + 1):
        acc_l, acc_n = {}, {}
        gns = []
        G, cnt = None, 0
        done = 0
        batches = [data[i : i + cfg["bs"]] for i in range(0, len(data), cfg["bs"])]
        for bi, batch in enumerate(batches):
            cont = ep - 1 + done / len(data)
            lr = lrs[ep - 1]
            if cfg["lr"].startswith("dyn"):
                calls.append((gstep, ep, cont, lr))
                lr = _lr_func(cfg["lr"], gstep, ep, cont, lr)
            if bi == 0:
                eff.append(lr)
            lr *= mult
            # forward
            frames = sum(len(t) for _, t in batch)
            inv = sum(len(t) + 0.5 for _, t in batch)
            d = s2 = er = 0.0
            gd = {k: np.zeros_like(v) for k, v in P.items()}
            gs = {k: np.zeros_like(v) for k, v in P.items()}
            for x, t in batch:
                z = x @ P["w"] + P["b"]
                y = z * P["g"] + c
                d += ((y - t) ** 2).sum()
                er += abs(y).sum()
                s = y.sum()
                s2 += s * s
                for gg, dy in ((gd, 2 * (y - t)), (gs, np.full(len(t), 2 * s))):
                    gg["w"] = gg["w"] + P["g"] * (dy[:, None] * x).sum(0)
                    gg["b"] = gg["b"] + P["g"] * dy.sum()
                    gg["g"] = gg["g"] + (dy * z).sum()
            nb = len(batch)
            l = cfg["loss"]
            wd_, ws, names = {
                "frame": (1, 0, "m"), "frame_scale": (0.3, 0, "m"), "frame_norm": (2.0 / frames, 0, "m"), "seq": (0, 0.1, "s"), "seq_norm": (0, 0.2 / nb, "s"),
                "two": (0.5, 0.1, "ms"), "two_norm": (1 / frames, 0.1, "ms"), "custom": (0.3, 0, "m"), "custom_norm": (1 / inv, 0.1 / nb, "ms"), "zero_err": (0.3, 0, "mse"),
            }[l]
            for nm, key, v, n in (("m", "mse", d, inv if l.startswith("custom") else frames), ("s", "seq", s2, nb), ("e", "err", er, frames)):
                if nm in names:
                    acc_l[key] = acc_l.get(key, 0) + v
                    acc_n[key] = acc_n.get(key, 0) + n
            g = {k: wd_ * gd[k] + ws * gs[k] for k in P}
            G = g if G is None else {k: G[k] + g[k] for k in P}
            cnt += 1
            if cnt >= _acc(cfg["acc"], ep, gstep):
                cv, cn = cfg["clip"]
                if cfg.get("gnp"):
                    gns.append(sum((abs(v) ** cfg["gnp"]).sum() for v in G.values()) ** (1.0 / cfg["gnp"]))
                if cv:
                    G = {k: np.clip(v, -cv, cv) for k, v in G.items()}
                if cn:
                    norm = math.sqrt(sum((v**2).sum() for v in G.values()))
                    f = min(1.0, cn / (norm + 1e-6))
                    G = {k: v * f for k, v in G.items()}
                for k in P:
                    g_, s_ = G[k], st[k]
                    o = cfg["opt"]
                    if o in ("sgd", "momentum", "sgd_wd"):
                        if o == "sgd_wd" and k in wd_names:
                            g_ = g_ + 0.3 * P[k]
                        m = {"sgd": 0, "momentum": 0.7, "sgd_wd": 0.5}[o]
                        if m:
                            s_["v"] = m * s_["v"] + g_ if "v" in s_ else g_
                            g_ = s_["v"]
                        P[k] = P[k] - lr * g_
                    else:
                        b1, b2 = (0.8, 0.9) if o == "adam" else (0.9, 0.999)
                        if o != "adam" and k in wd_names:
                            P[k] = P[k] * (1 - lr * 0.2)
                        s_["t"] = s_.get("t", 0) + 1
                        s_["m"] = b1 * s_.get("m", 0) + (1 - b1) * g_
                        s_["v"] = b2 * s_.get("v", 0) + (1 - b2) * g_ * g_
                        P[k] = P[k] - lr * (s_["m"] / (1 - b1 ** s_["t"])) / (np.sqrt(s_["v"] / (1 - b2 ** s_["t"])) + 1e-3)
                G, cnt = None, 0
            gstep += 1
            done += nb
        out_scores.append({k: acc_l[k] / acc_n[k] for k in acc_l})
        if cfg.get("exp"):
            out_scores[-1].update({k + ":exp": math.exp(v) for k, v in out_scores[-1].items() if k != "err"})
        if gns:
            out_scores[-1]["grad_norm:p%s" % (int(cfg["gnp"]) if int(cfg["gnp"]) == cfg["gnp"] else cfg["gnp"])] = sum(gns) / len(gns)
        nsteps.append(len(batches))
    return P, out_scores, eff, nsteps, calls


def _close(a, b, tol=5e-5):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def _compare(cfg, e, ctx):
    P, scores, eff, nsteps, calls = _ref(cfg)
    m = e.get_pt_model()
    got = {n: p.detach().numpy().astype("float64") for n, p in m.named_parameters()}
    for name, k in (("lin.weight", "w"), ("lin.bias", "b"), ("gain.scale", "g")):
        for x, y in zip(got[name].reshape(-1), P[k].reshape(-1)):
            expect(_close(x, y), lambda: f"param {name} after training: {got[name].tolist()}, expected {P[k].tolist()}; config {cfg}")
    expect(abs(float(got["gain.frozen"]) - 0.4) < 1e-6, lambda: f"frozen param changed: {got['gain.frozen']} ({cfg})")
    lrc = e.learning_rate_control
    for ep in range(1, NE + 1):
        d = lrc.epoch_data[ep]
        sc = {k[len("train_loss_") :]: v for k, v in d.error.items()}
        expect_eq(set(sc), set(scores[ep - 1]), f"epoch {ep} train scores {cfg}")
        for k in sc:
            expect(_close(sc[k], scores[ep - 1][k]), lambda: f"epoch {ep} train score {k}: {sc[k]}, expected {scores[ep - 1][k]}; config {cfg}")
        expect_eq(d.meta.get("epoch_num_train_steps"), nsteps[ep - 1], f"epoch {ep} number of steps ({cfg})")
        expect(_close(d.meta.get("effective_learning_rate"), eff[ep - 1], 1e-6), lambda: f"epoch {ep} effective learning rate {d.meta.get('effective_learning_rate')}, expected {eff[ep - 1]} ({cfg})")
        expect_eq(d.meta.get("global_train_step_end"), sum(nsteps[:ep]), f"epoch {ep} global train step ({cfg})")
    ctx.trans(sum(nsteps))
    ctx.trace()


def _run_one(cfg, ctx, extra_opt=None, extra_cfg=None):
    extra = {"learning_rate": LR, "optimizer": dict(_opt_cfg(cfg["opt"]), **(extra_opt or {})), **(extra_cfg or {})}
    if cfg["lr"] == "list":
        extra["learning_rates"] = [0.02, 0.008, 0.03]
    elif cfg["lr"].startswith("dyn"):
        extra["dynamic_learning_rate"] = _dyn_lr
    elif cfg["lr"] == "mult":
        extra["optimizer"]["learning_rate_multiplier"] = 2.5
    if cfg["acc"] != 1:
        extra["accum_grad_multiple_step"] = cfg["acc"] if isinstance(cfg["acc"], int) else _dyn_acc
    if cfg["clip"][0]:
        extra["gradient_clip"] = cfg["clip"][0]
    if cfg["clip"][1]:
        extra["gradient_clip_global_norm"] = cfg["clip"][1]
    try:
        e = _engine_train(cfg, extra)
    except Violation:
        raise
    except Exception as exc:
        raise Violation(f"training fails: {type(exc).__name__}: {exc}; config {cfg}"[:1500])
    _compare(cfg, e, ctx)
    ctx.state(str(cfg))
    return e


def _struct(bl, ctx):
    """each param in exactly one group, with the declared weight decay, for a model with all kinds of modules"""
    import torch
    import returnn.frontend as rf
    from returnn.config import Config
    from returnn.tensor import Dim
    from returnn.torch.updater import Updater
    from returnn.torch.frontend.bridge import rf_module_to_pt_module

    A, V = Dim(3, name="a"), Dim(4, name="v")

    class Sub(rf.Module):
        def __init__(self):
            super().__init__()
            self.norm = rf.LayerNorm(A)
            self.emb = rf.Embedding(V, A)
            self.lin = rf.Linear(A, A)
            self.pos_bias = rf.Parameter([A])
            self.biased = rf.Parameter([A])

    class M(rf.Module):
        def __init__(self):
            super().__init__()
            self.lin1 = rf.Linear(A, A)
            self.blocks = rf.ModuleList([Sub(), Sub()])
            self.norm = rf.LayerNorm(A)
            self.z_root = rf.Parameter([A])
            self.a_bias = rf.Parameter([A])

    class P(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.lin1 = torch.nn.Linear(3, 3)
            self.subs = torch.nn.ModuleList([torch.nn.Sequential(torch.nn.LayerNorm(3), torch.nn.Linear(3, 3), torch.nn.Embedding(4, 3)) for _ in range(2)])
            self.conv = torch.nn.Conv1d(3, 3, 2)
            self.gru = torch.nn.GRU(3, 3)
            self.z_root = torch.nn.Parameter(torch.zeros(3))
            self.a_bias = torch.nn.Parameter(torch.zeros(3))

    mods, types = {
        "default": (None, ("LayerNorm", "Embedding")),
        "empty": ([], ()),
        "torch_types": ([torch.nn.Linear, torch.nn.LayerNorm], ("torch.Linear", "torch.LayerNorm")),
        "torch_str": (["torch.nn.Embedding", "torch.nn.Conv1d"], ("torch.Embedding", "torch.Conv1d")),
        "rf_types": ([rf.Embedding, rf.LayerNorm], ("rf.Embedding", "rf.LayerNorm")),
        "rf_str": (("rf.Linear",), ("rf.Linear",)),
        "mixed": (["rf.LayerNorm", torch.nn.LayerNorm, rf.Linear, "torch.nn.GRU"], ("rf.LayerNorm", "torch.LayerNorm", "rf.Linear", "torch.GRU")),
        "base": ([torch.nn.modules.conv._ConvNd, torch.nn.RNNBase], ("torch.Conv1d", "torch.GRU")),
    }[bl]
    if bl == "default":
        types = ("torch.LayerNorm", "torch.Embedding")
    for kind, share, check, opt_cls in itertools.product(["rf", "pt"], [0, 1, 2], [None, "none", "mix"], ["adamw", "type", "callable"]):
        if kind == "rf":
            m = M()
            if share:
                m.blocks[1].lin = m.blocks[0].lin if share == 1 else m.lin1
            net = rf_module_to_pt_module(m)
        else:
            net = P()
            if share:
                net.subs[1][1].weight = net.subs[0][1].weight if share == 1 else net.lin1.weight
        own = {}  # name -> (type of the owner, param)

        def owner(mod):
            from returnn.torch.frontend.bridge import wrapped_pt_module_to_rf_module

            r = wrapped_pt_module_to_rf_module(mod)
            return ("rf." + type(r).__name__) if r is not None else "torch." + type(mod).__name__

        for mn, mod in net.named_modules():
            for pn, p in mod._parameters.items():
                if p is None:
                    continue
                if not any(q is p for _, q in own.values()):
                    own[(mn + "." if mn else "") + pn] = (owner(mod), p)
        dec = {n: (None if check != "mix" else [None, True, False][i % 3]) for i, n in enumerate(own)}
        opts = {"class": {"adamw": "AdamW", "type": torch.optim.AdamW, "callable": lambda: torch.optim.AdamW}[opt_cls], "weight_decay": 0.25, "epsilon": 1e-5}
        if mods is not None:
            opts["weight_decay_modules_blacklist"] = mods
        if check:
            opts["weight_decay_custom_include_check"] = lambda *, module, rf_module, full_param_name, param, **_kw: dec[full_param_name]
        keep = dict(opts)
        up = Updater(config=Config({"optimizer": opts}), network=net, device="cpu", initial_learning_rate=0.5)
        up.create_optimizer()
        expect_eq(opts, keep, "optimizer options of the config after creating the optimizer")
        what = f"blacklist {bl}, model {kind}, sharing {share}, include check {check}, optimizer {opt_cls}"
        got = []
        for g in up.optimizer.param_groups:
            expect(g["lr"] == 0.5 and g["eps"] == 1e-5, lambda: f"{what}: lr {g['lr']} eps {g['eps']}")
            got += [(id(p), g["weight_decay"]) for p in g["params"]]
        exp = []
        for n, (o, p) in own.items():
            no = n.endswith("bias") or o in types
            wd = (0.0 if no else 0.25) if dec[n] is None else (0.25 if dec[n] else 0.0)
            exp.append((id(p), wd))
        names = {id(p): n for n, (_, p) in own.items()}
        expect_eq(sorted((names[i], w) for i, w in got), sorted((names[i], w) for i, w in exp), f"{what}: weight decay per param")
        ctx.state(what)
        ctx.trans(len(exp))
    ctx.outcome("struct")


def _noise(ctx):
    """gradient noise comes before clipping: the update is bounded by the clipping, and it is bounded by 2*std without"""
    import numpy as np

    for std, clip in itertools.product([0.01, 3.0], [(0, 0), (0.002, 0), (0, 0.003)]):
        cfg = dict(loss="frame_norm", acc=3, bs=2, clip=clip, opt="sgd", lr="const")
        base = _engine_train(cfg, {"learning_rate": LR, "optimizer": {"class": "sgd"}, **_clip_cfg(clip)})
        e = _engine_train(cfg, {"learning_rate": LR, "optimizer": {"class": "sgd"}, "gradient_noise": std, **_clip_cfg(clip)})
        a = {n: p.detach().numpy().astype("float64") for n, p in base.get_pt_model().named_parameters()}
        b = {n: p.detach().numpy().astype("float64") for n, p in e.get_pt_model().named_parameters()}
        expect(abs(a["gain.frozen"] - b["gain.frozen"]) < 1e-7, "gradient noise changes a frozen param")
        init = {"lin.weight": np.array([0.3, -0.8]), "lin.bias": 0.2, "gain.scale": 1.1}
        tot = 0.0
        for n, v in init.items():
            d = np.abs(b[n] - v)
            tot += float((d**2).sum())
            if clip[0]:
                expect((d <= NE * LR * clip[0] + 1e-6).all(), lambda: f"gradient noise {std} with gradient_clip {clip[0]}: param {n} changed by {d} in {NE} steps")
            expect((np.abs(b[n] - a[n]) > 1e-7).any() or any(clip), lambda: f"gradient noise {std} has no effect on {n} ({clip})")
            if not any(clip) and std < 1:
                expect((np.abs(b[n] - a[n]) <= NE * LR * 2 * std * 1.5).all(), lambda: f"gradient noise {std}: {n} differs by {np.abs(b[n] - a[n])}")
        if clip[1]:
            expect(math.sqrt(tot) <= NE * LR * clip[1] + 1e-6, lambda: f"gradient noise {std} with gradient_clip_global_norm {clip[1]}: params changed by {math.sqrt(tot)}")
        ctx.state(f"noise {std} {clip}")
        ctx.trans(2 * 9)
    ctx.outcome("noise")


def _clip_cfg(clip):
    return {k: v for k, v in (("accum_grad_multiple_step", 3), ("gradient_clip", clip[0]), ("gradient_clip_global_norm", clip[1])) if v}


def _nonfinite(at, ctx):
    """a non-finite train score stops the training (unless disabled), right in that step, without recording this epoch"""
    import shutil, tempfile

    for v, stop, acc in itertools.product(["inf", "nan"], [None, True, False], [1, 2]):
        d = tempfile.mkdtemp()
        try:
            cfg = dict(loss="frame", acc=acc, bs=2, clip=(0, 0), opt="sgd", lr="const", nonfinite=(at, v))
            extra = {"learning_rate": LR, "optimizer": {"class": "sgd"}, "model": d + "/m", "learning_rate_file": d + "/lr", **({"stop_on_nonfinite_train_score": stop} if stop is not None else {})}
            if acc != 1:
                extra["accum_grad_multiple_step"] = acc
            _step_count[0] = 0
            exc = None
            try:
                _engine_train(cfg, extra)
            except Exception as e:
                exc = e
            what = f"train score {v} in global step {at}, stop_on_nonfinite_train_score={stop}, accum {acc}"
            ckpts = sorted(f for f in os.listdir(d) if f.endswith(".pt") and not f.endswith(".opt.pt"))
            if stop is False:
                expect(exc is None, lambda: f"{what}: {type(exc).__name__}: {exc}")
                expect_eq(len(ckpts), NE, f"{what}: checkpoints")
            else:
                expect(exc is not None, lambda: f"{what}: training did not stop")
                expect_eq(len(ckpts), at // 3, f"{what}: checkpoints {ckpts}")
            ctx.state(what)
            ctx.trans(at + 1)
        finally:
            shutil.rmtree(d)
    ctx.outcome("nonfinite")


def run_case(case, ctx):
    if case.get("t") == "wd":
        # a user check decides per param (by its full name), None for the rest: default (bias not)
        mask = case["mask"]
        names = ["lin.weight", "lin.bias", "gain.scale", "gain.frozen"]
        dec = {n: [None, True][(mask >> i) & 1] if i % 2 else [None, False][(mask >> i) & 1] for i, n in enumerate(names)}
        seen = []

        def check(*, module, rf_module, full_param_name, param, **_kw):
            seen.append(full_param_name)
            return dec.get(full_param_name)

        wd = [k for n, k in (("lin.weight", "w"), ("lin.bias", "b"), ("gain.scale", "g")) if (dec[n] if dec[n] is not None else not n.endswith("bias"))]
        for opt in ("adamw", "sgd_wd"):
            del seen[:]
            cfg = dict(loss="frame_norm", acc=1, bs=2, clip=(0, 0), opt=opt, lr="const", wd_names=wd, mask=mask)
            _run_one(cfg, ctx, {"weight_decay_custom_include_check": check})
            expect_eq(sorted(set(seen)), sorted(names), "names given to weight_decay_custom_include_check")
        ctx.outcome("wd")
        return
    if case.get("t") == "groups":
        # own param groups
        for split in range(8):
            def groups(*, model, rf_model, optimizer_class, optimizer_opts, **_kw):
                ps = dict(model.named_parameters())
                sel = [n for i, n in enumerate(["lin.weight", "lin.bias", "gain.scale"]) if (split >> i) & 1]
                rest = [n for n in ps if n not in sel]
                return [{"params": [ps[n] for n in sel], "weight_decay": 0.2}, {"params": [ps[n] for n in rest], "weight_decay": 0.0}]

            if split:
                wd = [k for i, k in enumerate("wbg") if (split >> i) & 1]
                cfg = dict(loss="frame_norm", acc=1, bs=2, clip=(0, 0), opt="adamw", lr="const", wd_names=wd, split=split)
                _run_one(cfg, ctx, {"param_groups_custom": groups})
        ctx.outcome("groups")
        return
    if case.get("t") == "struct":
        return _struct(case["bl"], ctx)
    if case.get("t") == "noise":
        return _noise(ctx)
    if case.get("t") == "report":
        # further reported scores: they do not change the training, and they have the right value
        gn = case["gn"]
        for exp, acc, clip, loss in itertools.product([False, True], [1, 2, "dyn_step"], [(0, 0), (0.4, 0.5)], ["frame", "two", "zero_err", "custom_norm"]):
            cfg = dict(loss=loss, acc=acc, bs=2, clip=clip, opt="sgd", lr="mult", exp=exp, gnp={None: 0, True: 2, "true": 2}.get(gn, gn) if not isinstance(gn, (int, float)) or gn is True else gn)
            _run_one(cfg, ctx, extra_cfg={"calculate_exp_loss": exp, "log_grad_norm": gn})
        ctx.outcome("report")
        return
    if case.get("t") == "nonfinite":
        return _nonfinite(case["step"], ctx)
    keys = ["loss", "acc", "bs", "clip", "opt", "lr"]
    for vals in itertools.product(*[case[k] for k in keys]):
        cfg = dict(zip(keys, vals))
        _run_one(cfg, ctx)
        ctx.outcome(cfg["loss"] + cfg["opt"])


def check_vacuity(total):
    if total.transitions < 5000:
        return f"only {total.transitions} train steps"


if __name__ == "__main__":
    harness.main(__name__)
