"""C21: torch Engine: training interrupted at any file operation and resumed gives bitwise the same as the uninterrupted training."""
import os, shutil, itertools, math
from vlib import harness, vos
from vlib.harness import Violation, expect, expect_eq

PID = "C21"
LEVEL = "model_checking"
RULE = (
    "case = (training config, crash bound, subtree); every crash point (before each file operation of the training process, incl. half-written checkpoint files) is one"
    " execution of the real torch Engine on real files, followed by restarted processes until the training finishes; oracle = uninterrupted run of the same config (bitwise: params,"
    " optimizer state, learning rates, scores, steps); state = (config, crash trace); outcome = (crash op, resumed epoch)"
)
BOUNDS = {
    "quick": "10 training configs (optimizers, lr policies, accumulation, shuffling, save_interval, cleanup), 3-4 epochs of 2-4 steps, every single crash point; every pair of crash points for two configs of 2 epochs",
    "thorough": "4-5 epochs; every pair of crash points for 4 configs",
}
CASE_TIMEOUT = 600
ASSUMPTIONS = [
    "rename is atomic, a killed process loses unflushed buffers",
    "kill is modelled before every Python-level file operation and in the middle of writing a checkpoint file",
    "CPU, one process, num_workers=0",
]


def _configs(tier):
    x = 0 if tier == "quick" else 1
    adam = {"class": "adamw", "weight_decay": 0.1}
    out = {
        "const": dict(num_epochs=3 + x, optimizer=adam, learning_rate=0.05),
        "newbob": dict(num_epochs=4 + x, optimizer=adam, learning_rate=0.3, learning_rate_control="newbob_rel", newbob_relative_error_threshold=-0.3, learning_rate_decay=0.5, learning_rate_control_error_measure="dev_loss_mse"),
        "multi": dict(num_epochs=4 + x, optimizer={"class": "sgd", "momentum": 0.9}, learning_rate=0.02, learning_rate_control="newbob_multi_epoch", newbob_multi_num_epochs=2, newbob_multi_update_interval=1, newbob_relative_error_threshold=-0.9, learning_rate_decay=0.7),
        "cleanup": dict(num_epochs=4 + x, optimizer=adam, learning_rate=0.05, cleanup_old_models={"keep_last_n": 1, "keep_best_n": 1, "keep": []}),
        "cleanup_opt": dict(num_epochs=4 + x, optimizer=adam, learning_rate=0.05, cleanup_old_models={"keep_last_n": 2, "keep_best_n": 1, "keep": []}, apply_cleanup_old_models_to_optim_states=True),
        "interval": dict(num_epochs=5, optimizer=adam, learning_rate=0.05, save_interval=2),
        "accum": dict(num_epochs=3, optimizer=adam, learning_rate=0.05, accum_grad_multiple_step=2, gradient_clip_global_norm=0.5, gradient_noise=0.1),
        "shuffle": dict(num_epochs=3, optimizer=adam, learning_rate=0.05, online_shuffle_batches=3),
        "dynlr": dict(num_epochs=3, optimizer={"class": "radam"}, learning_rate=0.05, dyn_lr=True, learning_rates=[0.1, 0.05, 0.02]),
        "partition": dict(num_epochs=4, optimizer=adam, learning_rate=0.05, partition_epoch=2, calculate_exp_loss=True),
    }
    return out


def gen_cases(tier):
    for name in _configs(tier):
        for part in range(4):
            yield dict(cfg=name, c=1, part=part, parts=4, n=None, tier=tier)
    for name in ["const", "cleanup"] + (["interval", "newbob"] if tier != "quick" else []):
        for part in range(16):
            yield dict(cfg=name, c=2, part=part, parts=16, n=2 if tier == "quick" else 3, tier=tier)


def worker_init():
    from returnn.log import log

    log.initialize(verbosity=[0])
    import returnn.torch.engine  # noqa
    from returnn.util.basic import BackendEngine, BehaviorVersion, describe_returnn_version

    BackendEngine.select_engine(engine=BackendEngine.Torch)
    BehaviorVersion.set_min_behavior_version(20)
    describe_returnn_version()
    import torch

    torch.set_num_threads(1)
    import gc

    gc.collect = lambda *args: 0  # the engine calls it often; only costs time here
    vos.install()
    real_save, real_load = torch.save, torch.load

    def save(obj, f, *args, **kw):
        a = vos.cur()
        if a is None or not isinstance(f, (str, os.PathLike)):
            return real_save(obj, f, *args, **kw)
        w = a.world
        base = os.path.basename(str(f))
        w.point(("torch.save", base))
        with vos.native():
            real_save(obj, f, *args, **kw)
            with open(f, "rb") as ff:
                data = ff.read()
            with open(f, "wb") as ff:
                ff.write(data[: len(data) // 2])
        w.point(("torch.save-rest", base))
        with vos.native():
            with open(f, "wb") as ff:
                ff.write(data)

    def load(*args, **kw):
        with vos.native():
            return real_load(*args, **kw)

    torch.save, torch.load = save, load

    class Val:
        def __init__(self, typecode, value):
            self.value = value

    class Manager:
        """in-process stand-in for the manager server process (only to save the time to start it)"""

        Value = Val

        def __getattr__(self, k):
            return getattr(_real_manager(), k)

    real_mgr = torch.multiprocessing.Manager
    mgrs = []

    def _real_manager():
        if not mgrs:
            with vos.native():
                mgrs.append(real_mgr())
        return mgrs[0]

    torch.multiprocessing.Manager = Manager


def _model(**_kw):
    import torch

    class M(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.lin = torch.nn.Linear(2, 3)
            self.drop = torch.nn.Dropout(0.3)
            self.out = torch.nn.Linear(3, 1)
            self.register_buffer("count", torch.zeros(()))

    return M()


_epochs = None  # log of (epoch, global step)


def _train_step(*, model, extern_data, **_kw):
    import torch
    import returnn.frontend as rf

    x = extern_data["data"].raw_tensor
    ctx = rf.get_run_ctx()
    if ctx.train_flag is True or getattr(ctx.train_flag, "raw_tensor", False):
        model.count += 1
        _epochs.append((ctx.epoch, ctx.step))
    y = model.out(torch.tanh(model.drop(model.lin(x))))
    lens = extern_data["data"].dims[1].dyn_size_ext.raw_tensor
    mask = torch.arange(x.shape[1])[None, :] < lens[:, None]
    loss = ((y[..., 0] - x.sum(-1)) ** 2)[mask]
    ctx.mark_as_loss(loss, "mse")


def _dyn_lr(*, global_train_step, learning_rate, **_kw):
    return learning_rate / (1 + global_train_step * 0.1)


def _dataset(name, seed, n, partition):
    import numpy
    from returnn.datasets.basic import init_dataset

    rnd = numpy.random.RandomState(seed)
    data = [{"data": rnd.normal(size=(1 + i % 3, 2)).astype("float32")} for i in range(n)]
    opts = {"class": "StaticDataset", "data": data, "output_dim": {"data": (2, 2)}, "name": name, "seq_ordering": "random" if name == "train" else "default"}
    if name == "train" and partition:
        opts["partition_epoch"] = partition
    return init_dataset(opts)


def _train(cfg, root):
    """one process: train until the end"""
    from returnn.config import Config, global_config_ctx
    from returnn.torch.engine import Engine

    cfg = dict(cfg)
    partition = cfg.pop("partition_epoch", None)
    if cfg.pop("dyn_lr", False):
        cfg["dynamic_learning_rate"] = _dyn_lr
    config = Config(
        dict(
            task="train", device="cpu", extern_data={"data": {"dim": 2}}, get_model=_model, train_step=_train_step, max_seqs=2, batch_size=100, torch_dataloader_opts={"num_workers": 0},
            model=root + "/net-model/network", learning_rate_file=root + "/lr.txt", random_seed=7, **cfg,
        )
    )
    with global_config_ctx(config):
        e = Engine(config=config)
        e.init_train_from_config(train_data=_dataset("train", 1, 7, partition), dev_data=_dataset("dev", 2, 3, None), eval_data=_dataset("eval", 3, 2, None))
        e.train()


def _result(cfg, root):
    """everything relevant on disk"""
    import torch, returnn
    from returnn.learning_rate_control import ConstantLearningRate

    n = cfg["num_epochs"]
    base = f"{root}/net-model/network.{n:03d}"

    def canon(x):
        if isinstance(x, torch.Tensor):
            return (str(x.dtype), tuple(x.shape), x.detach().numpy().tobytes())
        if isinstance(x, dict):
            return {k: canon(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [canon(v) for v in x]
        return repr(x)

    out = {}
    out["model"] = canon(torch.load(base + ".pt"))
    out["opt"] = canon(torch.load(base + ".opt.pt"))
    lrc = ConstantLearningRate(default_learning_rate=1.0, filename=root + "/lr.txt")
    for ep, d in lrc.epoch_data.items():
        out[f"lr file epoch {ep}"] = (d.learning_rate, canon(d.error), [(k, repr(d.meta.get(k))) for k in ("global_train_step", "effective_learning_rate", "epoch_num_train_steps", "global_train_step_end")])
    models = {}
    for f in sorted(os.listdir(root + "/net-model")):
        if f.endswith(".pt") and not f.endswith(".opt.pt"):
            models[f] = canon(torch.load(f"{root}/net-model/{f}")["model"])
    out["models"] = models
    return out


_ref = {}


def _reference(name, cfg):
    global _epochs
    if name not in _ref:
        root = os.environ["TMPDIR"] + "/ref-" + name
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        _epochs = []
        _train(cfg, root)
        _ref[name] = (_result(cfg, root), list(_epochs))
        shutil.rmtree(root)
    return _ref[name]


def run_case(case, ctx):
    global _epochs
    cfg = _configs(case["tier"])[case["cfg"]]
    if case["n"]:
        cfg = dict(cfg, num_epochs=case["n"])
    ref, ref_epochs = _reference(f"{case['cfg']}-{case['n']}", cfg)
    n, iv = cfg["num_epochs"], cfg.get("save_interval", 1)
    ctx.sample({"config": case["cfg"], "epochs": n, "train steps": len(ref_epochs)})

    def make(w):
        root = os.environ["TMPDIR"] + "/eng"
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        w.root = root
        w.tick = 0.25
        w.runs = []
        procs = [w.proc(f"P{i}") for i in range(case["c"] + 1)]

        def body(i):
            def f():
                global _epochs
                if i:
                    vos.wait_until(lambda: procs[i - 1].dead or acts[i - 1].state == "done", "start")
                    if not procs[i - 1].dead:
                        return "not needed"
                w.runs.append([])
                _epochs = w.runs[-1]
                _train(cfg, root)
                return "finished"

            return f

        acts = []
        for i, p in enumerate(procs):
            acts.append(w.spawn(p, f"P{i}", body(i)))

    def check(w):
        desc = f"config {case['cfg']} {cfg}, killed at {w.crashed}"
        ctx.trans(len(w.trace))
        ctx.trace()
        ctx.state((case["cfg"], case["n"], tuple(w.crashed)))
        ctx.outcome((case["cfg"], tuple(d[1][0] if not isinstance(d[1], str) else d[1] for d in w.crashed), tuple(r[0][0] if r else None for r in w.runs)))
        ctx.count("crash_executions", 1 if w.crashed else 0)
        if w.run_error is not None:
            raise Violation(f"{desc}: {w.run_error}")
        for a in w.actors:
            if a.exc is not None:
                raise Violation(f"{desc}: process {a.name} (restarted) failed: {type(a.exc).__name__}: {a.exc}")
        # no more than the not yet saved epochs are trained again
        done = 0
        for i, r in enumerate(w.runs):
            eps = [e for e, _ in r]
            if i > 0 and eps:
                last_saved = done // iv * iv
                if eps[0] < last_saved + 1:
                    raise Violation(f"{desc}: restarted process {i} begins at epoch {eps[0]}, although epoch {last_saved} was completed and saved")
            if eps:
                expect(sorted(eps) == eps, lambda: f"{desc}: epochs {eps}")
                done = max(done, eps[-1] - 1)  # the previous epoch was completely finished
                for e in set(eps[:-1]) if eps else ():
                    pass
                for e in sorted(set(eps)):
                    got = [x for x in r if x[0] == e]
                    exp = [x for x in ref_epochs if x[0] == e]
                    expect(got == exp[: len(got)] and (e == eps[-1] or got == exp), lambda: f"{desc}: process {i}: train steps (epoch, global step) {got}, uninterrupted {exp}")
        res = _result(cfg, w.root)
        for k in ref:
            if k == "models":
                for f in ref[k]:
                    expect(f in res[k], lambda: f"{desc}: final model {f} not there, have {list(res[k])}")
                for f in res[k]:
                    if f in ref[k] and res[k][f] != ref[k][f]:
                        raise Violation(f"{desc}: checkpoint {f} differs from the uninterrupted training")
                continue
            if res.get(k) != ref[k]:
                a, b = res.get(k), ref[k]
                if isinstance(a, dict):
                    bad = [x for x in b if a.get(x) != b[x]]
                    raise Violation(f"{desc}: {k}: entries {bad} differ from the uninterrupted training: " + str([(a.get(x), b[x]) for x in bad if isinstance(b[x], str)])[:500])
                raise Violation(f"{desc}: {k}: {str(a)[:600]} differs from the uninterrupted training: {str(b)[:600]}")
        expect(set(res) == set(ref), lambda: f"{desc}: {set(res) ^ set(ref)}")
        tmp = [f for f in os.listdir(w.root + "/net-model") if f.endswith(f"{n:03d}.pt") and "tmp" in f]
        expect(not tmp, lambda: f"{desc}: {tmp}")

    vos.explore(make, check, max_preempt=0, max_crash=case["c"], crashable=[f"P{i}" for i in range(case["c"])], part=case["part"], parts=case["parts"], max_steps=5000, crash_skip_reads=True)


def check_vacuity(total):
    if total.extra.get("crash_executions", 0) < 200 or len(total.outcomes) < 50:
        return f"too few crash executions: {total.extra}, {len(total.outcomes)} outcomes"


if __name__ == "__main__":
    harness.main(__name__)
