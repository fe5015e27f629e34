"""C24: distributed training (torch): all workers stay in sync, for every distribution of the data."""
import itertools, os, pickle, shutil, struct, sys, tempfile, traceback
from vlib import harness, teng
from vlib.harness import Violation, expect, expect_eq

PID = "C24"
LEVEL = "model_checking"
RULE = (
    "case = (mode, number of workers); for each (batches per worker, accumulation, sync interval, eval datasets, order of execution of the workers, restart) the real torch Engine runs in one process per worker;"
    " the collectives are served by a monitor which runs the workers one after the other between two collectives, in the given order, and requires that all workers do the same collective (otherwise: deadlock);"
    " oracle = closed form of the training; state = config; transition = collective operation"
)
BOUNDS = {
    "quick": "2 workers: 1..3 batches each (all tuples) x accumulation {1,2} x (param averaging every 1, 2, 3 steps, on CPU or not; gradient averaging) x all orders of execution; 3 workers: 1..2 batches; eval datasets of 1, 2, 100, 101 batches, none, two; 2 epochs, uninterrupted / restarted / eval missing at the restart; learning rate by list and by newbob",
    "thorough": "2 workers: 1..4 batches; 3 workers: 1..3 batches",
}
ASSUMPTIONS = [
    "CPU instead of CUDA devices; the distributed context is put into the Engine (which only accepts CUDA there); the collectives follow the torch.distributed definition",
    "gradient averaging via a user-defined class option in place of DistributedDataParallel (which needs CUDA with device_ids)",
]
CASE_TIMEOUT = 850
LR = 0.05


def parent_init():
    teng.init()
    import returnn.torch.distributed
    import torch, torch.optim, torch._dynamo  # warm up, for the forked workers

    p = torch.nn.Parameter(torch.zeros(1))
    o = torch.optim.SGD([p], lr=0.1)
    p.grad = torch.zeros(1)
    o.step()


# -------------------------------------------------------------------------------------- worker


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<q", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _recv(fd):
    def rd(n):
        out = b""
        while len(out) < n:
            x = os.read(fd, n - len(out))
            if not x:
                raise EOFError
            out += x
        return out

    (n,) = struct.unpack("<q", rd(8))
    return pickle.loads(rd(n))


def _patch_dist(rank, size, rfd, wfd):
    import torch
    import torch.distributed as dist

    def coll(kind, desc, payload):
        _send(wfd, ("coll", kind, desc, payload))
        return _recv(rfd)

    class Work:
        def wait(self, *a):
            return True

    def fin(async_op):
        return Work() if async_op else None

    def all_reduce(tensor, op=dist.ReduceOp.SUM, group=None, async_op=False):
        if op == getattr(dist.ReduceOp, "AVG", None):
            raise RuntimeError("Cannot use ReduceOp.AVG with Gloo")
        r = coll("all_reduce", (str(op), tuple(tensor.shape), str(tensor.dtype)), tensor.detach().numpy().copy())
        with torch.no_grad():
            tensor.copy_(torch.from_numpy(r))
        return fin(async_op)

    def broadcast(tensor, src, group=None, async_op=False):
        r = coll("broadcast", (src, tuple(tensor.shape), str(tensor.dtype)), tensor.detach().numpy().copy())
        with torch.no_grad():
            tensor.copy_(torch.from_numpy(r))
        return fin(async_op)

    def broadcast_object_list(object_list, src=0, group=None, device=None):
        r = coll("broadcast_object_list", (src, len(object_list)), pickle.dumps(list(object_list)))
        object_list[:] = pickle.loads(r)

    def barrier(*a, **kw):
        coll("barrier", (), None)

    def unsupported(name):
        def f(*a, **kw):
            raise NotImplementedError("collective %s is not in the model" % name)

        return f

    for n in ("all_gather", "reduce", "gather", "scatter", "reduce_scatter", "all_to_all", "send", "recv", "all_gather_object", "gather_object"):
        setattr(dist, n, unsupported(n))
    dist.all_reduce, dist.broadcast, dist.broadcast_object_list, dist.barrier = all_reduce, broadcast, broadcast_object_list, barrier
    dist.init_process_group = lambda *a, **kw: None
    dist.get_rank = lambda *a: rank
    dist.get_world_size = lambda *a: size
    dist.get_backend = lambda *a: "gloo"
    dist.is_initialized = lambda: True

    class PG:
        pass

    def new_group(*a, **kw):
        coll("new_group", (), None)
        return PG()

    dist.ProcessGroup = PG
    dist.new_group = new_group
    dist.is_available = lambda: True
    os.environ["LOCAL_RANK"] = str(rank)
    os.environ["LOCAL_WORLD_SIZE"] = str(size)


def _make_ddp():
    import torch, contextlib
    import torch.distributed as dist

    class GradAvg(torch.nn.Module):
        def __init__(self, module, device_ids=None):
            super().__init__()
            self.module = module
            self.sync = True
            for name, p in sorted(module.named_parameters()):
                p.register_post_accumulate_grad_hook(self.hook)

        def hook(self, p):
            if self.sync:
                dist.all_reduce(p.grad)
                p.grad /= dist.get_world_size()

        @contextlib.contextmanager
        def no_sync(self):
            self.sync = False
            try:
                yield
            finally:
                self.sync = True

        def forward(self, *args, **kw):
            return self.module(*args, **kw)

    return GradAvg


_F = None
_rec = []


def _model(**_kw):
    import returnn.frontend as rf
    import torch

    class M(rf.Module):
        def __init__(self):
            super().__init__()
            self.w = rf.Parameter([_F])
            self.b = rf.Parameter([])

    m = M()
    with torch.no_grad():
        m.w.raw_tensor.copy_(torch.tensor([0.3, -0.8]))
        m.b.raw_tensor.fill_(0.2)
    return m


def _train_step(*, model, extern_data, **_kw):
    import returnn.frontend as rf

    x, t = extern_data["data"], extern_data["target"]
    y = rf.matmul(x, model.w, reduce=_F) + model.b
    tt = rf.squeeze(t, axis=t.dims[2])
    d = (y - tt) * (y - tt)
    rf.get_run_ctx().mark_as_loss(d, "mse")
    _rec.append((float(x.raw_tensor.flatten()[0]), float(rf.random_uniform([]).raw_tensor) if rf.get_run_ctx().train_flag else None))


def _lens(rank, n):
    return [1 + (rank + i) % 2 for i in range(n)]


def _data(rank, n):
    return teng.seqs(_lens(rank, n), salt=0.3 + rank)


def _dev_data(name, n):
    return teng.seqs([1 + i % 2 for i in range(n)], salt={"dev": 5.5, "eval": 7.1}[name])


def _train_dataset(rank, cfg):
    if cfg.get("shuffle"):
        return teng.dataset("train", _data(0, cfg["n"][rank]), seq_ordering="random")
    return teng.dataset("train", _data(rank, cfg["n"][rank]))


def _worker(rank, size, cfg, num_epochs, evals, rfd, wfd, path):
    global _F
    import torch
    from returnn.config import Config, global_config_ctx
    from returnn.torch.engine import Engine
    from returnn.tensor import Dim, batch_dim

    _patch_dist(rank, size, rfd, wfd)
    writes = []
    pid = os.getpid()

    def hook(event, args):
        try:
            if event == "open" and isinstance(args[0], str) and args[0].startswith(path) and (args[2] & (os.O_WRONLY | os.O_RDWR)):
                writes.append(("open", args[0][len(path) :]))
            elif event in ("os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.link", "os.symlink", "os.truncate") and str(args[0]).startswith(path):
                writes.append((event, str(args[0])[len(path) :]))
        except Exception:
            pass

    sys.addaudithook(hook)
    _recv(rfd)  # go

    _F = Dim(2, name="F")
    time_dim = Dim(None, name="time")
    extern = {"data": {"dims": [batch_dim, time_dim, _F], "dtype": "float32"}, "target": {"dims": [batch_dim, time_dim, Dim(1, name="one")], "dtype": "float32"}}
    opts = {"reduce_type": "param", "param_sync_step": cfg["sync"]} if cfg["mode"] == "param" else {"reduce_type": "grad", "class": _make_ddp()}
    if cfg.get("cpu"):
        opts["sync_on_cpu"] = True
    lr = dict(learning_rates=[LR, LR / 2]) if cfg["lr"] == "list" else dict(learning_rate=LR, learning_rate_control="newbob", learning_rate_control_error_measure="dev_loss_mse", newbob_relative_error_threshold=-0.5, newbob_learning_rate_decay=0.5)
    config = Config(
        dict(task="train", device="cpu", extern_data=extern, get_model=_model, train_step=_train_step, max_seqs=1, batch_size=100, torch_dataloader_opts={"num_workers": 0}, random_seed=3, backend="torch",
             num_epochs=num_epochs, model=path + "/net/model", learning_rate_file=path + "/lrs", optimizer={"class": "sgd"}, accum_grad_multiple_step=cfg["acc"], use_last_best_model=None, **lr)
    )
    config.typed_dict.pop("use_last_best_model")
    with global_config_ctx(config):
        e = Engine(config=config)
        config.set("torch_distributed", opts)
        import returnn.torch.distributed as rd

        if not hasattr(e, "_torch_distributed_ctx"):
            return "cannot"
        e._torch_distributed_ctx = rd.get_ctx(config=config)
        eval_data = {n: teng.dataset(n, _dev_data(n, k)) for n, k in evals}
        e.init_train_from_config(train_data=_train_dataset(rank, cfg), dev_data=eval_data.pop("dev", None), eval_data=eval_data.pop("eval", None))
        e.train()
    lrc = e.learning_rate_control
    return {
        "params": {n: p.detach().numpy().tolist() for n, p in e.get_pt_model().named_parameters()},
        "steps": {ep: d.meta.get("epoch_num_train_steps") for ep, d in lrc.epoch_data.items()},
        "lr": {ep: d.learning_rate for ep, d in lrc.epoch_data.items()},
        "scores": {ep: dict(d.error) for ep, d in lrc.epoch_data.items()},
        "writes": writes,
        "rec": _rec,
    }


# -------------------------------------------------------------------------------------- monitor


def _run(cfg, num_epochs, evals, path, order, ctx, what):
    size = len(cfg["n"])
    ws = []
    for rank in range(size):
        r1, w1 = os.pipe()  # to worker
        r2, w2 = os.pipe()  # from worker
        pid = os.fork()
        if pid == 0:
            rc = 0
            try:
                os.close(w1), os.close(r2)
                for o in ws:
                    os.close(o["w"]), os.close(o["r"])
                try:
                    res = _worker(rank, size, cfg, num_epochs, evals, r1, w2, path)
                    _send(w2, ("end", res))
                except BaseException as exc:
                    _send(w2, ("exc", "%s: %s" % (type(exc).__name__, str(exc)[:300]), traceback.format_exc()[-1500:]))
            finally:
                os._exit(rc)
        os.close(r1), os.close(w2)
        ws.append({"pid": pid, "w": w1, "r": r2})
    replies = ["go"] * size
    import numpy as np

    try:
        while True:
            msgs = [None] * size
            for i in order:
                _send(ws[i]["w"], replies[i])
                try:
                    msgs[i] = _recv(ws[i]["r"])
                except EOFError:
                    msgs[i] = ("exc", "worker died", "")
                if msgs[i][0] == "exc":
                    if "not in the model" in msgs[i][1]:
                        return None
                    raise Violation("%s: worker %i fails: %s" % (what, i, msgs[i][1]), key="exc")
            kinds = [m[:3] if m[0] == "coll" else (m[0],) for m in msgs]
            if all(k == ("end",) for k in kinds):
                if any(m[1] == "cannot" for m in msgs):
                    return None
                return [m[1] for m in msgs]
            if len(set(kinds)) != 1:
                raise Violation("%s: the workers are out of sync (deadlock, or wrong data): %s" % (what, "; ".join("worker %i: %s" % (i, " ".join(map(str, k))) for i, k in enumerate(kinds))), key="sync")
            ctx.trans()
            kind, desc = msgs[0][1], msgs[0][2]
            if kind == "all_reduce":
                op = desc[0].split(".")[-1]
                f = {"SUM": lambda a: sum(a[1:], a[0]), "MIN": lambda a: np.minimum.reduce(a), "MAX": lambda a: np.maximum.reduce(a), "PRODUCT": lambda a: np.multiply.reduce(a)}[op]
                r = f([m[3] for m in msgs])
                r = np.asarray(r).astype(msgs[0][3].dtype)
                replies = [r] * size
            elif kind in ("broadcast", "broadcast_object_list"):
                replies = [msgs[desc[0]][3]] * size
            else:
                replies = [None] * size
    finally:
        for w in ws:
            os.close(w["w"]), os.close(w["r"])
            try:
                os.kill(w["pid"], 9)
            except ProcessLookupError:
                pass
            os.waitpid(w["pid"], 0)


# -------------------------------------------------------------------------------------- oracle


def _loss_grad(P, seq):
    import numpy as np

    x, t = seq["data"].astype("float64"), seq["target"][:, 0].astype("float64")
    d = x @ P[0] + P[1] - t
    return (d**2).sum(), len(t), (2 * (d[:, None] * x).sum(0), 2 * d.sum())


def _ref(cfg, evals_by_epoch, restart):
    """:return: per epoch: params per worker, steps, scores, lr"""
    import numpy as np

    size = len(cfg["n"])
    P = [(np.array([0.3, -0.8]), 0.2) for _ in range(size)]
    out = []
    steps = min(cfg["n"])
    lr = LR
    prev_dev = None
    for ep in (1, 2):
        if cfg["lr"] == "list":
            lr = [LR, LR / 2][ep - 1]
        elif ep == 2:
            pass
        if ep == 2 and restart:
            P = [P[0]] * size
        tot, cnt = [0.0] * size, [0] * size
        G = [None] * size
        c = 0
        for i in range(steps):
            for r in range(size):
                l, n, g = _loss_grad(P[r], _data(r, cfg["n"][r])[i])
                tot[r] += l
                cnt[r] += n
                G[r] = g if G[r] is None else (G[r][0] + g[0], G[r][1] + g[1])
            c += 1
            if c >= cfg["acc"]:
                GG = G
                if cfg["mode"] == "grad":
                    avg = (sum(g[0] for g in G) / size, sum(g[1] for g in G) / size)
                    GG = [avg] * size
                P = [(P[r][0] - lr * GG[r][0], P[r][1] - lr * GG[r][1]) for r in range(size)]
                G, c = [None] * size, 0
            if cfg["mode"] == "param" and i % cfg["sync"] == cfg["sync"] - 1:
                P = [(sum(p[0] for p in P) / size, sum(p[1] for p in P) / size)] * size
        scores = {"train_loss_mse": tot[0] / cnt[0]}
        for name, k in evals_by_epoch[ep - 1]:
            s = [_loss_grad(P[0], q) for q in _dev_data(name, k)]
            scores[name + "_loss_mse"] = sum(a[0] for a in s) / sum(a[1] for a in s)
        out.append({"params": P, "steps": steps, "scores": scores, "lr": lr})
    return out


def _one(cfg, ctx):
    what = "distributed training %r" % (cfg,)
    path = tempfile.mkdtemp(prefix="c24-")
    try:
        evals = cfg["evals"]
        if cfg["restart"] == "no":
            runs = [_run(cfg, 2, evals, path, cfg["order"], ctx, what)]
        else:
            runs = [_run(cfg, 1, [] if cfg["restart"] == "noeval" else evals, path, cfg["order"], ctx, what + " (first run)")]
            if runs[0] is not None:
                runs.append(_run(cfg, 2, evals, path, cfg["order2"], ctx, what + " (second run)"))
        if any(r is None for r in runs):
            ctx.outcome("cannot run the Engine in this way")
            return
        ref = _ref(cfg, [evals, evals], cfg["restart"] != "no")
        size = len(cfg["n"])
        for run, res in enumerate(runs):
            for r in range(size):
                if r != 0:
                    expect(not res[r]["writes"], lambda: "%s: worker %i writes or removes files: %r" % (what, r, res[r]["writes"][:4]), key="writes")
            ep = 2 if run == len(runs) - 1 else 1
            for r in range(size):
                w, b = ref[ep - 1]["params"][r]
                p = res[r]["params"]
                diff = max(max(abs(x - y) for x, y in zip(p["w"], w)), abs(p["b"] - b))
                expect(diff < 1e-4, lambda: "%s: after epoch %i, worker %i has the params %r, expected w %r b %r" % (what, ep, r, p, w.tolist(), float(b)), key="params")
                for e in range(1, ep + 1):
                    if e in res[r]["steps"]:
                        expect(res[r]["steps"][e] in (ref[e - 1]["steps"], None), lambda: "%s: worker %i did %r steps in epoch %i, expected %i" % (what, r, res[r]["steps"][e], e, ref[e - 1]["steps"]), key="steps")
                    expect_eq(res[r]["lr"].get(e), res[0]["lr"].get(e), "%s: learning rate of epoch %i: worker %i and worker 0" % (what, e, r), )
                    expect_eq(res[r]["scores"].get(e), res[0]["scores"].get(e), "%s: scores of epoch %i: worker %i and worker 0" % (what, e, r))
            for e in range(1, ep + 1):
                if cfg["lr"] == "list":
                    expect(abs(res[0]["lr"][e] - ref[e - 1]["lr"]) < 1e-9, lambda: "%s: learning rate %r in epoch %i" % (what, res[0]["lr"], e), key="lr")
                want = dict(ref[e - 1]["scores"])
                if run == 0 and cfg["restart"] == "noeval":
                    want = {k: v for k, v in want.items() if k.startswith("train")}
                got = res[0]["scores"][e]
                expect(set(got) == set(want) and all(abs(got[k] - want[k]) < 1e-4 * max(1, abs(want[k])) for k in want), lambda: "%s: scores of epoch %i: %r, expected %r" % (what, e, got, want), key="scores")
        import torch

        for ep in (1, 2):
            fn = path + "/net/model.%03i.pt" % ep
            expect(os.path.exists(fn), lambda: "%s: no checkpoint of epoch %i: %r" % (what, ep, os.listdir(path + "/net")), key="ckpt")
            p = torch.load(fn)["model"]
            w, b = ref[ep - 1]["params"][0]
            diff = max(max(abs(float(x) - y) for x, y in zip(p["w"], w)), abs(float(p["b"]) - b))
            expect(diff < 1e-4, lambda: "%s: the checkpoint of epoch %i has %r, expected %r %r" % (what, ep, p, w, b), key="ckpt")
        ctx.state(cfg)
        ctx.count("trainings")
        ctx.outcome("in sync")
    finally:
        shutil.rmtree(path, ignore_errors=True)


def _seeds(cfg, ctx):
    """the workers have different data orders and random numbers"""
    what = "distributed training with the same shuffled dataset %r" % (cfg,)
    path = tempfile.mkdtemp(prefix="c24-")
    try:
        res = _run(cfg, 2, [], path, [0, 1, 2], ctx, what)
        if res is None:
            return
        n = cfg["n"][0]
        for a, b in ((0, 1), (0, 2), (1, 2)):
            ra, rb = res[a]["rec"], res[b]["rec"]
            expect_eq([len(ra), len(rb)], [2 * n] * 2, what + ": number of steps")
            for ep in range(2):
                x, y = ra[ep * n : (ep + 1) * n], rb[ep * n : (ep + 1) * n]
                expect_eq(sorted(v[0] for v in x), sorted(v[0] for v in y), what + ": data of workers %i and %i" % (a, b))
                expect([v[0] for v in x] != [v[0] for v in y], lambda: "%s: workers %i and %i use the same order of the data in epoch %i: %r" % (what, a, b, ep + 1, x), key="same-order")
                expect(not (set(v[1] for v in x) & set(v[1] for v in y)), lambda: "%s: workers %i and %i use the same random numbers in epoch %i: %r" % (what, a, b, ep + 1, x), key="same-random")
        ctx.state(cfg)
    finally:
        shutil.rmtree(path, ignore_errors=True)


MODES = [("param", 1, False), ("param", 2, False), ("param", 3, False), ("param", 2, True), ("grad", 0, False)]
EVALS = [[], [("dev", 1)], [("dev", 2)], [("dev", 2), ("eval", 1)], [("dev", 100)], [("dev", 101)]]


def gen_cases(tier):
    for mode, sync, cpu in MODES:
        for size in (2, 3):
            m = (4 if size == 2 else 3) if tier != "quick" else (3 if size == 2 else 2)
            for n0 in range(1, m + 1):
                yield {"mode": mode, "sync": sync, "cpu": cpu, "size": size, "n0": n0, "m": m}
    yield {"seeds": True}
    for mode, sync, cpu in (MODES[1], MODES[4]):
        for i in range(len(EVALS)):
            yield {"mode": mode, "sync": sync, "cpu": cpu, "evals": i}


def run_case(case, ctx):
    if case.get("seeds"):
        for mode, sync in (("param", 2), ("grad", 0)):
            _seeds({"mode": mode, "sync": sync, "n": [6, 6, 6], "acc": 1, "lr": "list", "shuffle": True}, ctx)
        return
    base = {"mode": case["mode"], "sync": case["sync"], "cpu": case["cpu"]}
    if "evals" in case:
        ev = EVALS[case["evals"]]
        for lr in ("list", "newbob") if any(n == "dev" for n, _ in ev) else ("list",):
            for restart in ("no", "yes", "noeval") if ev else ("no", "yes"):
                if restart == "noeval" and lr == "newbob":
                    continue
                for order in ([0, 1], [1, 0]):
                    for order2 in ([0, 1], [1, 0]) if restart != "no" else (order,):
                        _one(dict(base, n=[2, 3], acc=1, evals=ev, lr=lr, restart=restart, order=order, order2=order2), ctx)
        return
    size = case["size"]
    for rest in itertools.product(range(1, case["m"] + 1), repeat=size - 1):
        n = [case["n0"]] + list(rest)
        for acc in (1, 2):
            orders = [list(o) for o in itertools.permutations(range(size))]
            if size == 3:
                orders = orders[:1] + orders[-1:]
            for order in orders:
                for restart in ("no", "yes"):
                    if size == 3 and restart == "yes" and order != orders[0]:
                        continue
                    _one(dict(base, n=n, acc=acc, evals=[("dev", 1)], lr="list", restart=restart, order=order, order2=order[::-1]), ctx)


if __name__ == "__main__":
    harness.main(__name__)
