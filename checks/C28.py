"""C28: loading of checkpoints: every parameter gets exactly the declared value, nothing is silently left uninitialized."""
import itertools, os, shutil, tempfile
from vlib import harness, teng
from vlib.harness import Violation, expect, expect_eq

PID = "C28"
LEVEL = "model_checking"
RULE = (
    "case = (task, main checkpoint, first entry of preload_from_files); run_case loads the model with the real torch Engine for all second entries (and none), both orders of the entries; reference = per parameter the value by the documented precedence, or an error;"
    " state = (task, main checkpoint, entries); always: training, checkpoint content and restart"
)
BOUNDS = {
    "quick": "model with 6 parameters in 3 modules (one not critical for restore); tasks {first training epoch, with import_model_train_epoch1, training restart, forward}; main checkpoint {all, each missing one or a module, with additional / wrong shape}; 0..2 preload entries of 20 kinds, both orders",
    "thorough": "as quick, with all pairs for all main checkpoints and triples of entries",
}
ASSUMPTIONS = ["torch engine, CPU"]
CASE_TIMEOUT = 800

KEYS = ["enc.a", "enc.b", "dec.a", "dec.b", "out.w", "out.aux"]
INIT = {k: -1.0 - i for i, k in enumerate(KEYS)}
NON_CRITICAL = {"out.aux"}


def parent_init():
    teng.init()
    import torch

    torch.optim.SGD([torch.nn.Parameter(torch.zeros(1))], lr=0.1)


# preload entries: name -> opts; "file" = (content, checkpoint_key); content: key -> value
def _f(*keys, base, prefix="", **kw):
    return {prefix + k: base + i for i, k in enumerate(keys)}


PRE = {
    "enc": dict(prefix="enc.", content=_f("a", "b", base=100)),
    "enc_part": dict(prefix="enc.", content=_f("a", base=110)),
    "enc_part_ign": dict(prefix="enc.", content=_f("a", base=120), ignore_missing=True),
    "enc_other": dict(prefix="enc.", content=_f("b", "zz", base=130), ignore_missing=True),
    "dec": dict(prefix="dec.", content=_f("a", "b", base=200)),
    "dec_map": dict(prefix="dec.", content=_f("a", "other", base=210), var_name_mapping={"dec.b": "dec.other"}),
    "dec_ign_params": dict(prefix="dec.", content=_f("a", "b", base=220), ignore_params=["dec.b"], ignore_missing=True),
    "dec_ign_prefix": dict(prefix="dec.", content=_f("a", "b", base=230), ignore_params_prefixes=["dec.a"], ignore_missing=True),
    "dec_ign_err": dict(prefix="dec.", content=_f("a", "b", base=240), ignore_params=["dec.b"]),
    "full": dict(content=_f(*KEYS, base=300)),
    "full_key": dict(content=_f(*KEYS, base=310), checkpoint_key="state"),
    "full_nokey": dict(content=_f(*KEYS, base=320), checkpoint_key=None),
    "noprefix_part": dict(content=_f("enc.a", "dec.b", base=330)),
    "noprefix_ign": dict(content=_f("enc.a", "dec.b", "out.w", base=340), ignore_missing=True),
    "noprefix_map": dict(content=_f("x", "dec.a", base=350), var_name_mapping={"enc.b": "x"}, ignore_missing=True),
    "no_match": dict(prefix="enc.", content=_f("x", "y", base=360)),
    "bad_prefix": dict(prefix="foo.", content=_f("x", "y", base=370)),
    "wrong_shape": dict(prefix="enc.", content={"a": 380.0, "b": "shape"}),
    "random_dec": dict(pattern="dec.*"),
    "random_b": dict(pattern="*.b"),
}
MAIN = {
    "all": {k: 10.0 + i for i, k in enumerate(KEYS)},
    "no_enc_a": {k: 10.0 + i for i, k in enumerate(KEYS) if k != "enc.a"},
    "no_dec": {k: 10.0 + i for i, k in enumerate(KEYS) if not k.startswith("dec.")},
    "no_b": {k: 10.0 + i for i, k in enumerate(KEYS) if not k.endswith(".b")},
    "no_aux": {k: 10.0 + i for i, k in enumerate(KEYS) if k != "out.aux"},
    "extra": {**{k: 10.0 + i for i, k in enumerate(KEYS)}, "foo.x": 5.0},
    "shape": {**{k: 10.0 + i for i, k in enumerate(KEYS)}, "dec.a": "shape"},
}
TASKS = ["first", "import", "restart", "forward"]


def _ref(task, main, entries):
    """:return: (values or None for error, set of keys which stay out of our own checkpoints)"""
    val = dict(INIT)
    loaded, missing, ext = set(), set(), set()
    if main is not None:
        for k in KEYS:
            if k in MAIN[main]:
                if MAIN[main][k] == "shape":
                    return None, None
                val[k] = MAIN[main][k]
                loaded.add(k)
            else:
                missing.add(k)
    for _, (name, ift) in sorted(entries, reverse=True):
        o = PRE[name]
        if task == "forward":
            active = True
            if ift is True:
                active = False  # only for the first training epoch
        else:
            active = ift == "always" or (ift is True and task in ("first", "import"))
        if not active:
            continue
        if "pattern" in o:
            import fnmatch

            missing = {k for k in missing if not fnmatch.fnmatchcase(k, o["pattern"])}
            continue
        c = {o.get("prefix", "") + k: v for k, v in o["content"].items()}
        c = {k: v for k, v in c.items() if k not in o.get("ignore_params", ()) and not any(k.startswith(p) for p in o.get("ignore_params_prefixes", ()))}
        for new, old in o.get("var_name_mapping", {}).items():
            c[new] = c.pop(old)
        scope = [k for k in KEYS if k.startswith(o.get("prefix", ""))]
        if not scope or not any(k in c for k in scope):
            return None, None
        for k in KEYS:
            if k in c:
                if c[k] == "shape":
                    return None, None
                val[k] = float(c[k])
                loaded.add(k)
                missing.discard(k)
                if ift == "always":
                    ext.add(k)
        if not o.get("ignore_missing"):
            missing |= {k for k in scope if k not in loaded}
    if missing - NON_CRITICAL:
        return None, None
    return val, ext


def _model(**_kw):
    import returnn.frontend as rf
    from returnn.tensor import Dim
    import torch

    d = Dim(2, name="d")

    class Sub(rf.Module):
        def __init__(self, names):
            super().__init__()
            for n in names:
                setattr(self, n, rf.Parameter([d]))

    class M(rf.Module):
        def __init__(self):
            super().__init__()
            self.enc = Sub(["a", "b"])
            self.dec = Sub(["a", "b"])
            self.out = Sub(["w", "aux"])
            self.out.aux.non_critical_for_restore = True

    m = M()
    with torch.no_grad():
        for n, p in m.named_parameters():
            p.raw_tensor.fill_(INIT[n])
    return m


def _t(v):
    import torch

    return torch.zeros(3) if v == "shape" else torch.full((2,), float(v))


def _train_step(*, model, extern_data, **_kw):
    import returnn.frontend as rf

    s = 0
    for n, p in model.named_parameters():
        s = s + rf.reduce_sum(p * p, axis=p.dims)
    rf.get_run_ctx().mark_as_loss(s * 0.5, "l")


def _files(path):
    import torch

    for name, o in PRE.items():
        if "content" in o:
            st = {k: _t(v) for k, v in o["content"].items()}
            key = o.get("checkpoint_key", "model")
            torch.save({key: st, "epoch": 7} if key is not None else st, path + "/pre_" + name + ".pt")
    for name, c in MAIN.items():
        torch.save({"model": {k: _t(v) for k, v in c.items()}, "epoch": 3, "step": 12}, path + "/main_" + name + ".pt")
    _engine(path, {"task": "train", "model": path + "/base"}, num_epochs=3, train=True)  # for the optimizer state


def _preload_cfg(path, entries):
    out = {}
    for key, (name, ift) in entries:
        o = dict(PRE[name])
        has = o.pop("content", None) is not None
        o["filename"] = path + "/pre_" + name + ".pt" if has else None
        if ift is not None:
            o["init_for_train"] = ift
        out[key] = o
    return out


def _engine(path, cfg, num_epochs=None, train=False):
    from returnn.config import Config, global_config_ctx
    from returnn.torch.engine import Engine

    config = Config(dict(device="cpu", extern_data=teng.EXTERN, get_model=_model, train_step=_train_step, forward_step=lambda **_k: None, max_seqs=2, batch_size=100, torch_dataloader_opts={"num_workers": 0}, random_seed=3, backend="torch",
                         num_epochs=num_epochs or 1, optimizer={"class": "sgd"}, learning_rate=0.1, **cfg))
    with global_config_ctx(config):
        e = Engine(config=config)
        if cfg["task"] == "train":
            e.init_train_from_config(train_data=teng.dataset("train", teng.seqs([2, 1])))
            if train:
                e.train()
        else:
            e.init_network_from_config(config)
    return e


def _state(e):
    m = e.get_pt_model()
    out = {}
    for n, p in itertools.chain(m.named_parameters(), m.named_buffers()):
        v = p.detach().tolist()
        out[n] = v[0] if v == [v[0]] * 2 else v
    return out


def _load(path, task, main, entries, ctx):
    what = "task %s, main checkpoint %s, preload_from_files %s" % (task, main, {k: v for k, v in entries})
    cfg = {"task": "forward" if task == "forward" else "train"}
    work = tempfile.mkdtemp(prefix="m-", dir=path)
    try:
        if task != "forward":
            cfg["model"] = work + "/model"
        if entries:
            cfg["preload_from_files"] = _preload_cfg(path, entries)
        if main is not None:
            src = path + "/main_" + main + ".pt"
            if task == "import":
                cfg["import_model_train_epoch1"] = src
            elif task == "restart":
                shutil.copy(src, work + "/model.003.pt")
                shutil.copy(path + "/base.003.opt.pt", work + "/model.003.opt.pt")
            else:
                cfg["load"] = src
        want, ext = _ref(task, main, entries)
        if want is not None and task != "forward" and not set(KEYS) - ext:
            return  # nothing to train, torch optimizers refuse that
        err = None
        try:
            e = _engine(path, cfg, num_epochs=10)
        except Exception as exc:
            err = exc
        ctx.trans()
        ctx.state((task, main, tuple(entries)))
        if want is None:
            expect(err is not None, lambda: "%s: accepted, although parameters are missing or the content does not fit: %r" % (what, _state(e)), key="accepted")
            ctx.outcome("refused")
            return
        expect(err is None, lambda: "%s: refused: %s: %s" % (what, type(err).__name__, str(err)[:300]), key="refused")
        got = _state(e)
        expect_eq(got, want, what + ": parameters after loading", key="values") if False else expect(got == want, lambda: "%s: parameters %r, expected %r" % (what, got, want), key="values")
        if task != "import":
            ep, step = {"first": (1, 0), "restart": (4, 12), "forward": (3, 11)}[task] if main is not None or task == "first" else (1, 0)
            expect_eq((e.epoch, e.global_train_step), (ep, step), what + ": epoch and global step")
        tr = {n for n, _ in e.get_pt_model().named_parameters()}
        expect(tr == set(KEYS) - ext, lambda: "%s: trainable parameters %r, expected %r" % (what, sorted(tr), sorted(set(KEYS) - ext)), key="trainable")
        ctx.outcome("loaded")
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _always(path, entries, ctx):
    """train 2 epochs, restart, 1 more epoch; the params which are always preloaded keep their value and are not stored; the others are trained and stored"""
    import torch

    what = "training with preload_from_files %s" % (dict(entries),)
    work = tempfile.mkdtemp(prefix="t-", dir=path)
    try:
        val, ext = _ref("first", None, entries)
        if val is None or not set(KEYS) - ext:
            return
        rval, _ = _ref("restart", "all", entries)
        if any(rval[k] != val[k] for k in ext):
            return  # contradicting config: a param which is always preloaded, but differently in the first epoch
        cfg = {"task": "train", "model": work + "/model", "preload_from_files": _preload_cfg(path, entries)}
        for ep in (1, 2, 3):
            if ep in (1, 3):
                e = _engine(path, cfg, num_epochs=2 if ep == 1 else 3, train=True)
            # one step per epoch: p -= 0.1 * p
            st = torch.load(work + "/model.%03i.pt" % ep)["model"]
            expect(set(st) == set(KEYS) - ext, lambda: "%s: the checkpoint of epoch %i has %r, expected %r" % (what, ep, sorted(st), sorted(set(KEYS) - ext)), key="ckpt-keys")
            for k in st:
                w = val[k] * 0.9**ep
                expect(abs(float(st[k][0]) - w) < 1e-3 * abs(w), lambda: "%s: %s in the checkpoint of epoch %i is %r, expected %r" % (what, k, ep, st[k], w), key="ckpt-values")
            ctx.trans()
        got = _state(e)
        for k in ext:
            expect(got[k] == val[k], lambda: "%s: %s is %r after the training, expected %r" % (what, k, got[k], val[k]), key="ext-values")
        ctx.state(("always", tuple(entries)))
    finally:
        shutil.rmtree(work, ignore_errors=True)


OPT_PARAMS = ["p", "q", "r", "s"]
_opt_model = None


def _get_opt_model(**_kw):
    import returnn.frontend as rf
    from returnn.tensor import Dim
    import torch

    names, frozen = _opt_model

    class M(rf.Module):
        def __init__(self):
            super().__init__()
            for n in names:
                # all the same shape, such that mixed up states are not noticed by torch
                setattr(self, n, rf.Parameter([Dim(2, name="d")]))
                getattr(self, n).trainable = n not in frozen

    m = M()
    with torch.no_grad():
        for n in names:
            getattr(m, n).raw_tensor.copy_(torch.tensor([1.0 + ord(n) % 7, -0.5 * (ord(n) % 5)]))
    return m


def _opt_step(*, model, extern_data, **_kw):
    import returnn.frontend as rf

    for n, p in model.named_parameters():
        rf.get_run_ctx().mark_as_loss(rf.reduce_sum(p * p * float(ord(n) - 110) ** 2 + p, axis=p.dims), "l" + n)


def _opt_engine(path, names, frozen, num_epochs, opt):
    global _opt_model
    from returnn.config import Config, global_config_ctx
    from returnn.torch.engine import Engine

    _opt_model = (names, frozen)
    config = Config(dict(task="train", device="cpu", extern_data=teng.EXTERN, get_model=_get_opt_model, train_step=_opt_step, max_seqs=2, batch_size=100, torch_dataloader_opts={"num_workers": 0}, random_seed=3, backend="torch",
                         num_epochs=num_epochs, optimizer=opt, learning_rate=0.1, model=path + "/model"))
    with global_config_ctx(config):
        e = Engine(config=config)
        e.init_train_from_config(train_data=teng.dataset("train", teng.seqs([2, 1])))
        e.train()
    return {n: p.detach().tolist() for n, p in e.get_pt_model().named_parameters()}


OPTS = {"adam": {"class": "adam", "epsilon": 1e-3}, "momentum": {"class": "sgd", "momentum": 0.9}, "adamw": {"class": "adamw", "epsilon": 1e-3, "weight_decay": 0.1}}


def _opt_case(path, first_perm, opt, ctx):
    perms = list(itertools.permutations(OPT_PARAMS))
    ref = _opt_engine(_mk(path), perms[first_perm], (), 3, OPTS[opt])
    base = _mk(path)
    _opt_engine(base, perms[first_perm], (), 2, OPTS[opt])
    frozen_new = "z"
    for second in range(len(perms)):
        for variant in ("same", "less", "frozen", "new"):
            names, frozen = list(perms[second]), ()
            if variant == "less":
                names = names[:-1]
            elif variant == "frozen":
                names, frozen = names[:1] + [frozen_new] + names[1:], (frozen_new,)
            elif variant == "new":
                names = names[:1] + ["z"] + names[1:]
            work = _mk(path)
            what = "optimizer %s, restart after epoch 2 of a model with params %s as model with params %s (%s)" % (OPTS[opt], perms[first_perm], names, variant)
            for fn in os.listdir(base):
                shutil.copy(base + "/" + fn, work + "/" + fn)
            if variant in ("frozen", "new"):
                import torch

                st = torch.load(work + "/model.002.pt")
                st["model"]["z"] = torch.tensor([3.0, 4.0])
                torch.save(st, work + "/model.002.pt")
            err = None
            try:
                got = _opt_engine(work, names, frozen, 3, OPTS[opt])
            except Exception as exc:
                err = exc
            ctx.trans()
            if variant == "new":
                expect(err is not None, lambda: "%s: accepted, although there is no optimizer state for the trainable param z" % what, key="opt-accepted")
            else:
                expect(err is None, lambda: "%s: fails: %s: %s" % (what, type(err).__name__, str(err)[:300]), key="opt-exc")
                for n in names:
                    w = ref[n] if n != "z" else [3.0, 4.0]
                    expect(all(abs(a - b) < 1e-5 for a, b in zip(got[n], w)), lambda: "%s: param %s after epoch 3 is %r, without the restart %r" % (what, n, got[n], w), key="opt-values")
            ctx.state(("opt", opt, first_perm, second, variant))
            shutil.rmtree(work)


def _mk(path):
    return tempfile.mkdtemp(prefix="o-", dir=path)


def _ifts(task):
    return (True, "always", False) if task != "forward" else (None, True, "always")


def gen_cases(tier):
    for task in TASKS:
        mains = [None] if task == "first" else list(MAIN)
        if task == "forward":
            mains = [None] + mains
        for main in mains:
            yield {"task": task, "main": main, "first": None}
            for name in PRE:
                yield {"task": task, "main": main, "first": name, "full": tier != "quick" or task == "first" or main in (None, "all", "no_dec")}
    for name in PRE:
        yield {"task": "always", "first": name}
    for opt in OPTS:
        for perm in range(24) if opt == "adam" or tier != "quick" else (0, 7, 23):
            yield {"task": "opt", "opt": opt, "perm": perm}


def run_case(case, ctx):
    path = tempfile.mkdtemp(prefix="c28-")
    try:
        if case["task"] == "opt":
            _opt_case(path, case["perm"], case["opt"], ctx)
            return
        _files(path)
        task, first = case["task"], case["first"]
        if task == "always":
            for ift in ("always", True):
                _always(path, (("x", (first, ift)),), ctx)
                for name2 in PRE:
                    _always(path, (("x", (first, ift)), ("y", (name2, "always"))), ctx)
            return
        main = case["main"]
        if first is None:
            if not (task == "forward" and main is None):
                _load(path, task, main, (), ctx)
            return
        for ift in _ifts(task):
            _load(path, task, main, (("x", (first, ift)),), ctx)
            if case["full"]:
                for name2 in PRE:
                    for ift2 in _ifts(task)[:2]:
                        for k in ("a", "y"):
                            _load(path, task, main, (("x", (first, ift)), (k, (name2, ift2))), ctx)
    finally:
        shutil.rmtree(path, ignore_errors=True)


if __name__ == "__main__":
    harness.main(__name__)
