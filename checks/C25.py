"""C25: which checkpoint is used / where training starts, and the automatic restart of training."""
import itertools, os, sys, io, contextlib, shutil, tempfile
from vlib import harness
from vlib.harness import Violation, expect, expect_eq

PID = "C25"
LEVEL = "model_checking"
RULE = (
    "case = manager: (number of epochs, files at the beginning): all histories of child runs (epochs trained, return code, old checkpoints removed) are enumerated depth-first on the real manager with a stand-in for the child process;"
    " resolve: all states of the checkpoint files x all options; state = (files, history / options); transition = child run / decision"
)
BOUNDS = {
    "quick": "manager: num_epochs 1..3, every child run trains 0..n epochs (last checkpoint maybe without optimizer state), return code 0 / 1 / -9, with/without removal of older checkpoints; resolve: 3 epochs x {none, model only, complete} x task x start_epoch x load x load_epoch x import, Torch and TF files, final epoch smaller/larger",
    "thorough": "manager: num_epochs 4; resolve: 4 epochs",
}
ASSUMPTIONS = ["the child process is replaced by a stand-in for subprocess.Popen which creates the checkpoint files"]


def parent_init():
    from returnn.log import log

    log.initialize(verbosity=[0])
    import returnn.util.train_proc_manager, returnn.engine.base


def gen_cases(tier):
    q = tier == "quick"
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for first in range(0, n + 1):
            for opt in (True, False):
                yield dict(kind="manager", n=n, first=first, opt=opt)
    yield dict(kind="conditions")
    for be in ("torch", "tensorflow"):
        for files in itertools.product(("-", "m", "c"), repeat=3 if q else 4):
            if be == "tensorflow" and "m" in files:
                continue
            yield dict(kind="resolve", be=be, files="".join(files))
    yield dict(kind="symlink")


def _touch(fn):
    with open(fn, "w") as f:
        f.write("x")


def _make(base, epoch, state, be="torch"):
    fn = "%s.%03d" % (base, epoch)
    if be == "torch":
        if state in "mc":
            _touch(fn + ".pt")
        if state == "c":
            _touch(fn + ".opt.pt")
    else:
        if state == "c":
            for e in (".meta", ".index", ".data-00000-of-00001"):
                _touch(fn + e)
    return fn


def _config(**kw):
    from returnn.config import Config

    return Config(kw)


def _select(be):
    from returnn.util.basic import BackendEngine

    BackendEngine.selected_engine = None
    BackendEngine.select_engine(engine=BackendEngine.Torch if be == "torch" else BackendEngine.TensorFlowNetDict, _select_rf_backend=False)


# ---- manager ----


class Done(BaseException):
    pass


def _play(case, script):
    """
    :param script: list of (num epochs trained, last without opt state, return code, remove older)
    :return: (number of child starts, exit code or "more" if the script was too short, env seen by children)
    """
    import subprocess
    from returnn.util import train_proc_manager as M

    tmp = tempfile.mkdtemp()
    base = tmp + "/model"
    n = case["n"]
    for e in range(1, case["first"] + 1):
        _make(base, e, "c" if case["opt"] or e < case["first"] else "m")
    cur = [case["first"] if case["opt"] else max(case["first"] - 1, 0)]
    starts = []

    class Popen:
        def __init__(self, args, *a, **kw):
            if len(starts) >= len(script):
                raise Done()
            k, broken, rc, remove = script[len(starts)]
            env = kw.get("env") or os.environ
            starts.append((list(args), env.get("__RETURNN_PROC_MANAGED"), cur[0]))
            for i in range(k):
                e = cur[0] + 1
                if e > n:
                    break
                _make(base, e, "m" if broken and i == k - 1 else "c")
                if not (broken and i == k - 1):
                    cur[0] = e
            if remove:
                for e in range(1, cur[0]):
                    for ext in (".pt", ".opt.pt"):
                        if os.path.exists("%s.%03d%s" % (base, e, ext)):
                            os.remove("%s.%03d%s" % (base, e, ext))
            self._rc = rc
            self.returncode = None
            self.args = args
            self.pid = 2**22
            self.stdin = self.stdout = self.stderr = None

        def wait(self, timeout=None):
            self.returncode = self._rc
            return self._rc

        def poll(self):
            return self.wait()

        def communicate(self, input=None, timeout=None):
            self.wait()
            return None, None

        def kill(self):
            pass

        terminate = kill

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.wait()

    old, old_argv, old_env = subprocess.Popen, sys.argv, dict(os.environ)
    subprocess.Popen = Popen
    sys.argv = ["rnn.py", "some.config"]
    os.environ.pop("__RETURNN_PROC_MANAGED", None)
    try:
        cfg = _config(task="train", model=base, num_epochs=n, backend="torch")
        with contextlib.redirect_stdout(io.StringIO()):
            M.maybe_start_train_proc_manager(config=cfg)
        res = "returned"
    except SystemExit as e:
        res = 0 if e.code is None else e.code
    except Done:
        res = "more"
    finally:
        subprocess.Popen, sys.argv = old, old_argv
        os.environ.clear()
        os.environ.update(old_env)
        from returnn.util.basic import BackendEngine

        BackendEngine.selected_engine = None
        shutil.rmtree(tmp, ignore_errors=True)
    return starts, res, cur[0]


def case_manager(case, ctx):
    n = case["n"]
    have0 = case["first"] if case["opt"] else max(case["first"] - 1, 0)
    steps = [(k, b, rc, rm) for k in range(0, n + 1) for b in ((False, True) if k else (False,)) for rc in (0, 1, -9) for rm in (False, True)]
    todo = [((), have0, None)]
    while todo:
        script, have, last_rc = todo.pop()
        starts, res, cur = _play(case, list(script))
        expect_eq(cur, have, "harness state")
        ctx.state((n, case["first"], case["opt"], script))
        ctx.trace()
        what = "num_epochs=%i, complete checkpoints at start: %i, child runs (epochs, last one incomplete, return code, removes older) %r" % (n, have0, script)
        # what must happen after this history
        progress = True
        h = have0
        for i, (k, b, rc, rm) in enumerate(script):
            h2 = min(n, h + k) - (1 if b and h + k <= n else 0) if k else h
            h2 = max(h, h2)
            progress = h2 > h
            h = h2
        finished = have == n
        must_run = not finished and progress
        if must_run:
            expect(res == "more", "%s: training not finished, and the last run (if any) made progress, but no (re)start; exit with %r" % (what, res))
        else:
            expect(res != "more", "%s: another start although %s" % (what, "finished" if finished else "the last run made no progress"))
            expect_eq(res, (last_rc if last_rc is not None else 0), what + ": exit code is the return code of the last run")
            ctx.outcome((n, len(script), res))
        expect_eq(len(starts), len(script), what + ": number of starts")
        for a, env, _ in starts:
            expect(a[-2:] == ["rnn.py", "some.config"] and a[0] == sys.executable, "%s: child started with %r" % (what, a))
            expect_eq(env, "1", what + ": child knows that it is managed")
        ctx.trans()
        if must_run:
            for k, b, rc, rm in steps:
                if have + k > n:
                    continue
                nh = have + k - (1 if b else 0)
                todo.append((script + ((k, b, rc, rm),), nh, rc))


def case_conditions(case, ctx):
    """only a training with automatic start epoch, not distributed, is managed"""
    import subprocess
    from returnn.util import train_proc_manager as M

    for task, start, hv, td, env in itertools.product(("train", "eval", "forward", None), ("auto", "1", 2, None), (False, True), (None, {}), (None, "1")):
        called = []

        class Popen:
            def __init__(self, *a, **kw):
                called.append(1)
                raise Done()

        old, old_env = subprocess.Popen, dict(os.environ)
        subprocess.Popen = Popen
        os.environ.pop("__RETURNN_PROC_MANAGED", None)
        if env:
            os.environ["__RETURNN_PROC_MANAGED"] = env
        d = dict(backend="torch", model=tempfile.gettempdir() + "/none/model", num_epochs=2)
        for k, v in dict(task=task, start_epoch=start, use_horovod=hv or None, torch_distributed=td).items():
            if v is not None:
                d[k] = v
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                M.maybe_start_train_proc_manager(config=_config(**d))
        except Done:
            pass
        finally:
            subprocess.Popen = old
            os.environ.clear()
            os.environ.update(old_env)
            from returnn.util.basic import BackendEngine

            BackendEngine.selected_engine = None
        want = task in ("train", None) and start in ("auto", None) and not hv and td is None and not env
        expect_eq(bool(called), want, "managed training for %r, already managed: %r" % (d, env))
        ctx.state(("cond", task, start, hv, td is None, env))
        ctx.trace()
        ctx.trans()
        ctx.outcome((want,))


# ---- resolve ----


def case_resolve(case, ctx):
    from returnn.engine.base import EngineBase

    be, files = case["be"], case["files"]
    _select(be)
    tmp = tempfile.mkdtemp()
    try:
        base = tmp + "/model"
        for e, st in enumerate(files, 1):
            _make(base, e, st, be)
        ext = ".pt" if be == "torch" else ".meta"
        other = tmp + "/other/net"
        os.mkdir(tmp + "/other")
        _touch(other + ".007" + ext)
        imp = tmp + "/other/imp"
        _touch(imp + ".009" + ext)
        complete = {e: "%s.%03d" % (base, e) for e, st in enumerate(files, 1) if st == "c"}
        usable = {e: "%s.%03d" % (base, e) for e, st in enumerate(files, 1) if st in "mc"}
        for final in (len(files), 2):
            for task in ("train", "forward", "eval"):
                mine_all = complete if task == "train" else usable
                for start, load, load_epoch, impo in itertools.product(("auto", 1, 2, 3), (None, other + ".007", other + ".007" + ext), (None, 0, 1, 2), (None, imp + ".009" + ext)):
                    d = dict(task=task, model=base, num_epochs=final)
                    if start != "auto":
                        d["start_epoch"] = start
                    if load:
                        d["load"] = load
                    if load_epoch is not None:
                        d["load_epoch"] = load_epoch
                    if impo:
                        d["import_model_train_epoch1"] = impo
                    fin = max(final, load_epoch or 0)
                    mine = {e: f for e, f in mine_all.items() if e <= fin}
                    what = "%s, files %s (-: none, m: without optimizer, c: complete), %r" % (be, files, d)
                    cfg = _config(**d)
                    expect_eq(EngineBase.get_existing_models(cfg), mine, what + ": existing models")
                    expect_eq(EngineBase.get_existing_models(cfg, for_training=False), {e: f for e, f in usable.items() if e <= fin}, what + ": existing models (not for training)")
                    expect_eq(EngineBase.get_existing_models(cfg, for_training=True), {e: f for e, f in complete.items() if e <= fin}, what + ": existing models (for training)")
                    expect_eq(EngineBase.get_start_epoch_no_existing_model(cfg), 1 if start == "auto" else start, what + ": start epoch without existing model")
                    ctx.state((be, files, str(d).replace(tmp, "")))
                    ctx.trans()
                    try:
                        got = EngineBase.get_epoch_model(cfg)
                        ep = EngineBase.get_train_start_epoch(cfg) if task == "train" else None
                    except (AssertionError, KeyError) as exc:
                        got = ep = type(exc).__name__
                    if not load and load_epoch and load_epoch not in mine:
                        expect(isinstance(got, str), what + ": requested epoch does not exist, but got %r" % (got,))
                        continue
                    if task != "train":
                        if start != "auto":
                            continue  # start_epoch has no defined meaning here
                        if load:
                            expect_eq(got, (load_epoch if (load_epoch or 0) > 0 else 7, other + ".007"), what + ": epoch, model")
                        elif load_epoch:
                            expect_eq(got, (load_epoch, mine[load_epoch]), what + ": epoch, model")
                        elif mine:
                            expect_eq(got, (max(mine), mine[max(mine)]), what + ": epoch, model")
                        else:
                            expect_eq(got, (None, None), what + ": epoch, model")
                    elif start == "auto":
                        if mine:
                            expect_eq(got, (max(mine), mine[max(mine)]), what + ": epoch, model (training continues with the latest complete checkpoint)")
                            expect_eq(ep, max(mine) + 1, what + ": start epoch")
                        elif impo:
                            expect_eq(got, (0, imp + ".009"), what + ": epoch, model")
                            expect_eq(ep, 1, what + ": start epoch")
                        elif load:
                            expect_eq(got[1], other + ".007", what + ": model")
                        else:
                            expect_eq(got, (None, None), what + ": epoch, model")
                            expect_eq(ep, 1, what + ": start epoch")
                    elif load:
                        expect_eq(got[1], other + ".007", what + ": model (explicit start_epoch with load)")
                        if start == 1:
                            expect_eq(ep, 1, what + ": start epoch")
                    elif load_epoch:
                        continue
                    elif start == 1:
                        if not mine and impo:
                            expect_eq(got, (0, imp + ".009"), what + ": epoch, model")
                        else:
                            expect_eq(got, (None, None), what + ": epoch, model (start from scratch)")
                        expect_eq(ep, 1, what + ": start epoch")
                    else:
                        if not mine:
                            expect_eq(got, (None, None), what + ": epoch, model")
                        elif start - 1 in mine:
                            expect_eq(got, (start - 1, mine[start - 1]), what + ": epoch, model")
                            expect_eq(ep, start, what + ": start epoch")
                        else:
                            expect(isinstance(got, str), what + ": no checkpoint to continue from, but got %r" % (got,))
                    ctx.outcome((task, start, str(got)[:8], ep))
        ctx.trace()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        from returnn.util.basic import BackendEngine

        BackendEngine.selected_engine = None


def case_symlink(case, ctx):
    """a symlink to a checkpoint (chain): the epoch is that of the target"""
    from returnn.util.basic import model_epoch_from_filename

    tmp = tempfile.mkdtemp()
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        for ext in (".pt", ".meta"):
            for e in (1, 12, 123, 1234):
                _touch("m.%03d%s" % (e, ext))
                expect_eq(model_epoch_from_filename(tmp + "/m.%03d" % e), e, "epoch of file")
                for name in ("best", "best.005", "last.x"):
                    if os.path.islink(name + ext):
                        os.remove(name + ext)
                    os.symlink(tmp + "/m.%03d%s" % (e, ext), name + ext)
                    expect_eq(model_epoch_from_filename(tmp + "/" + name), e, "epoch of symlink %s%s -> m.%03d" % (name, ext, e))
                    if os.path.islink("chain" + ext):
                        os.remove("chain" + ext)
                    os.symlink(tmp + "/" + name + ext, "chain" + ext)
                    expect_eq(model_epoch_from_filename(tmp + "/chain"), e, "epoch of symlink chain")
                    ctx.trans()
                    ctx.state((ext, e, name))
                    ctx.outcome((e,))
            for name in ("best", "best.005", "last.x", "chain"):
                os.remove(name + ext)
        ctx.trace()
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def run_case(case, ctx):
    globals()["case_" + case["kind"]](case, ctx)
    ctx.sample(dict(case))


if __name__ == "__main__":
    harness.main(__name__)
