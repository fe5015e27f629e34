"""C39: gradient checkpointing does not change results, gradients or random state, for every structure of scopes."""
import contextlib, gc, itertools, queue, threading, weakref
from vlib import harness
from vlib.harness import Violation, expect, expect_eq

PID = "C39"
LEVEL = "model_checking"
RULE = (
    "case = block of programs (single: all balanced programs; history: all sequences of base programs in one thread; threads: all interleavings of two programs in two threads);"
    " state = (program / schedule prefix); transition = executed action (enter/exit gradient_checkpoint_scope or saved_tensors_hooks, op, drop reference, backward)"
)
BOUNDS = {
    "quick": "programs: all balanced strings of length <=5 over {scope, user hooks, sin, square, mul with param, dropout, in-place, view, keep ref, use ref, drop refs}, length 6 over a smaller alphabet; histories of 3 out of 12 base programs; two threads: all interleavings of 8x8 programs with <=3 context switches, and dropping of tensors in the other thread",
    "thorough": "length 6 full, length 7 with smaller alphabet; histories of 4; all interleavings",
}
ASSUMPTIONS = ["CPU, PyTorch version as installed; inputs of the scope are not modified in-place before the backward pass (the same holds for torch.utils.checkpoint)"]
CASE_TIMEOUT = 600


def parent_init():
    import torch

    torch.set_num_threads(1)
    import returnn.torch.util.gradient_checkpoint


class Prog:
    """executes actions"""

    def __init__(self, ckpt: bool, seed: int = 1):
        import torch

        self.ckpt = ckpt
        self.a = torch.linspace(0.3, 1.2, 6, dtype=torch.float64).requires_grad_()
        self.w = torch.linspace(-1.0, 2.0, 6, dtype=torch.float64).requires_grad_()
        self.cur = self.a
        self.kept = []
        self.ctx = []
        self.gdepth = 0
        self.packs = 0
        self.made = []  # weakrefs of tensors made in the scope
        self.outs = []
        self.foreign = None

    def _pack(self, x):
        self.packs += 1
        return (x,)

    @staticmethod
    def _unpack(x):
        return x[0]

    def do(self, act):
        import torch

        if act == "(":
            if self.ckpt:
                from returnn.torch.util.gradient_checkpoint import gradient_checkpoint_scope

                c = gradient_checkpoint_scope()
            else:
                c = contextlib.nullcontext()
            c.__enter__()
            self.ctx.append(c)
            self.gdepth += 1
        elif act == "[":
            c = torch.autograd.graph.saved_tensors_hooks(self._pack, self._unpack)
            c.__enter__()
            self.ctx.append(c)
        elif act in ")]":
            c = self.ctx.pop()
            c.__exit__(None, None, None)
            if act == ")":
                self.gdepth -= 1
            del c
        elif act == "s":
            self._set(self.cur.sin())
        elif act == "q":
            self._set(self.cur * self.cur)
        elif act == "m":
            self._set(self.cur * self.w)
        elif act == "e":
            self._set((self.cur * 0.25).exp())
        elif act == "r":
            self._set(torch.nn.functional.dropout(self.cur, 0.5, training=True))
        elif act == "n":
            self._set(self.cur * torch.rand(6, dtype=torch.float64))
        elif act == "i":
            self._set(self.cur.mul_(1.5))
        elif act == "v":
            self._set(self.cur.view(2, 3).transpose(0, 1).reshape(-1))
        elif act == "k":
            self.kept.append(self.cur)
        elif act == "u":
            x = self.kept.pop() if self.kept else self.w
            self._set(self.cur + x * self.cur)
        elif act == "d":
            self.kept.clear()
        elif act == "x":  # exception inside of the innermost scope
            c = self.ctx.pop()
            e = ValueError("test")
            c.__exit__(ValueError, e, None)
        elif act == "c":
            self.outs.append(self.cur.detach().clone())
            self.cur = self.a
            self.kept.clear()
        elif act == "b":
            self._backward()
            self.cur = self.a
        elif act == "B":
            if self.cur.requires_grad and self.cur.grad_fn is not None:
                self.cur.sum().backward(retain_graph=True)
        else:
            assert False, act

    def _set(self, x):
        self.cur = x
        if self.gdepth:
            self.made.append(weakref.ref(x))

    def _backward(self):
        self.outs.append(self.cur.detach().clone())
        if self.cur.grad_fn is not None:
            loss = (self.cur * self.cur * 0.5).sum()
            self.cur = None
            loss.backward()

    def finish(self):
        import torch

        assert not self.ctx
        if self.cur is not None:
            self._backward()
        self.kept.clear()
        self.cur = None
        return self.outs, self.a.grad, self.w.grad, torch.get_rng_state()


def _eq(a, b):
    import torch

    if a is None or b is None:
        return a is b
    return a.shape == b.shape and torch.equal(a, b)


def _cmp(ref, got, what):
    for i, (x, y) in enumerate(zip(ref[0], got[0])):
        expect(_eq(x, y), "%s: value differs with gradient_checkpoint_scope: %r vs %r" % (what, y, x))
    for i, n in ((1, "a"), (2, "w")):
        expect(_eq(ref[i], got[i]), "%s: gradient of %s differs with gradient_checkpoint_scope: %r, without: %r" % (what, n, got[i], ref[i]))
    if len(ref) > 3:
        expect(_eq(ref[3], got[3]), "%s: random state after backward differs" % what)


def _run(prog, ckpt):
    import torch

    torch.manual_seed(42)
    p = Prog(ckpt)
    with _unraisable() as errs:
        for act in prog:
            p.do(act)
        res = p.finish()
    if errs:
        raise Violation("program %r: exception in destructor / hook: %s" % ("".join(prog), errs[0]))
    return p, res


class _unraisable:
    def __enter__(self):
        import sys

        self.errs = []
        self.old = sys.unraisablehook
        sys.unraisablehook = lambda a: self.errs.append("%s: %s" % (type(a.exc_value).__name__, a.exc_value))
        return self.errs

    def __exit__(self, *_):
        import sys

        sys.unraisablehook = self.old


def _balanced(alpha, n, max_g=2, max_h=1):
    """all balanced strings of exactly length n with at least one scope with an op inside"""

    def rec(s, stack, g, h):
        left = n - len(s)
        if len(stack) > left:
            return
        if left == 0:
            yield s
            return
        for c in alpha:
            if c == "(":
                if g < max_g:
                    yield from rec(s + c, stack + ")", g + 1, h)
            elif c == "[":
                if h < max_h:
                    yield from rec(s + c, stack + "]", g, h + 1)
            else:
                yield from rec(s + c, stack, g, h)
        if stack and s[-1] not in "([":
            yield from rec(s + stack[-1], stack[:-1], g, h)

    for s in rec("", "", 0, 0):
        if "(" in s and s[-1] not in "d" and _inplace_ok(s):
            yield s


def _inplace_ok(prog):
    """no in-place modification inside of a scope of a tensor which was created outside of that scope (would be done again in the recomputation)"""
    open_, num = (), 0
    cur, kept = None, []
    for c in prog:
        if c == "(":
            num += 1
            open_ += (num,)
        elif c == ")":
            open_ = open_[:-1]
        elif c == "i":
            if cur is None or cur[: len(open_)] != open_:
                return False
        elif c in "sqmernvu":
            cur = open_
    return True


def _hooks_work(what):
    """after everything: user hooks are called for every saved tensor, and are removed again"""
    p = Prog(False)
    for act in "[sqm]":
        p.do(act)
    n = p.packs
    p.do("s")
    p.do("q")
    expect_eq(p.packs, n, what + ": user saved_tensors_hooks called after its scope")
    expect_eq(n, _ref_packs(), what + ": number of tensors seen by user saved_tensors_hooks")
    p.finish()


_REF = {}


def _ref_packs():
    return _REF["packs"]


def run_single(case, ctx):
    alpha, n = case["alpha"], case["n"]
    for num, prog in enumerate(_balanced(alpha, n)):
        if num % case["parts"] != case["idx"]:
            continue
        ctx.state(prog)
        try:
            ref_p, ref = _run(prog, False)
        except RuntimeError:
            ctx.count("invalid_program")
            continue
        ctx.trans(len(prog) + 1)
        try:
            p, got = _run(prog, True)
        except Violation:
            raise
        except Exception as e:
            raise Violation("program %r fails with gradient_checkpoint_scope: %s: %s" % (prog, type(e).__name__, e))
        _cmp(ref, got, "program %r" % prog)
        del ref_p, ref, p, got
    gc.collect()
    _hooks_work("after programs")


def run_memory(case, ctx):
    """tensors created in the scope are not stored for backward"""
    import torch

    for num, prog in enumerate(_balanced(case["alpha"], case["n"], max_h=0)):
        if num % case["parts"] != case["idx"]:
            continue
        ctx.state(prog)
        for tail in ("q", "e", "mq"):
            torch.manual_seed(1)
            p = Prog(True)
            for act in prog + tail:
                p.do(act)
                ctx.trans()
            alive = [w for w in p.made if w() is not None and w() is not p.cur]
            expect(not alive, "program %r: %i of %i tensors made in the scope are stored for backward" % (prog + tail, len(alive), len(p.made)))
            torch.manual_seed(1)
            ref = Prog(False)
            for act in prog + tail:
                ref.do(act)
            _cmp(ref.finish()[:3], p.finish()[:3], "program %r" % (prog + tail))
            expect(not any(w() is not None for w in p.made), "program %r: tensors still alive after backward" % (prog + tail))


BASE = ["(s)qb", "(sr)qb", "(s(q)m)qb", "[(s)q]b", "([s]q)qb", "(s)k[q]b", "[sq]b", "(s)c", "(s)kqbd", "sqb", "(s)q(m)qb", "(sx"]


def run_history(case, ctx):
    import torch

    for rest in itertools.product(BASE, repeat=case["n"] - 1):
        seq = [case["first"]] + list(rest)
        ctx.state(tuple(seq))
        res = []
        for ckpt in (False, True):
            torch.manual_seed(1)
            p = Prog(ckpt)
            with _unraisable() as errs:
                try:
                    for prog in seq:
                        for act in prog:
                            p.do(act)
                            if act == "x":
                                p.gdepth = 0
                            ctx.trans()
                        if prog.endswith("x"):
                            p.cur = p.a
                    res.append(p.finish())
                except Exception as e:
                    raise Violation("history %r (scope=%s): %s: %s" % (seq, ckpt, type(e).__name__, e))
            expect(not errs, "history %r: exception in destructor / hook: %s" % (seq, errs[:1]))
            del p
        _cmp(res[0], res[1], "history %r" % seq)
        _hooks_work("history %r" % seq)


class _Worker:
    """real thread, executes one action at a time"""

    def __init__(self):
        self.q = queue.Queue()
        self.r = queue.Queue()
        self.t = threading.Thread(target=self._loop, daemon=True)
        self.t.start()

    def _loop(self):
        while True:
            f = self.q.get()
            if f is None:
                return
            try:
                self.r.put((None, f()))
            except BaseException as e:
                self.r.put((e, None))
            del f

    def call(self, f):
        self.q.put(f)
        e, v = self.r.get()
        if e:
            raise e
        return v

    def close(self):
        self.q.put(None)
        self.t.join()


TPROGS = ["(s)q", "[s]q", "(s)[q]", "[(s)q]", "(s(q))q", "(s)k[q]d", "sq", "([s])q"]


def _interleavings(n, m, switches):
    for pos in itertools.combinations(range(n + m), n):
        s = [1] * (n + m)
        for i in pos:
            s[i] = 0
        if sum(x != y for x, y in zip(s, s[1:])) <= switches:
            yield s


def run_threads(case, ctx):
    progs = [case["p0"], case["p1"]]
    refs = []
    for prog in progs:
        _, r = _run(prog, False)
        refs.append(r)
    acts = [list(p) + ["F"] for p in progs]
    ws, nsched = [], 0
    for sched in _interleavings(len(acts[0]), len(acts[1]), case["switches"]):
        ctx.state((tuple(progs), tuple(sched)))
        if nsched % 8 == 0:  # sometimes new threads, sometimes with history
            for w in ws:
                w.close()
            ws = [_Worker(), _Worker()]
        nsched += 1
        ps = [Prog(True), Prog(True)]
        pos = [0, 0]
        out = [None, None]
        with _unraisable() as errs:
            for who in sched:
                act = acts[who][pos[who]]
                pos[who] += 1
                ctx.trans()
                try:
                    if act == "F":
                        out[who] = ws[who].call(ps[who].finish)
                    else:
                        ws[who].call(lambda: ps[who].do(act))
                except Exception as e:
                    raise Violation(
                        "threads %r, schedule %r, action %i of thread %i: %s: %s" % (progs, sched, pos[who] - 1, who, type(e).__name__, e)
                    )
        expect(not errs, "threads %r, schedule %r: exception in destructor: %s" % (progs, sched, errs[:1]))
        for who in (0, 1):
            _cmp(refs[who][:3], out[who][:3], "threads %r, schedule %r, thread %i" % (progs, sched, who))
        for w in ws:
            w.call(lambda: _hooks_work("threads %r, schedule %r" % (progs, sched)))
    for w in ws:
        w.close()
    _hooks_work("main thread after threads")


def run_foreign(case, ctx):
    """the last reference to the tensors is dropped in another thread, at every point"""
    prog = case["p"]
    _, ref = _run(prog, False)
    for at in range(len(prog) + 1):
        ctx.state((prog, at))
        w = _Worker()
        p = Prog(True)
        box = []
        with _unraisable() as errs:
            import torch

            torch.manual_seed(42)
            for i, act in enumerate(prog):
                if i == at:
                    box.append(p.cur)
                p.do(act)
                ctx.trans()
            w.call(lambda: box.clear())
            res = p.finish()
            w.call(lambda: _hooks_work("other thread"))
        expect(not errs, "program %r, tensor dropped in other thread: exception in destructor: %s" % (prog, errs[:1]))
        _cmp(ref, res, "program %r, tensor dropped in other thread" % prog)
        _hooks_work("program %r, tensor dropped in other thread" % prog)
        w.close()


def gen_cases(tier):
    q = tier == "quick"
    full = "([sqmrivkud"
    small = "([sqrik"
    for n in (3, 4, 5) if q else (3, 4, 5, 6):
        parts = {3: 1, 4: 2, 5: 16, 6: 128}[n]
        for idx in range(parts):
            yield dict(kind="single", alpha=full, n=n, parts=parts, idx=idx)
    n, parts = (6, 24) if q else (7, 128)
    for idx in range(parts):
        yield dict(kind="single", alpha=small, n=n, parts=parts, idx=idx)
    for alpha, n in (("(sqm", 4), ("(sqm", 5), ("(sqe", 5), ("(sqn", 5)) if q else (("(sqmen", 4), ("(sqmen", 6)):
        for idx in range(4):
            yield dict(kind="memory", alpha=alpha, n=n, parts=4, idx=idx)
    for b in BASE:
        yield dict(kind="history", first=b, n=3 if q else 4)
    for p0 in TPROGS:
        for p1 in TPROGS:
            yield dict(kind="threads", p0=p0, p1=p1, switches=3 if q else 100)
    for p in ("(s)qm", "(sq)m[q]", "[(s)q]m", "(s(q)m)q", "(sr)q(m)q"):
        yield dict(kind="foreign", p=p)


def run_case(case, ctx):
    import torch

    torch.set_num_threads(1)
    if "packs" not in _REF:
        p = Prog(False)
        for act in "[sqm]":
            p.do(act)
        _REF["packs"] = p.packs
        p.finish()
    ctx.count(case["kind"])
    {"single": run_single, "memory": run_memory, "history": run_history, "threads": run_threads, "foreign": run_foreign}[case["kind"]](case, ctx)
    ctx.trace()
    ctx.outcome((case["kind"], "ok"))


if __name__ == "__main__":
    harness.main(__name__)
