"""C42: config options: last write wins, documented types, same in every process."""
import itertools, json, os, pickle, sys, tempfile, io
from vlib import harness
from vlib.harness import Violation, expect, expect_eq

PID = "C42"
LEVEL = "model_checking"
RULE = (
    "case = (first operations of the history); all histories of operations on a Config (Python / JSON / line-based file, include, command line, set, update) are executed, the complete option state is compared to a reference after every history,"
    " and again after pickling (also in another process); state = (history); transition = operation / query"
)
BOUNDS = {
    "quick": "histories of <=3 of 29 operations over one option (all getters, indices, defaults), with Python code which refers to other options; pickling of every history, in a new process for a family of configs; global config: all nestings of <=3 contexts, with and without TF",
    "thorough": "histories of <=4",
}
ASSUMPTIONS = []
CASE_TIMEOUT = 600

_U = "untyped"

# op -> (what is set: raw)
OPS = {
    "py_int": ("py", "x = 3"),
    "py_str": ("py", "x = 'foo'"),
    "py_float": ("py", "x = 0.5"),
    "py_list": ("py", "x = [1, 2]"),
    "py_tuple": ("py", "x = (4, 5)"),
    "py_none": ("py", "x = None"),
    "py_true": ("py", "x = True"),
    "py_inc": ("py", "x = (x + 1) if isinstance(globals().get('x'), int) else 100"),
    "py_func": ("py", "x = 7\ndef get_x(): return x"),
    "json_int": ("json", {"x": 8}),
    "json_list": ("json", {"x": [8, 9]}),
    "json_str": ("json", {"x": "bar"}),
    "txt_int": ("line", "5"),
    "txt_neg": ("line", "-2"),
    "txt_float": ("line", "1.5"),
    "txt_list": ("line", "6,7"),
    "txt_bool": ("line", "true"),
    "txt_pair": ("line", "10:20"),
    "txt_word": ("line", "'w'"),
    "txt_sp": ("line", "a b"),
    "inc_int": ("include", "15"),
    "cmd_int": ("cmd", "25"),
    "cmd_neg": ("cmd", "+-3"),
    "cmd_list": ("cmd", "1,2,3"),
    "cmd_false": ("cmd", "off"),
    "cmd_inf": ("cmd", "inf"),
    "set_int": ("set", 11),
    "set_none": ("set", None),
    "upd_list": ("upd", [1.5, 2.5]),
}


def parent_init():
    from returnn.log import log

    log.initialize(verbosity=[0])
    import returnn.config
    import returnn.__main__


class Ref:
    """reference: what the option is"""

    def __init__(self):
        self.kind = None  # None, "typed", "untyped"
        self.v = None
        self.func = False

    def apply(self, op):
        """:return: False if the operation is not valid here"""
        how, val = OPS[op]
        if how == "py":
            if op == "py_inc":
                self.v = self.v + 1 if self.kind == "typed" and isinstance(self.v, int) else 100
            else:
                ns = {}
                exec(val.split("\n")[0], ns)
                self.v = ns["x"]
            self.kind = "typed"
            if op == "py_func":
                self.func = True
            return True
        if how == "json":
            self.kind, self.v = "typed", val["x"]
            return True
        if how in ("set", "upd"):
            self.kind, self.v = "typed", val
            return True
        if how == "cmd" and val.startswith("+-"):
            val = val[1:]
        if self.kind == "typed":
            if not isinstance(self.v, str):
                try:
                    val = eval(val, {})
                except SyntaxError:
                    pass
                except NameError:
                    return False  # not judged
            self.v = val
            return True
        self.kind = _U
        self.v = val.split(",") if "," in val else [val]
        return True


def _apply(cfg, op, tmp, i):
    how, val = OPS[op]
    if how == "py":
        fn = "%s/c%i_%s.py" % (tmp, i, op)
        with open(fn, "w") as f:
            f.write("#!returnn/rnn.py\n" + val + "\n")
        cfg.load_file(fn)
    elif how == "json":
        if i % 2:
            cfg.load_file(io.StringIO(json.dumps(val)))
        else:
            fn = "%s/c%i_%s.json" % (tmp, i, op)
            with open(fn, "w") as f:
                json.dump(val, f)
            cfg.load_file(fn)
    elif how == "line":
        cfg.load_file(io.StringIO("# comment\n\n  other 1 # x 99\nx   %s  # comment\n" % val))
    elif how == "include":
        fn = "%s/i%i" % (tmp, i)
        with open(fn, "w") as f:
            f.write("x %s\n" % val)
        cfg.load_file(io.StringIO("include %s\n" % fn))
    elif how == "cmd":
        cfg.parse_cmd_args(["++x", val, "++y", "1"] if i % 2 else ["-n", "3", "++x", val])
    elif how == "set":
        cfg.set("x", val)
    elif how == "upd":
        cfg.update({"x": val, "z": 1})
    else:
        assert False


_ERR = object()


def _call(f, *a, **kw):
    try:
        return f(*a, **kw)
    except (AssertionError, ValueError, TypeError, IndexError):
        return _ERR


def _eq(a, b):
    return type(a) is type(b) and a == b


def _check(ctx, cfg, ref, what):
    D = "dflt"
    ctx.trans()
    k = ref.kind
    expect_eq((cfg.has("x"), cfg.is_typed("x")), (k is not None, k == "typed"), what + ": has, is_typed")
    q = []  # (name, got, expected)
    v = ref.v
    if k is None:
        for n in ("value", "int", "bool", "float", "bool_or_other", "opt_typed_value", "typed_value", "list", "int_list", "float_list"):
            if n == "float":
                q.append((n, cfg.float("x", 0.25), 0.25))
            elif n in ("int_list", "float_list", "list"):
                q.append((n, getattr(cfg, n)("x", [3]), [3]))
                q.append((n, getattr(cfg, n)("x"), []))
            else:
                q.append((n, getattr(cfg, n)("x", D), D))
        q.append(("int_pair", cfg.int_pair("x", (1, 2)), (1, 2)))
        q.append(("is_true", cfg.is_true("x", True), True))
        q.append(("is_true", cfg.is_true("x"), False))
        q.append(("get_of_type", cfg.get_of_type("x", int, D), D))
    elif k == "typed":
        seq = isinstance(v, (list, tuple))
        q.append(("typed_value", cfg.typed_value("x", D), v))
        q.append(("opt_typed_value", cfg.opt_typed_value("x", D), v))
        q.append(("value", cfg.value("x", D), D if v is None else ",".join(map(str, v)) if seq else str(v)))
        q.append(("is_true", cfg.is_true("x"), bool(v)))
        for t in (int, str, (list, tuple), float):
            q.append(("is_of_type", cfg.is_of_type("x", t), isinstance(v, t)))
            q.append(("get_of_type", cfg.get_of_type("x", t, D), v if isinstance(v, t) else D))
        for idx in (0, 1):
            if seq:
                q.append(("value[%i]" % idx, cfg.value("x", D, index=idx), str(v[idx])))
                q.append(("typed_value[%i]" % idx, cfg.typed_value("x", D, index=idx), v[idx]))
        first = v[0] if seq else v
        if first is None or isinstance(first, int):
            q.append(("int", cfg.int("x", 77), first))
        elif not isinstance(first, int):
            q.append(("int", _call(cfg.int, "x", 77), _ERR))
        if first is None or isinstance(first, (int, float)):
            q.append(("float", cfg.float("x", 77.0), first))
        if first is None or isinstance(first, int):
            q.append(("bool", cfg.bool("x", False), None if first is None else bool(first)))
        elif isinstance(first, (str, float)):
            q.append(("bool", _call(cfg.bool, "x", False), _ERR))
        q.append(("bool_or_other", cfg.bool_or_other("x", D), first))
        q.append(("list", cfg.list("x", [9]), [9] if v is None else list(v) if seq else [v]))
        if v is None:
            q.append(("int_list", cfg.int_list("x", [9]), [9]))
            q.append(("float_list", cfg.float_list("x", [9]), [9]))
        else:
            vs = list(v) if seq else [v]
            q.append(("int_list", _call(cfg.int_list, "x", [9]), vs if all(isinstance(x, int) for x in vs) else _ERR))
            q.append(("float_list", _call(cfg.float_list, "x", [9]), vs if all(isinstance(x, (int, float)) for x in vs) else _ERR))
            if all(isinstance(x, int) for x in vs) and len(vs) <= 2:
                q.append(("int_pair", cfg.int_pair("x", (1, 2)), tuple(vs) if len(vs) == 2 else tuple(vs * 2) if not seq else _ERR))
    else:
        q.append(("value", cfg.value("x", D), ",".join(v)))
        q.append(("opt_typed_value", cfg.opt_typed_value("x", D), ",".join(v)))
        q.append(("typed_value", cfg.typed_value("x", D), D))
        q.append(("list", cfg.list("x", [9]), v))
        q.append(("get_of_type", cfg.get_of_type("x", str, D), D))
        q.append(("is_of_type", cfg.is_of_type("x", str), False))
        for idx in range(len(v)):
            q.append(("value[%i]" % idx, cfg.value("x", D, index=idx), v[idx]))
            q.append(("int[%i]" % idx, _call(cfg.int, "x", 77, index=idx), _call(int, v[idx])))
            q.append(("float[%i]" % idx, _call(cfg.float, "x", 77.0, index=idx), _call(float, v[idx])))
        q.append(("int_list", _call(cfg.int_list, "x"), _call(lambda: [int(x) for x in v])))
        q.append(("float_list", _call(cfg.float_list, "x"), _call(lambda: [float(x) for x in v])))
        b = {"true": True, "off": False, "yes": True}.get(v[0], _ERR)
        if b is _ERR and v[0].lstrip("-").isdigit():
            b = bool(int(v[0]))
        q.append(("bool", _call(cfg.bool, "x", None), b))
        q.append(("is_true", _call(cfg.is_true, "x"), b))
        q.append(("bool_or_other", cfg.bool_or_other("x", None), v[0] if b is _ERR else b))
        if len(v) == 1 and ":" in v[0]:
            q.append(("int_pair", cfg.int_pair("x"), tuple(map(int, v[0].split(":")))))
        elif len(v) == 1 and v[0].lstrip("-").isdigit():
            q.append(("int_pair", cfg.int_pair("x"), (int(v[0]),) * 2))
    for n, got, exp in q:
        ctx.trans()
        if got is _ERR and exp is _ERR:
            continue
        if got is _ERR or exp is _ERR or not _eq(got, exp):
            raise Violation(
                "%s: option is %r (%s), %s -> %s, expected %s"
                % (what, v, k, n, "error" if got is _ERR else repr(got), "error" if exp is _ERR else repr(exp))
            )


def run_history(case, ctx):
    from returnn.config import Config

    with tempfile.TemporaryDirectory() as tmp:
        for rest in itertools.chain(*[itertools.product(OPS, repeat=n) for n in range(0, case["n"])]):
            hist = [case["first"]] + list(rest)
            cfg = Config({"init": 1})
            ref = Ref()
            _check(ctx, cfg, ref, "empty")
            ok = True
            for i, op in enumerate(hist):
                if not ref.apply(op):
                    ok = False
                    break
                _apply(cfg, op, tmp, i)
            if not ok:
                ctx.count("not_judged")
                continue
            ctx.state(tuple(hist))
            _check(ctx, cfg, ref, "history %s" % hist)
            if ref.func:
                expect_eq(cfg.typed_value("get_x")(), ref.v, "history %s: function of the config sees the option" % hist)
            if len(hist) <= case["pickle_n"]:
                cfg2 = pickle.loads(pickle.dumps(cfg))
                _check(ctx, cfg2, ref, "history %s, after pickling" % hist)
                if ref.func:
                    f = cfg2.typed_value("get_x")
                    expect_eq(f(), ref.v, "history %s, after pickling: function of the config sees the option" % hist)
                    cfg2.set("x", "new")
                    expect_eq(f(), "new", "history %s, after pickling: function of the config sees the changed option" % hist)
                    expect_eq(cfg.typed_value("get_x")(), ref.v, "history %s: original config not changed" % hist)
                others = [k for k in ("other", "num_epochs", "y", "z", "init") if cfg.has(k)]
                for k in others:
                    expect_eq(cfg2.value(k, None), cfg.value(k, None), "history %s, after pickling: option %s" % (hist, k))


PROC = r"""
#!returnn/rnn.py
import os
n = 3
class A:
    attr = n + 1
    def m(self): return n
def f(): return n, A.attr, A().m(), helper(), config.value("extra", None)
def helper(): return [n] * 2
lam = lambda v: v + n
obj = A()
data = {"a": obj, "b": obj, "f": f}
"""


def run_proc(case, ctx):
    """global config in another process (spawn)"""
    import subprocess
    from returnn.config import Config, set_global_config, SubProcCopyGlobalConfigPreInitFunc, global_config_ctx

    with tempfile.TemporaryDirectory() as tmp:
        fn = tmp + "/cfg.py"
        with open(fn, "w") as f:
            f.write(PROC.strip() + "\n")
        cfg = Config()
        cfg.load_file(fn)
        cfg.parse_cmd_args(["++extra", case["extra"], "++n", "5"])
        with global_config_ctx(cfg):
            obj = SubProcCopyGlobalConfigPreInitFunc() if case["pre"] else cfg
            data = pickle.dumps(obj)
        open(tmp + "/p.pkl", "wb").write(data)
        code = (
            "import sys, pickle; sys.path.insert(0, %r)\n"
            "from returnn.log import log; log.initialize(verbosity=[0])\n"
            "o = pickle.load(open(%r, 'rb'))\n"
            "%s"
            "from returnn.config import get_global_config\n"
            "c = get_global_config()\n"
            "t = c.typed_dict\n"
            "print(repr((t['f'](), t['lam'](1), t['A'].attr, t['obj'].m(), t['data']['a'] is t['data']['b'] is t['obj'], t['data']['f'] is t['f'], isinstance(t['obj'], t['A']), c.value('extra', None), t['config'] is c)))\n"
            "t['n'] = 9\n"
            "print(repr(t['f']()[:1]))\n"
            "import __returnn_config__ as m\n"
            "print(m.n, m.f()[0])\n"
        ) % (harness.REPO, tmp + "/p.pkl", "o()\n" if case["pre"] else "")
        r = subprocess.run([sys.executable, "-c", code], cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
        ctx.state(str(case))
        ctx.trans(3)
        expect(r.returncode == 0, "config in other process: %s" % r.stderr.decode("utf8", "replace")[-600:])
        lines = r.stdout.decode().strip().splitlines()
        exp = [repr(((5, 4, 5, [5, 5], case["extra"]), 6, 4, 5, True, True, True, case["extra"], True)), "(9,)", "9 9"]
        expect_eq(lines, exp, "config in other process")


def run_global(case, ctx):
    from returnn.config import Config, set_global_config, get_global_config, global_config_ctx

    if case["tf"]:
        import returnn.tf.compat  # noqa
        import tensorflow  # noqa
    cfgs = [Config({"i": i}) for i in range(3)] + [None]
    set_global_config(None)

    def cur():
        return get_global_config(raise_exception=False)

    def rec(stack, depth):
        ctx.state((case["tf"], tuple(stack)))
        exp = cfgs[stack[-1]] if stack else base
        expect(cur() is exp, "global config in contexts %r (tf %s): got %r" % (stack, case["tf"], cur()))
        if depth == 0:
            return
        for i in range(len(cfgs)):
            ctx.trans()
            try:
                with global_config_ctx(cfgs[i]):
                    rec(stack + [i], depth - 1)
                    if case["exc"]:
                        raise KeyError("x")
            except KeyError:
                pass
            expect(cur() is exp, "global config after contexts %r (tf %s): got %r" % (stack + [i], case["tf"], cur() and cur().typed_dict))

    for b in (None, 0):
        base = None if b is None else Config({"base": 1})
        set_global_config(base)
        rec([], case["n"])
    set_global_config(None)


CLI = [
    ("-a", "--activation", "activation"), ("-b", "--batch_size", "batch_size"), ("-c", "--chunking", "chunking"), ("-d", "--description", "description"),
    ("-e", "--epoch", "epoch"), ("-E", "--eval", "eval"), ("-f", "--gate_factors", "gate_factors"), ("-g", "--lreg", "lreg"),
    ("-i", "--save_interval", "save_interval"), ("-j", "--dropout", "dropout"), ("-k", "--output_file", "output_file"), ("-l", "--log", "log"),
    ("-L", "--load", "load"), ("-m", "--momentum", "momentum"), ("-n", "--num_epochs", "num_epochs"), ("-o", "--order", "order"), ("-p", "--loss", "loss"),
    ("-q", "--cache", "cache"), ("-r", "--learning_rate", "learning_rate"), ("-s", "--hidden_sizes", "hidden_sizes"), ("-t", "--truncate", "truncate"),
    ("-u", "--device", "device"), ("-v", "--verbose", "log_verbosity"), ("-w", "--window", "window"), ("-x", "--task", "task"),
    ("-y", "--hidden_type", "hidden_type"), ("-z", "--max_sequences", "max_seqs"),
]  # fmt: skip


def run_cli(case, ctx):
    """every documented command line option, in every form, over every kind of previous value, together with ++ options"""
    from returnn.config import Config

    i = case["i"]
    short, long, dest = CLI[i]
    other = CLI[(i + 1) % len(CLI)]
    for form in range(3):
        for prev in [None, 3, "s"]:
            for extra in [None, dest, "foo"]:
                for with_other in (False, True):
                    for via_file in (False, True):
                        cfg = Config({"keep": 1, dest: prev} if prev is not None else {"keep": 1})
                        args = [[short, "12"], [long, "12"], [long + "=12"]][form]
                        if via_file:
                            fn = os.environ["TMPDIR"] + "/cli.py"
                            with open(fn, "w") as f:
                                f.write("from_file = 17\n")
                            args = args + ["--config", fn]
                        if with_other:
                            args = [other[1], "99"] + args
                        if extra:
                            args = args + ["++" + extra, "21"]
                        cfg.parse_cmd_args(args)
                        v = 21 if extra == dest else 12
                        what = f"{args} with previously {dest}={prev!r}"
                        expect(cfg.has(dest), f"{what}: {dest} not set")
                        expect_eq(cfg.int(dest, None) if prev != "s" else int(cfg.value(dest, None)), v, f"{what}: {dest}")
                        expect_eq(type(cfg.opt_typed_value(dest)), int if prev == 3 else str, f"{what}: type of {dest}")
                        expect_eq(cfg.int("foo", None), 21 if extra == "foo" else None, f"{what}: foo")
                        expect_eq(cfg.int(other[2], None), 99 if with_other else None, f"{what}: {other[2]}")
                        expect_eq(cfg.int("from_file", None), 17 if via_file else None, f"{what}: from_file")
                        expect_eq(cfg.typed_value("keep"), 1, f"{what}: keep")
                        for o in CLI:
                            if o[2] not in (dest, other[2], extra):
                                expect(not cfg.has(o[2]), f"{what}: {o[2]} is set")
                        ctx.trans()
    ctx.trace()
    ctx.state(("cli", i))


def run_files(case, ctx):
    """Python config with and without shebang, absolute or in the current directory, as a module in a (nested) package; several in sequence"""
    from returnn.config import Config

    tmp = os.environ["TMPDIR"] + "/cfgfiles"
    cwd = os.getcwd()
    cnt = 0
    for order in itertools.permutations(["shebang", "py", "pkg", "nested", "stream"], 2):
        for rel in (False, True):
            cnt += 1
            d = "%s/%i_%s" % (tmp, cnt, case["salt"])
            os.makedirs(d)
            cfg = Config({"a": 1, "keep": [1]})
            for j, k in enumerate(order):
                code = "a = %i\nb_%s = %r\ndef f_%s(): return a\n" % (j + 5, k, k, k)
                dd, name = d, "c_%s" % k
                if k in ("pkg", "nested"):
                    for sub in ["vp%s%i" % (case["salt"], cnt)] + (["sub"] if k == "nested" else []):
                        dd += "/" + sub
                        os.makedirs(dd, exist_ok=True)
                        open(dd + "/__init__.py", "w").close()
                fn = dd + "/" + name + (".py" if k != "shebang" else ".config")
                if k in ("shebang", "stream"):
                    code = "#!rnn.py\n" + code
                path0 = list(sys.path)
                if k == "stream":
                    cfg.load_file(io.StringIO(code))
                else:
                    with open(fn, "w") as f:
                        f.write(code)
                    if rel:
                        os.chdir(dd)
                        fn = os.path.basename(fn)
                    try:
                        cfg.load_file(fn)
                    finally:
                        os.chdir(cwd)
                sys.path[:] = path0
                expect_eq(cfg.int("a", None), j + 5, f"{order} rel {rel}: a after {k}")
                expect_eq(cfg.value("b_" + k, None), k, f"{order} rel {rel}: b_{k}")
                expect_eq(cfg.typed_value("f_" + k)(), j + 5, f"{order} rel {rel}: f_{k}")
                expect_eq(cfg.typed_value("keep"), [1], f"{order} rel {rel}: keep")
                ctx.trans()
            if "pkg" not in order and "nested" not in order:
                expect_eq([cfg.typed_value("f_" + k)() for k in order], [6, 6], f"{order} rel {rel}: functions see the current value")
            ctx.state((order, rel))
    ctx.trace()


def gen_cases(tier):
    for i in range(len(CLI)):
        yield dict(kind="cli", i=i)
    yield dict(kind="files", salt="a")
    q = tier == "quick"
    for op in OPS:
        yield dict(kind="history", first=op, n=3 if q else 4, pickle_n=2 if q else 3)
    for pre in (False, True):
        for extra in ("1", "a,b"):
            yield dict(kind="proc", pre=pre, extra=extra)
    for tf in (False, True):
        for exc in (False, True):
            yield dict(kind="global", tf=tf, exc=exc, n=3)


def run_case(case, ctx):
    ctx.count(case["kind"])
    {"history": run_history, "proc": run_proc, "global": run_global, "cli": run_cli, "files": run_files}[case["kind"]](case, ctx)
    ctx.trace()
    ctx.outcome((case["kind"], "ok"))


if __name__ == "__main__":
    harness.main(__name__)
