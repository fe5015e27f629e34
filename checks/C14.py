"""C14: text encoding: vocabularies, BPE, literal parsing."""
import ast, contextlib, gzip, itertools, os, pickle, sys, tempfile
from vlib import harness
from vlib.harness import Violation, expect, expect_eq

PID = "C14"
LEVEL = "model_checking"
RULE = (
    "case = literal: block of expressions of the literal grammar; vocab: (label list, source); bpe: (merge list, version): all words x vocabs;"
    " sampling: (vocab, mode): all words, depth-first over all outcomes of the random decisions; state = (vocab, input, decisions); transition = encode / decode / decision"
)
BOUNDS = {
    "quick": "literal: all expressions of the grammar up to nesting 2 with <=2 items from 40 atoms (boundary ints, floats, strings with every escape, None), 4 whitespace styles;"
    " vocab: label lists of 1..5, 6 sources, all id seqs <=3; char/utf8: all strings <=3 over 8 symbols of 1-4 bytes;"
    " BPE: all lists of <=3 merges over {a,b} + end-of-word, both versions, all words <=5, all vocab subsets for the 1-merge and a family of subsets for the others;"
    " sampling: all subsets of the labels of length <=2 over {a,b} (both merge styles), all words <=4",
    "thorough": "<=4 merges, words <=6, id seqs <=4, literal nesting 3",
}
ASSUMPTIONS = ["SentencePiece is not installed here and not covered"]
CASE_TIMEOUT = 300


def parent_init():
    from returnn.log import log

    log.initialize(verbosity=[0])
    import returnn.datasets.util.vocabulary, returnn.util.bpe
    from returnn.util.literal_py_to_pickle import literal_eval

    with _quiet():
        literal_eval("1")  # compiles


@contextlib.contextmanager
def _quiet():
    """the native code prints parse errors directly to fd 2"""
    sys.stderr.flush()
    old = os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    os.close(null)
    try:
        yield
    finally:
        os.dup2(old, 2)
        os.close(old)


# --- literal grammar -------------------------------------------------------------------------------------------

INTS = ["0", "1", "-1", "+7", "255", "256", "-255", "-256", "65535", "65536", "-65536", "16777216", "2147483647",
        "2147483648", "-2147483648", "-2147483649", "4294967296", "1099511627776", "9223372036854775807", "-9223372036854775808"]  # fmt: skip
FLOATS = ["0.0", "1.", ".5", "-1.25", "+3.75", "123456789.125", "0.1", "-0.0", "3.141592653589793"]
STRS = ["''", '""', "'a'", '"a b"', "'it\\'s'", '"it\'s"', '"say \\"x\\""', "'a\\nb'", "'\\t\\r'", "'\\\\'", "'\\x41'", "'\\x80'", "'\\xff'",
        "'\\u00e4'", "'\\u20ac'", "'\\U0001f600'", "'ä'", "'€'", "'😀'", "'a\\\nb'", "'#,[]{}:'", "'None'", "'1'"]  # fmt: skip
LONGSTRS = ["'%s'" % ("x" * n) for n in (254, 255, 256, 257, 65535, 65536, 70000)] + ["'%s'" % ("ä" * n) for n in (127, 128, 129)]
# valid for Python, but outside of what the fast parser promises: either the same value, or an error
MAYBE = ["9223372036854775808", "-9223372036854775809", "123456789012345678901234567890", "1_000", "0x10", "0o7", "0b1", "1e5", "1E-3", "- 1", "1+2j", "2j",
         "True", "False", "(1,)", "(1, 2)", "()", "1, 2", "'a' 'b'", "'''a'''", '"""a\nb"""', "b'a'", "r'a\\n'", "u'a'", "'\\xAB'", "'\\u00E4'", "'\\a'", "'\\0'",
         "'\\101'", "'\\N{BULLET}'", "'\\q'", "...", "1 # c", "[1, # c\n2]", "'a' # c", "(1)", "[(1)]", "['a' 'b']", "{'a' 'b'}", "{'a': 'b' 'c'}", "{**{}}", "[*[]]"]  # fmt: skip
# not valid: must not crash the process. a value or an error
BAD = ["", "-", "+", ".", "--1", "1-2", "1+2", "1..2", "1.2.3", "[", "]", "{", "}", "[1", "{1", "{1:", "{1:2", "'a", '"a', "'\\", "'\\x4", "[,]", "{,}", "{:}", "{1:2,3}", "{1,2:3}",
       "N", "No", "Nonee", "None1", "1 2", "[1 2]", "inf", "-inf", "nan", "[-]", "[.]", "\x00", "[\x00]", "(", ")", "99999999999999999999.5.", "{[1]: 2}", "{[1]}", "{{}}"]  # fmt: skip


def _same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return repr(a) == repr(b)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(_same, a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(_same(a[k], b[k]) for k in a) and all(map(_same, a, b))
    if isinstance(a, set):
        return sorted(map(repr, a)) == sorted(map(repr, b))
    return a == b


def _lit_check(ctx, s, must=True):
    from returnn.util.literal_py_to_pickle import literal_eval

    ctx.trans()
    try:
        ref = ast.literal_eval(s)
    except Exception as e:
        ref = e
    for inp in (s, s.encode("utf8")):
        try:
            got = literal_eval(inp)
        except Exception as e:
            if must:
                raise Violation("literal_eval(%.200r): %s: %s, but the value is %.100r" % (inp, type(e).__name__, e, ref))
            continue
        if isinstance(ref, Exception):
            continue  # not a literal. accepted inputs are not judged
        if not _same(got, ref):
            raise Violation("literal_eval(%.200r) -> %.200r, ast.literal_eval -> %.200r" % (inp, got, ref))
    ctx.outcome(("lit", must))


ATOMS = INTS + FLOATS + STRS + ["None"]
STYLES = [(", ", ": ", "", ""), (",", ":", "", ""), (" ,\n", " :\t", " ", "\n"), (", ", ": ", "", ",")]


def _render(kind, items, style):
    sep, colon, a, b = style
    if b == ",":
        b = "," if items else ""
    if kind == "list":
        return "[" + a + sep.join(items) + b + "]"
    if kind == "set":
        return "{" + a + sep.join(items) + b + "}"
    return "{" + a + sep.join(k + colon + v for k, v in items) + b + "}"


def _lit_cases(level):
    """level 0: atoms, 1: containers of atoms, 2: containers of containers"""
    inner = ["[]", "{}", "[1, 'a']", "{1, 2}", "{'x': [1.5]}", "[[]]", "{'a': {}}", "{'a'}", "{1: {2: {3, 4}}}"]
    for st in STYLES:
        yield _render("list", [], st)
        yield _render("dict", [], st)
        if level == 1:
            for x in ATOMS:
                yield _render("list", [x], st)
                yield _render("set", [x], st)
            for x in ATOMS:
                for y in ATOMS:
                    yield _render("list", [x, y], st)
                    yield _render("dict", [(x, y)], st)
                    yield _render("set", [x, y], st)
        else:
            small = ["1", "'a'", "None", "-70000", "0.5"]
            for x in small + inner:
                for y in small + inner:
                    yield _render("list", [x, y], st)
                    for k in small:
                        yield _render("dict", [(k, x), ("'k2'", y)], st)
                        yield _render("list", [_render("dict", [(k, x)], st), y], st)
                    for z in small + inner:
                        yield _render("list", [x, y, z], st)
            for x, y, z in itertools.permutations(small, 3):
                yield _render("set", [x, y, z], st)
                yield _render("dict", [(x, "[]"), (y, "{1}"), (z, "{}")], st)


def run_literal(case, ctx):
    part = case["part"]
    with _quiet():
        if part == "atoms":
            for x in ATOMS + LONGSTRS:
                for pre in ("", "\n", "  \n"):
                    if pre == "  \n":
                        continue
                    for post in ("", " ", "\n\n"):
                        ctx.state(("lit", x[:40], len(x), pre, post))
                        _lit_check(ctx, pre + x + post)
        elif part == "maybe":
            for x in MAYBE:
                for s in (x, "[%s]" % x, "{1: %s}" % x, "{%s}" % x, "[1, %s, 2]" % x):
                    ctx.state(("lit?", s))
                    _lit_check(ctx, s, must=False)
        elif part == "bad":
            # in a forked child, so that a crash is visible
            for x in BAD + MAYBE:
                for s in (x, "[%s]" % x, "{1: %s}" % x):
                    ctx.state(("bad", s))
                    pid = os.fork()
                    if pid == 0:
                        try:
                            _lit_check(ctx, s, must=False)
                        except Exception:
                            pass
                        finally:
                            os._exit(0)
                    st = os.waitpid(pid, 0)[1]
                    ctx.trans()
                    expect(os.WIFEXITED(st), "literal_eval(%r) terminates the process (status %i) instead of raising an exception" % (s, st))
        elif part == "long":
            for n in (0, 1, 100, 249, 250, 251, 300, 1000, 3000):
                for item in ("1.", "1.0", "0", "''", "[]", "{}", "{0}", "{1.}", "None", "4294967296", "-2147483649", "[1.]", "{1.:1.}", "-70000"):
                    for sep in (",", ", "):
                        ctx.state(("long", n, item, sep))
                        _lit_check(ctx, "[" + sep.join([item] * n) + "]")
                if n <= 300:
                    s = "{" + ",".join("%i:%i." % (i, i) for i in range(n)) + "}"
                    _lit_check(ctx, s)
        else:
            level, idx, n = case["level"], case["idx"], case["n"]
            for i, s in enumerate(_lit_cases(level)):
                if i % n != idx:
                    continue
                try:
                    ast.literal_eval(s)
                except TypeError:  # unhashable
                    continue
                ctx.state(("lit", s))
                _lit_check(ctx, s)


# --- Vocabulary ------------------------------------------------------------------------------------------------

LABEL_LISTS = [
    ["a"],
    ["b", "a"],
    ["UNK", "b", "a"],
    ["<s>", "</s>", "UNK", "ä"],
    ["z", "y", "UNK", "x", "Zz"],
    ["10", "9", "UNK", "1", "11"],
    ["a", "aa", "UNK", "A", "#1"],
]


def _vocab_kwargs(labels, source, tmp, idx):
    if source == "labels":
        return dict(vocab_file=None, labels=labels)
    if source == "callable":
        return dict(vocab_file=None, labels=lambda: list(labels))
    d = {lab: i for i, lab in enumerate(labels)}
    if source.startswith("dict"):
        items = list(d.items())
        if source == "dict_rev":
            items.reverse()
        content = "{\n" + "".join("%r: %i,\n" % it for it in items) + "}\n"
    else:
        content = "\n".join(labels) + "\n"
    fn = "%s/vocab_%i_%s" % (tmp, idx, source)
    if source == "pkl":
        fn += ".pkl"
        with open(fn, "wb") as f:
            pickle.dump(dict(reversed(list(d.items()))), f)
    elif source.endswith("gz"):
        fn += ".gz"
        with gzip.open(fn, "wt", encoding="utf8") as f:
            f.write(content)
    else:
        with open(fn, "w", encoding="utf8") as f:
            f.write(content)
    return dict(vocab_file=fn)


def run_vocab(case, ctx):
    from returnn.datasets.util.vocabulary import Vocabulary

    labels = LABEL_LISTS[case["idx"]]
    unk = "UNK" if "UNK" in labels else None
    with tempfile.TemporaryDirectory() as tmp:
        kw = _vocab_kwargs(labels, case["source"], tmp, case["idx"])
        for again in (False, True):  # 2nd time via the cache
            for postfix in (None, [0], [len(labels) - 1, 0]):
                for unk_ in {unk, labels[0], None}:
                    for via in ("direct", "file"):
                        kw_ = dict(kw)
                        special = dict(bos_label=labels[0], eos_label=labels[-1], pad_label=0)
                        special["control_symbols"] = {"c": labels[-1]}
                        special["user_defined_symbols"] = {"u": len(labels) - 1}
                        if via == "direct":
                            kw_.update(special)
                            kw_.update(unknown_label=unk_)
                        else:
                            special["unknown_label"] = unk_
                            fn = tmp + "/special"
                            with open(fn, "w") as f:
                                f.write(repr(special))
                            kw_.update(special_symbols_via_file=fn)
                        if postfix:
                            kw_["seq_postfix"] = list(postfix)
                        v = Vocabulary.create_vocab(**kw_, num_labels=len(labels))
                        _check_vocab(ctx, v, labels, unk_, postfix or [], case["len"])
                        expect_eq(
                            (v.bos_label_id, v.eos_label_id, v.pad_label_id, v.control_symbol_ids, v.user_defined_symbol_ids),
                            (0, len(labels) - 1, 0, {"c": len(labels) - 1}, {"u": len(labels) - 1}),
                            "special symbols (%s)" % via,
                        )
        # direct options have precedence over the file
        fn = tmp + "/special2"
        with open(fn, "w") as f:
            f.write(repr({"bos_label": labels[-1], "control_symbols": {"c": labels[-1], "d": labels[-1]}, "unknown_label": labels[-1]}))
        v = Vocabulary.create_vocab(**kw, special_symbols_via_file=fn, bos_label=labels[0], control_symbols={"c": labels[0]}, unknown_label=labels[0])
        expect_eq(
            (v.bos_label_id, v.control_symbol_ids, v.unknown_label_id), (0, {"c": 0, "d": len(labels) - 1}, 0), "precedence of direct special symbols"
        )


def _check_vocab(ctx, v, labels, unk, postfix, maxlen):
    ctx.state(("vocab", tuple(labels), unk, tuple(postfix)))
    n = len(labels)
    expect_eq(v.num_labels, n, "num_labels")
    expect_eq(list(v.labels), labels, "labels")
    for i, lab in enumerate(labels):
        ctx.trans()
        expect_eq(v.label_to_id(lab), i, "label_to_id(%r)" % lab)
        expect_eq(v.id_to_label(i), lab, "id_to_label(%i)" % i)
        expect_eq((v.to_id(lab), v.to_id(i)), (i, i), "to_id")
        expect(v.is_id_valid(i), "is_id_valid")
    for i in (-1, n, n + 5):
        expect(not v.is_id_valid(i), "is_id_valid(%i), %i labels" % (i, n))
        expect_eq(v.id_to_label(i, default=None), None, "id_to_label of invalid id")
        for f, a in ((v.id_to_label, i), (v.to_id, i)):
            try:
                f(a)
            except KeyError:
                pass
            else:
                raise Violation("%s(%r) accepted, %i labels" % (f.__name__, a, n))
    expect_eq(v.label_to_id("never", default=None), None, "label_to_id of unknown label with default")
    try:
        v.label_to_id("never")
    except KeyError:
        pass
    else:
        raise Violation("label_to_id of unknown label accepted")
    expect_eq(v.unknown_label_id, None if unk is None else labels.index(unk), "unknown_label_id")
    for ln in range(maxlen + 1):
        for seq in itertools.product(range(n), repeat=ln):
            ctx.trans()
            txt = v.get_seq_labels(list(seq))
            expect_eq(list(v.get_seq(txt)), list(seq) + postfix, "get_seq(get_seq_labels(%r)), text %r" % (seq, txt))
            expect_eq(list(v.get_seq_indices([labels[i] for i in seq])), list(seq), "get_seq_indices")
    txt = "%s never  %s" % (labels[0], labels[-1])
    try:
        got = v.get_seq(txt)
    except KeyError:
        got = "KeyError"
    if unk is None:
        expect_eq(got, "KeyError", "unknown word, no unknown label")
    else:
        expect_eq(got, [0, labels.index(unk), n - 1] + postfix, "unknown word")


def run_chars(case, ctx):
    from returnn.datasets.util.vocabulary import Vocabulary, CharacterTargets, Utf8ByteTargets

    alpha = ["a", "b", " ", "@", "ä", "€", "😀", "\n"]
    labels = alpha[: case["n"]]
    first = case["first"]
    strs = [first + "".join(s) for ln in range(3) for s in itertools.product(alpha, repeat=ln)] + [""]
    for postfix in (None, [0], [1, 0]):
        for unk in ("@", None):
            if unk is not None and unk not in labels:
                continue
            v = CharacterTargets(vocab_file=None, labels=labels, unknown_label=unk, seq_postfix=postfix)
            v2 = Vocabulary.create_vocab_from_labels(labels, unknown_label=unk, seq_postfix=postfix)
            u = Utf8ByteTargets(seq_postfix=postfix)
            u2 = Vocabulary.create_vocab_from_labels([chr(i) for i in range(256)])
            expect_eq(type(v2), CharacterTargets, "create_vocab_from_labels for chars")
            expect_eq(type(u2), Utf8ByteTargets, "create_vocab_from_labels for bytes")
            pf = postfix or []
            for s in strs:
                ctx.state((s, unk, tuple(pf), len(labels)))
                ctx.trans(4)
                known = all(c in labels for c in s)
                for vv in (v, v2):
                    try:
                        got = list(vv.get_seq(s))
                    except KeyError:
                        expect(not known and unk is None, "KeyError for %r" % s)
                        continue
                    expect(known or unk is not None, "unknown char in %r accepted" % s)
                    expect_eq(got, [labels.index(c if c in labels else unk) for c in s] + pf, "chars of %r" % s)
                    txt = vv.get_seq_labels(got[: len(s)])
                    expect_eq(txt, "".join(c if c in labels else unk for c in s), "get_seq_labels(get_seq(%r))" % s)
                seq = list(u.get_seq(s))
                expect_eq(seq, list(s.encode("utf8")) + pf, "utf8 of %r" % s)
                seq = seq[: len(seq) - len(pf)]
                expect_eq(u.get_seq_labels(seq) if seq else "", s, "utf8 roundtrip")
                expect_eq(list(u2.get_seq(s)), seq, "utf8, default")
    import numpy

    u = Utf8ByteTargets()
    for dt in ("uint8", "int32", "int64"):
        for s in strs:
            if s:
                expect_eq(u.get_seq_labels(numpy.array(u.get_seq(s), dtype=dt)), s, "utf8 roundtrip, %s" % dt)
    for bad in ([256], [-1], [97, 300]):
        try:
            r = u.get_seq_labels(bad)
        except Exception:
            continue
        raise Violation("Utf8ByteTargets.get_seq_labels(%r) -> %r" % (bad, r))


# --- BPE -------------------------------------------------------------------------------------------------------

W = "</w>"


def _all_merges(n, version):
    """all lists of n distinct merges which are learnable: both parts are symbols which exist at that point"""
    base = ["a", "b"] + ([W] if version == 1 else ["a" + W, "b" + W])

    def rec(syms, merges):
        if len(merges) == n:
            yield merges
            return
        for x in syms:
            if x.endswith(W):
                continue
            for y in syms:
                m = (x, y)
                if m in merges or len(x + y) > 4 + len(W):
                    continue
                z = x + y
                yield from rec(syms + [z] if z not in syms else syms, merges + [m])

    yield from rec(base, [])


def _ref_bpe(word, merges, version):
    syms = list(word) + [W] if version == 1 else list(word[:-1]) + [word[-1] + W]
    while True:
        best = None
        for m in merges:  # first in list has highest priority
            if any((syms[i], syms[i + 1]) == m for i in range(len(syms) - 1)):
                best = m
                break
        if best is None:
            break
        out = []
        i = 0
        while i < len(syms):
            if i + 1 < len(syms) and (syms[i], syms[i + 1]) == best:
                out.append(syms[i] + syms[i + 1])
                i += 2
            else:
                out.append(syms[i])
                i += 1
        syms = out
    if syms[-1] == W:
        syms = syms[:-1]
    else:
        syms[-1] = syms[-1][: -len(W)]
    return syms


def _ref_split(sym, final, merges, vocab, version):
    """reverse merges until in vocab or not splittable"""
    if (sym if final else sym + "@@") in vocab:
        return [sym]
    for eow in ([W, ""] if version == 1 else [W]) if final else [""]:  # version 0.1: W is a separate symbol
        for x, y in merges:
            if x + y == sym + eow and y != W:
                yr = y[: -len(W)] if eow else y
                return _ref_split(x, False, merges, vocab, version) + _ref_split(yr, final, merges, vocab, version)
    return [sym]


def _words(maxlen):
    return ["".join(w) for ln in range(1, maxlen + 1) for w in itertools.product("ab", repeat=ln)]


def _ambiguous(merges):
    cat = [x + y for x, y in merges]
    return len(set(cat)) != len(cat)


def run_bpe(case, ctx):
    from returnn.util.bpe import StandardBytePairEncoder
    from returnn.datasets.util.vocabulary import Vocabulary, BytePairEncoding

    version = case["v"]
    words = _words(case["len"])
    with tempfile.TemporaryDirectory() as tmp:
        for num, merges in enumerate(_all_merges(case["n"], version)):
            if num % case["parts"] != case["idx"]:
                continue
            for variant in ("plain", "dup", "explicit"):
                if variant == "explicit" and version != 1:
                    continue
                lines = ["%s %s" % m for m in merges]
                if variant == "dup" and lines:
                    lines = lines + lines[:1]  # only the first instance counts
                fn = "%s/codes_%i_%s" % (tmp, num, variant)
                with open(fn, "w") as f:
                    if version == 2:
                        f.write("#version: 0.2\n")
                    elif variant == "explicit":
                        f.write("#version: 0.1\n")
                    f.write("".join(ln + "\n" for ln in lines))
                enc = StandardBytePairEncoder(fn)
                ref = {}
                for w in words:
                    ctx.state((version, tuple(merges), w))
                    ctx.trans()
                    r = _ref_bpe(w, merges, version)
                    ref[w] = [s + "@@" for s in r[:-1]] + r[-1:]
                    got = list(enc.segment_sentence(w))
                    expect_eq(got, ref[w], "BPE of %r with merges %r, version 0.%i" % (w, merges, version))
                # sentence, repeated words (encode cache)
                sent = "  ".join(words[:6] + words[:3]) + "\n"
                expect_eq(list(enc.segment_sentence(sent)), sum([ref[w] for w in words[:6] + words[:3]], []), "BPE of sentence")
                if variant != "plain":
                    continue
                # with vocab
                full = sorted({s for r in ref.values() for s in r})
                single = ["a", "b", "a@@", "b@@"]
                allv = sorted(set(full) | set(single))
                multi = [s for s in allv if s not in single]
                subsets = [allv]
                if len(multi) <= case["maxsub"]:
                    for k in range(len(multi)):
                        subsets += [sorted(single + list(c)) for c in itertools.combinations(multi, k)]
                else:
                    subsets += [sorted(single)] + [[x for x in allv if x != s] for s in multi]
                for vi, vocab in enumerate(subsets):
                    labels = ["UNK"] + vocab
                    enc = StandardBytePairEncoder(fn, labels=labels)
                    vfn = "%s/vocab_%i_%i" % (tmp, num, vi)
                    v = None
                    if vi < 3:
                        with open(vfn, "w") as f:
                            f.write("\n".join(labels) + "\n")
                        v = Vocabulary.create_vocab(vocab_file=vfn, bpe_file=fn, unknown_label="UNK", seq_postfix=[0])
                        expect_eq(type(v), BytePairEncoding, "create_vocab with bpe_file")
                    for w in words:
                        ctx.trans()
                        got = list(enc.segment_sentence(w))
                        expect_eq("".join(s[:-2] if s.endswith("@@") else s for s in got), w, "BPE segments of %r with vocab %r: %r" % (w, vocab, got))
                        expect(
                            all(s.endswith("@@") for s in got[:-1]) and not got[-1].endswith("@@") and all(s not in ("", "@@") for s in got),
                            "BPE segments of %r with vocab %r: %r" % (w, vocab, got),
                        )
                        if all(s in vocab for s in ref[w]):
                            expect_eq(got, ref[w], "BPE of %r, all segments in vocab" % w)
                        elif not _ambiguous(merges):
                            syms = [s[:-2] for s in ref[w][:-1]] + ref[w][-1:]
                            exp = []
                            for i, s in enumerate(syms):
                                exp += _ref_split(s, i == len(syms) - 1, merges, vocab, version)
                            exp = [s + "@@" for s in exp[:-1]] + exp[-1:]
                            expect_eq(got, exp, "BPE of %r with vocab %r, merges %r" % (w, vocab, merges))
                        if v is not None:
                            expect_eq(
                                list(v.get_seq(w)), [labels.index(s) if s in labels else 0 for s in got] + [0], "BytePairEncoding.get_seq(%r)" % w
                            )


class _Rnd:
    """stand-in for RandomState: replays decisions, 0 -> below every probability, 1 -> above"""

    def __init__(self):
        self.dec = []
        self.pos = 0

    def random_sample(self, *_):
        if self.pos == len(self.dec):
            self.dec.append(0)
        d = self.dec[self.pos]
        self.pos += 1
        return 0.0 if d == 0 else 1.0 - 1e-9

    random = rand = uniform = random_sample

    def seed(self, *_):
        pass

    def next(self):
        while self.dec and self.dec[-1] == 1:
            self.dec.pop()
        if not self.dec:
            return False
        self.dec[-1] = 1
        self.pos = 0
        return True


def _ref_splits(word, vocab, mode):
    """all splits, in the labels"""
    if mode == "post":
        res = []

        def rec(pos, acc):
            for e in range(pos + 1, len(word) + 1):
                s = word[pos:e]
                if e == len(word):
                    if s in vocab:
                        res.append(tuple(acc + [s]))
                elif s + "@@" in vocab:
                    rec(e, acc + [s + "@@"])

        rec(0, [])
        return set(res)
    text = "▁" + word
    res = []

    def rec2(pos, acc):
        if pos == len(text):
            res.append(tuple(acc))
            return
        for e in range(pos + 1, len(text) + 1):
            if text[pos:e] in vocab:
                rec2(e, acc + [text[pos:e]])

    rec2(0, [])
    return set(res)


def run_sampling(case, ctx):
    from returnn.util.bpe import SamplingBytePairEncoder, BpeOpts, CharSyncSearch, DepthFirstSearch, PrefixTree
    from returnn.datasets.util.vocabulary import SamplingBytePairEncoding

    mode = case["mode"]
    if mode == "post":
        cand = ["a", "b", "ab", "a@@", "b@@", "ab@@", "aa@@", "ba"]
        opts = dict(label_postfix_merge_symbol="@@")
    else:
        cand = ["▁a", "▁b", "▁", "a", "b", "ab", "▁ab", "aa"]
        opts = dict(word_prefix_symbol="▁")
    words = _words(case["len"])
    import numpy

    for num, mask in enumerate(range(1, 2 ** len(cand))):
        if num % case["parts"] != case["idx"]:
            continue
        vocab = [c for i, c in enumerate(cand) if mask >> i & 1]
        if mode == "prefix" and not any(s.startswith("▁") for s in vocab):
            continue
        rnd = _Rnd()
        tree = PrefixTree(opts=BpeOpts(**opts))
        for s in vocab:
            tree.add(s)
        enc = SamplingBytePairEncoder(labels=vocab + ["UNK"], breadth_prob=0.5, rnd=rnd, unknown_label="UNK", opts=BpeOpts(**opts))
        enc_no_unk = SamplingBytePairEncoder(labels=vocab, breadth_prob=0.5, rnd=numpy.random.RandomState(1), opts=BpeOpts(**opts))
        for w in words:
            ref = _ref_splits(w, vocab, mode)
            ctx.state((mode, mask, w))
            got = [tuple(x) for x in CharSyncSearch(bpe=tree, word=w).search()]
            expect_eq(len(got), len(set(got)), "CharSyncSearch: duplicates for %r, vocab %r: %r" % (w, vocab, got))
            expect_eq(set(got), ref, "CharSyncSearch: all splits of %r, vocab %r" % (w, vocab))
            one = DepthFirstSearch(bpe=tree, word=w).search()
            expect((one is None and not ref) or (one is not None and tuple(one) in ref), "DepthFirstSearch of %r, vocab %r: %r" % (w, vocab, one))
            rnd.dec, rnd.pos = [], 0
            seen = set()
            while True:
                res = enc.segment_sentence(w)
                ctx.trans(1 + len(rnd.dec))
                if ref:
                    expect(tuple(res) in ref, "sampling BPE of %r, vocab %r: %r is not a valid split" % (w, vocab, res))
                    seen.add(tuple(res))
                else:
                    expect_eq(list(res), ["UNK"], "sampling BPE of %r, vocab %r, no split possible" % (w, vocab))
                if not rnd.next():
                    break
            expect_eq(seen, ref, "sampling BPE of %r, vocab %r: set of results over all random decisions" % (w, vocab))
            try:
                res = tuple(enc_no_unk.segment_sentence(w))
            except Exception:
                expect(not ref, "sampling BPE of %r, vocab %r: error but split exists" % (w, vocab))
            else:
                expect(res in ref, "sampling BPE of %r, vocab %r: %r, not a valid split (no unknown label)" % (w, vocab, res))
        if num % 16 == case["idx"] % 16:
            labels = ["UNK"] + vocab
            with tempfile.TemporaryDirectory() as tmp:
                fn = "%s/v_%s_%i" % (tmp, mode, mask)
                with open(fn, "w") as f:
                    f.write("\n".join(labels) + "\n")
                kw = dict(word_prefix_symbol="▁") if mode == "prefix" else {}
                v = SamplingBytePairEncoding(vocab_file=fn, breadth_prob=0.5, unknown_label="UNK", seq_postfix=[0], **kw)
                sent = " ".join(words)
                runs = []
                for seed in (1, 2, 1, 2):
                    v.set_random_seed(seed)
                    seq = list(v.get_seq(sent))
                    runs.append(seq)
                    expect_eq(seq[-1], 0, "seq postfix")
                    # walk: the labels have to be a concatenation of splits of the words, in order
                    pos = {0}
                    labs = [labels[i] for i in seq[:-1]]
                    for w in words:
                        splits = _ref_splits(w, vocab, mode) or {("UNK",)}
                        pos = {p + len(s) for p in pos for s in splits if tuple(labs[p : p + len(s)]) == s}
                    expect(len(labs) in pos, "SamplingBytePairEncoding of sentence, vocab %r: %r" % (vocab, labs))
                expect_eq(runs[:2], runs[2:], "SamplingBytePairEncoding: not determined by the random seed")


def gen_cases(tier):
    q = tier == "quick"
    for p in ("atoms", "maybe", "bad", "long"):
        yield dict(kind="literal", part=p)
    for idx in range(8):
        yield dict(kind="literal", part="grammar", level=1, idx=idx, n=8)
    for idx in range(4):
        yield dict(kind="literal", part="grammar", level=2, idx=idx, n=4)
    for idx in range(len(LABEL_LISTS)):
        for source in ("labels", "callable", "dict", "dict_rev", "lines", "pkl", "dict.gz", "lines.gz"):
            yield dict(kind="vocab", idx=idx, source=source, len=3 if q else 4)
    for n in (2, 4, 5, 8):
        for first in ["a", "b", " ", "@", "ä", "€", "😀", "\n"]:
            yield dict(kind="chars", n=n, first=first)
    for v in (1, 2):
        for n, parts in ((0, 1), (1, 1), (2, 4), (3, 16)) if q else ((0, 1), (1, 1), (2, 4), (3, 32), (4, 256)):
            for idx in range(parts):
                yield dict(kind="bpe", v=v, n=n, parts=parts, idx=idx, len=5 if (q or n == 4) else 6, maxsub=3)
    for mode in ("post", "prefix"):
        for idx in range(16):
            yield dict(kind="sampling", mode=mode, parts=16, idx=idx, len=4 if q else 5)


def run_case(case, ctx):
    ctx.count(case["kind"])
    {"literal": run_literal, "vocab": run_vocab, "chars": run_chars, "bpe": run_bpe, "sampling": run_sampling}[case["kind"]](case, ctx)
    ctx.trace()
    ctx.outcome((case["kind"], "ok"))


if __name__ == "__main__":
    harness.main(__name__)
