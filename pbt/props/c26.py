"""C26: damaged word2vec, text and fastText files are rejected."""
import os
import struct

import numpy as np
from hypothesis import strategies as st

from .. import gen, model as M, foreign as F
from ..core import Sub, fail, rejects, outcome, sut

LEVEL = "fault_enumeration"
ASSUMPTIONS = ["At least one word and one component. Any exception counts as rejection.",
               "Cutting a text file inside the digits of its last component cannot be noticed "
               "by any reader, so text files are damaged by lines, words and components."]


def spec(draw, fmt):
    if fmt == "fasttext":
        v = draw(gen.vocab_case(("ft",), "ft", 1, 5, big=False, bulk=False, long=False))
        v["hi"] = min(v["hi"], (1 << 31) - 1)
        v["buckets"] = min(v["buckets"], 12)
    else:
        v = dict(kind="simple", words=draw(gen.words_spec(
            "plain", 1, 6, long=False, bulk=False)))
    return dict(fmt=fmt, vocab=v, seed=draw(st.integers(0, 9999)), cols=draw(st.integers(1, 5)),
                fill=draw(st.sampled_from(["normal", "ints", "zrows", "unit"])),
                lossy=draw(st.booleans()))


def cfg_of(case, vm):
    return [case["cols"], 5, 5, 5, 5, 1, 2, 2, vm.buckets, vm.lo, vm.hi, 100, 1e-4]


def parts(case):
    vm = gen.vocab_model(case["vocab"])
    return vm, gen.fill(case["seed"], (vm.bound, case["cols"]), case["fill"])


def load(case, path):
    return F.loader(case["fmt"])(path, lossy=case["lossy"])


def intact(case, path, vm, matrix, data):
    with open(path, "wb") as f:
        f.write(data)
    with sut("loading the intact file"):
        e = load(case, path)
    if case["fmt"] == "fasttext":
        F.ft_loaded(e, vm, matrix, "intact")
    else:
        F.loaded(e, vm.words, matrix, "intact")


@st.composite
def cut_strategy(draw):
    case = spec(draw, draw(st.sampled_from(["word2vec", "fasttext"])))
    case["newline"] = draw(st.booleans())
    return case


def cut_check(case, ctx):
    vm, matrix = parts(case)
    if case["fmt"] == "fasttext":
        data = M.encode_ft(cfg_of(case, vm), vm.words, matrix)
        end = len(data)
        data += b"\0" * (case["seed"] % 3)
    else:
        nl = b"\n" if case["newline"] else b""
        data = M.encode_w2v(vm.words, matrix, nl)
        end = len(data) - len(nl)
    path = ctx.path("t.bin")
    intact(case, path, vm, matrix, data)
    rng = np.random.RandomState(case["seed"])
    if end <= 900:
        cuts = range(end)
    else:
        few = end > 20000
        cuts = set(rng.randint(0, end, size=20 if few else 300).tolist())
        cuts.update(range(90))
        cuts.update(range(end - (9 if few else 200), end))
        if few:
            cuts.update(range(4096, end, end // 20 // 4096 * 4096 + 4096))
    for cut in sorted(cuts, reverse=True):
        os.truncate(path, cut)
        how, got = outcome(lambda: load(case, path))
        if how == "ok":
            fail(f"{case['fmt']} file whose last vector ends at byte {end}, cut to {cut} bytes: "
                 f"loaded without an error ({len(got.vocab)} words)")
    ctx.label("cut points", len(cuts))
    ctx.label(f"{case['fmt']} " + ("every byte" if end <= 900 else "sampled"))
    return True


NONNUMBERS = ["x", "1,5", "0x10", "1.2.3", "--1", "1e", "\u65e5", "1;"]
HEADERS = ["{rows}", "x {cols}", "{rows} x", "{rows} {cols} 1", "{rows}.5 {cols}",
           "{rows},{cols}", "-{rows} {cols}", "{rows} -{cols}", "header"]


@st.composite
def text_strategy(draw):
    case = spec(draw, draw(st.sampled_from(["text", "textdims", "textdims", "word2vec"])))
    case["damage"] = draw(st.sampled_from(["missing", "missing", "extra", "extra", "blank",
                                           "wordonly", "announce", "dropline", "number",
                                           "twice", "header"]))
    case["line"] = draw(st.integers(0, 50))
    case["at"] = draw(st.integers(0, 50))
    case["n"] = draw(st.integers(1, 8))
    case["sep"] = draw(st.sampled_from([" ", "\t", "  "]))
    case["eol"] = draw(st.sampled_from(["\n", "\n", "\r\n", " \n"]))
    case["last"] = draw(st.booleans())
    return case


def text_check(case, ctx):
    vm, matrix = parts(case)
    words, (rows, cols) = vm.words, matrix.shape
    damage, fmt = case["damage"], case["fmt"]
    if fmt == "word2vec" and damage not in ("twice", "header"):
        damage = "announce"
    if fmt == "text" and damage in ("announce", "dropline", "header"):
        damage = "missing"
    header = HEADERS[case["line"] % len(HEADERS)].format(rows=rows, cols=cols)
    dims = fmt == "textdims"
    if fmt == "text" and rows < 2:
        return False                     # nothing to compare the line with
    path = ctx.path("t.txt")
    if fmt == "word2vec":
        data = M.encode_w2v(words, matrix)
        intact(case, path, vm, matrix, data)
        head = b"%d %d\n" % (rows, cols)
        if damage == "announce":
            data = b"%d %d\n" % (rows + case["n"], cols) + data[len(head):]
        elif damage == "header":
            data = header.encode() + b"\n" + data[len(head):]
        else:
            i = case["line"] % rows
            more = [words[i]] + words if case["at"] % 2 else words + [words[i]]
            data = M.encode_w2v(more, np.concatenate([matrix, matrix[:1]]))
    else:
        recs = [[w] + [repr(float(x)) for x in r] for w, r in zip(words, matrix)]

        def text(recs, n=rows, head=None):
            lines = [head or f"{n} {cols}"] if dims else []
            lines += [case["sep"].join(r) for r in recs]
            t = case["eol"].join(lines)
            return (t + (case["eol"] if case["last"] else "")).encode()
        intact(case, path, vm, matrix, text(recs))
        i = case["line"] % rows
        if damage == "announce":
            data = text(recs, rows + case["n"])
        elif damage == "dropline":
            data = text(recs[:i] + recs[i + 1:])
        elif damage == "header":
            data = text(recs, head=header)
        elif damage == "twice":
            data = text(recs[:case["at"] % (rows + 1)] + [recs[i][:1] + recs[0][1:]] +
                        recs[case["at"] % (rows + 1):], rows + 1)
        elif damage == "blank":
            # a blank line at the very end holds no record, so put it before one
            data = text(recs[:i] + [[""]] + recs[i:])
        else:
            r = recs[i]
            if damage == "number":
                at = 1 + case["at"] % cols
                r = r[:at] + [NONNUMBERS[case["n"] % len(NONNUMBERS)]] + r[at + 1:]
            elif damage == "missing":
                at = 1 + case["at"] % cols
                r = r[:at] + r[at + min(case["n"], cols):]
            elif damage == "wordonly":
                r = r[:1]
            else:
                at = 1 + case["at"] % (cols + 1)
                r = r[:at] + ["0.25"] * case["n"] + r[at:]
            data = text(recs[:i] + [r] + recs[i + 1:])
    with open(path, "wb") as f:
        f.write(data)
    rejects(f"{fmt} file of {rows} rows with damage {damage!r}", lambda: load(case, path))
    ctx.label(f"{fmt} {damage}")
    return rows >= 2


@st.composite
def large_cut(draw):
    case = draw(cut_strategy())
    case["vocab"]["words"]["bulk"] = draw(st.sampled_from(gen.EDGES[:12]))
    case["cols"] = draw(st.sampled_from([1, 3, 10, 50]))
    if case["fmt"] == "fasttext":
        case["vocab"]["hi"] = min(case["vocab"]["hi"], case["vocab"]["lo"] + 2)
    return case


@st.composite
def large_text(draw):
    case = draw(text_strategy())
    case["vocab"]["words"]["bulk"] = draw(st.sampled_from(gen.EDGES))
    case["line"] = draw(st.integers(0, 6000))
    case["cols"] = draw(st.sampled_from([1, 2, 5, 20]))
    case["at"] = draw(st.integers(0, 50))
    case["n"] = draw(st.sampled_from([1, 1, 2, 100, 256]))
    return case


@st.composite
def field_strategy(draw):
    case = spec(draw, "fasttext")
    case["what"] = draw(st.sampled_from(["magic", "version", "labels", "prune", "quant", "type",
                                         "loss", "model", "dims", "rows", "cols", "shape",
                                         "buckets"]))
    case["value"] = draw(st.one_of(st.integers(-3, 20), st.integers(-(1 << 31), (1 << 31) - 1),
                                   st.sampled_from([11, 13, 793712313, 793712315, 256, 1 << 24])))
    case["fit"] = draw(st.booleans())     # as many floats as the wrong shape says
    case["at"] = draw(st.integers(0, 50))
    return case


def field_check(case, ctx):
    vm, matrix = parts(case)
    what, v = case["what"], case["value"]
    n, kw = len(vm.words), {}
    path = ctx.path("t.bin")
    intact(case, path, vm, matrix, M.encode_ft(cfg_of(case, vm), vm.words, matrix))
    if what == "magic":
        kw["magic"] = v if v != 793712314 else 0
    elif what == "version":
        kw["version"] = v if v != 12 else 11
    elif what == "labels":
        kw["n_labels"] = 1 + abs(v) % n      # some of the entries are labels
        if case["at"] % 2:                   # and are marked so
            kw["types"] = [int(i >= n - kw["n_labels"]) for i in range(n)]
    elif what == "prune":
        kw["prune"] = abs(v)
    elif what == "type":
        kw["types"] = [0] * n
        kw["types"][case["at"] % n] = 1 + abs(v) % 127
    cfg, (rows, cols) = cfg_of(case, vm), matrix.shape
    if what in ("loss", "model"):
        cfg[6 if what == "loss" else 7] = v if not 1 <= v <= 3 else 0
    elif what == "dims":
        cfg[0] = v if v != cols else cols + 1
    elif what == "buckets":
        cfg[8] = v if v != vm.buckets else vm.buckets + 1
    data = bytearray(M.encode_ft(cfg, vm.words, matrix, **kw))
    if what in ("rows", "cols", "shape"):    # contradicts the words, buckets and dimensions
        shape = dict(rows=(v, cols), cols=(rows, v),
                     shape=[(cols, rows), (1, rows * cols), (rows * cols, 1), (-rows, -cols),
                            (rows, -1), (-1, cols), (rows - 1, cols), (rows, cols - 1),
                            (0, 0), (rows + 1, cols), (rows, cols + 1), (rows + 3, cols),
                            (n, cols), (vm.buckets, cols), (rows + n, cols)][case["at"] % 15])[what]
        if shape == (rows, cols):
            shape = (rows - 1, cols)
        kw["shape"] = shape
        at = len(data) - 4 * matrix.size - 16
        data[at:at + 16] = struct.pack("<qq", *shape)
        size = 4 * shape[0] * shape[1]
        if case["fit"] and 0 <= size < 100000 and min(shape) >= 0:
            data[at + 16:] = (bytes(data[at + 16:]) * (size // (4 * matrix.size) + 1))[:size]
    if what == "quant":
        data[len(data) - 4 * matrix.size - 17] = 1 + abs(v) % 255
    with open(path, "wb") as f:
        f.write(data)
    rejects(f"fastText file with wrong {what} ({kw or v})", lambda: load(case, path))
    ctx.label(what)
    return True


SUBS = [
    Sub("cut", cut_strategy, cut_check, "each case is a word2vec or fastText file, loaded after "
        "truncation at every byte before the end of the last vector (files over 900 bytes: 300 "
        "random cuts, the first 90 and the last 200 bytes); all are non-trivial.", 2500),
    Sub("text", text_strategy, text_check, "a component, line, word or header of a text, "
        "text-dims or word2vec file is wrong; non-trivial: at least two rows.", 6000),
    Sub("large-cut", large_cut, cut_check, "as cut, with hundreds to 2000 words; all are "
        "non-trivial.", 24),
    Sub("large-text", large_text, text_check, "as text, with hundreds to 5000 rows.", 200),
    Sub("field", field_strategy, field_check, "a field of a fastText file declares something "
        "unsupported or contradictory; all are non-trivial.", 3000),
]
