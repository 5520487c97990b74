"""C19: text files carry exactly the words and un-normalized vectors."""
import numpy as np
from hypothesis import strategies as st

from .. import ambient, gen, model as M, oracle as O, foreign as F
from ..core import Sub, require, fail, sut
from .c18 import obtain, tame

LEVEL = "exploration"
ASSUMPTIONS = ["Words without ASCII whitespace (the format cannot hold others); at least one "
               "column; finite vectors.",
               "Loading: vector lengths within single precision's range."]


@st.composite
def write_strategy(draw):
    case = draw(gen.emb_case(style="text", fills=("normal", "ints", "zrows", "wide"), hi=8,
                             layouts=("C", "C", "F", "rows2", "rev", "cols2", "be", "ro")))
    case["load"] = draw(st.sampled_from([None, None, "mmap"]))
    case["sep"] = draw(st.sampled_from([None, None, " ", "\t", "  ", "\t "]))
    case["dims"] = draw(st.booleans())
    case["old"] = draw(st.booleans())
    case["at"] = draw(gen.place())
    return case


def write_check(case, ctx):
    from finalfusion.compat import write_text, write_text_dims, load_text, load_text_dims
    em, e = obtain(case, ctx)
    path = gen.place_path(ctx, case["at"])
    if case["old"]:
        with open(path, "wb") as f:
            f.write(b"z" * 100000)
    write, load = (write_text_dims, load_text_dims) if case["dims"] else (write_text, load_text)
    args = {} if case["sep"] is None else {"sep": case["sep"]}
    with sut(write.__name__):
        write(gen.place_arg(path, case["at"]["how"], True), e, **args)
    with open(path, "rb") as f:
        data = f.read()
    try:
        words, matrix, shape = M.parse_text(data, case["dims"], case["sep"] or " ")
    except (M.FormatError, ValueError, IndexError) as err:
        fail(f"written file does not follow the text format: {err!r}")
    require(words == em.vocab.words, lambda: f"words {words[:10]!r}, expected "
            f"{em.vocab.words[:10]!r}")
    want = len(em.vocab.words), em.storage.shape[1]
    if case["dims"]:
        require(shape == want, lambda: f"first line says {shape}, expected {want}")
    if words:
        F.rows_equal(matrix, em, "written text file")
    O.emb_equals(e, em, "embeddings after writing")
    if (words or case["dims"]) and tame(matrix):
        with sut(load.__name__):
            e2 = load(path)
        F.loaded(e2, words, matrix.reshape(want), "re-loaded")
        ctx.label("re-loaded")
    ctx.label(f"{em.vocab.kind}/{em.storage.kind}")
    ctx.label("norms" if em.norms is not None else "no norms")
    return len(words) >= 2


NUMBER = ["%r", "%.9g", "%.9e", "+%.9g", "%.12f", "%.9G", "0%.9g"]


@st.composite
def load_strategy(draw):
    w = draw(gen.words_spec("text", 1, 8))
    case = dict(words=w, seed=draw(st.integers(0, 9999)), cols=draw(st.integers(1, 8)),
                fill=draw(st.sampled_from(["normal", "ints", "zrows", "unit"])),
                seps=draw(st.lists(st.sampled_from([" ", " ", "\t", "  ", " \t ", "\x0b",
                                                    "\x0c", "\t\t"]), min_size=1, max_size=4)),
                trail=draw(st.sampled_from(["", "", " ", "\t ", "  "])),
                newline=draw(st.sampled_from(["\n", "\n", "\r\n"])),
                end=draw(st.booleans()), dims=draw(st.booleans()),
                number=draw(st.sampled_from(NUMBER)), at=draw(gen.place()))
    if gen.rarely(draw, 10):
        case["cols"] = draw(st.sampled_from([50, 300]))
    if case["dims"] and gen.rarely(draw, 4):
        case["words"] = dict(list=[], bulk=0, bseed=0)
    return case


def load_check(case, ctx):
    from finalfusion.compat import load_text, load_text_dims
    words = gen.words_of(case["words"])
    matrix = gen.fill(case["seed"], (len(words), case["cols"]), case["fill"])
    lines, k = [], 0
    if case["dims"]:
        lines.append("%d%s%d" % (len(words), case["seps"][0], case["cols"]))
    ref = np.zeros(matrix.shape)
    for i, w in enumerate(words):
        line = w
        for j in range(case["cols"]):
            x = float(matrix[i, j])
            num = case["number"]
            if num[0] in "+0" and x < 0:
                num = num[1:]
            num = num % x
            ref[i, j] = float(num)
            line += case["seps"][k % len(case["seps"])] + num
            k += 1
        lines.append(line + case["trail"])
    text = case["newline"].join(lines) + (case["newline"] if case["end"] else "")
    path = gen.place_path(ctx, case["at"])
    with open(path, "wb") as f:
        f.write(text.encode("utf-8"))
    load = load_text_dims if case["dims"] else load_text
    with sut(load.__name__):
        e = load(gen.place_arg(path, case["at"]["how"]))
    F.loaded(e, words, ref.astype("<f4"), "loaded text file")
    ctx.label("dims" if case["dims"] else "no dims")
    ctx.label(case["number"])
    return len(words) >= 2


@st.composite
def write_wide(draw):
    return draw(gen.wide(draw(write_strategy())))


@st.composite
def load_wide(draw):
    case = draw(load_strategy())
    if "words" in case:
        case["words"].update(list=case["words"]["list"][:4], bulk=0)
    else:
        draw(gen.wide(dict(vocab=case["vocab"], storage=dict(kind="nd"))))
    case["cols"] = draw(st.sampled_from(gen.WIDE))
    return case


@st.composite
def write_large(draw):
    return draw(gen.large(draw(write_strategy()), far=True, budget=200000))


@st.composite
def load_large(draw):
    case = draw(load_strategy())
    case["words"]["bulk"] = draw(st.sampled_from(gen.EDGES + gen.FAR))
    case["cols"] = draw(st.sampled_from([1, 2, 5]))
    return case


SUBS = [Sub("write-wide", write_wide, write_check, "as write, with hundreds to 70000 columns.", 64),
        Sub("load-wide", load_wide, load_check, "as load, with hundreds to 70000 columns.", 64),
        Sub("write", ambient.within(write_strategy), write_check,
            "non-trivial: at least two words.", 5000),
        Sub("load", ambient.within(load_strategy), load_check,
            "non-trivial: at least two words.", 5000),
        Sub("write-large", write_large, write_check, "as write, up to 70000 words.", 48),
        Sub("load-large", load_large, load_check, "as load, up to 70000 words.", 48)]
