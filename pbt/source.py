"""Generated input files in every format, for the command line tools."""
import numpy as np
from hypothesis import strategies as st

from . import gen, model as M, foreign as F
from .core import sut

ALL = ("finalfusion", "word2vec", "text", "textdims", "fasttext")
HOLDS = dict(finalfusion="any", word2vec="w2v", text="text", textdims="text", fasttext="ft")


def style_of(fmt, style):
    """The words that format fmt can hold and that are in style."""
    both = {HOLDS[fmt], style} - {"any"}
    return "+".join(sorted(both)) or "any"


@st.composite
def source(draw, formats=ALL, style="plain", kinds=gen.KINDS, lo=1, hi=7, hardmeta=False,
           large=False, budget=100000):
    fmt = draw(st.sampled_from(formats))
    style = style_of(fmt, style)
    if fmt == "finalfusion":
        case = draw(gen.emb_case(kinds=kinds, style=style, lo=lo, hi=hi, hardmeta=hardmeta,
                                 fills=("normal", "ints", "zrows", "unit", "dup"),
                                 layouts=("C",)))
        case["mmap"] = draw(st.booleans())
    elif fmt == "fasttext":
        v = draw(gen.vocab_case(("ft",), style, lo, hi))
        v["hi"] = min(v["hi"], (1 << 31) - 1)
        case = dict(vocab=v)
    else:
        case = dict(vocab=dict(kind="simple", words=draw(gen.words_spec(
            style, lo, hi))))
    case.update(fmt=fmt, seed=draw(st.integers(0, 9999)), cols=draw(st.integers(1, 6)),
                fill=draw(st.sampled_from(["normal", "ints", "zrows", "unit"])))
    case["at"] = draw(st.sampled_from(gen.CLI_NAMES)) if gen.rarely(draw, 15) else 0
    if large:
        case = draw(grown(case, budget))
    return case


@st.composite
def grown(draw, case, budget):
    """The source with hundreds or thousands of words."""
    if case["fmt"] == "finalfusion":
        return draw(gen.large(case, False, budget))
    nd = dict(kind="nd", cols=1)
    draw(gen.large(dict(vocab=case["vocab"], storage=nd), False, budget))
    case["cols"] = nd["cols"]
    return case


class Source:
    """path, fmt; em: what the loader gives, as a model; for conversions also
    vectors (un-normalized, float64) and tol, and for subword formats vm and rows."""


def words_in(case):
    return gen.words_of(case["vocab"]["words"])


def text_lines(words, matrix, dims):
    lines = [w + " " + " ".join(repr(float(x)) for x in r) for w, r in zip(words, matrix)]
    if dims:
        lines.insert(0, "%d %d" % matrix.shape)
    return "".join(x + "\n" for x in lines).encode("utf-8")


def make(case, ctx, name="in"):
    s = Source()
    s.fmt, s.cfg = case["fmt"], None
    s.path = gen.place_path(ctx, dict(name=case["at"])) if case["at"] else ctx.path(name)
    if s.fmt == "finalfusion":
        s.em, e = gen.build(case)
        with sut("writing the input"):
            e.write(s.path)
        s.vm = s.em.vocab
        _, s.vectors, s.tol = F.products(s.em)
        s.matrix = None
        s.args = ["--mmap"] if case["mmap"] else []
        return s
    s.vm = gen.vocab_model(case["vocab"])
    s.args = []
    s.matrix = gen.fill(case["seed"], (s.vm.bound, case["cols"]), case["fill"])
    n = len(s.vm.words)
    if s.fmt == "fasttext":
        s.cfg = [case["cols"], 5, 5, 5, 5, 1, 2, 2, s.vm.buckets, s.vm.lo, s.vm.hi, 100, 1e-4]
        data = M.encode_ft(s.cfg, s.vm.words, s.matrix, tail=b"\1" * (case["seed"] % 9))
        s.vectors = M.ft_average(s.vm, s.matrix)
        s.tol = np.zeros(s.vectors.shape)
        m64 = np.abs(s.matrix.astype(np.float64))
        for i, w in enumerate(s.vm.words):
            rows = [i] + [j for _, j in s.vm.sub(w, n)]
            s.tol[i] = 1.5e-7 * (len(rows) + 4) * m64[rows].mean(0)
    elif s.fmt == "word2vec":
        data = M.encode_w2v(s.vm.words, s.matrix)
    else:
        data = text_lines(s.vm.words, s.matrix, s.fmt == "textdims")
    if s.fmt != "fasttext":
        s.vectors = s.matrix.astype(np.float64)
        s.tol = np.zeros(s.vectors.shape)
    s.tol = s.tol + 1e-6 * np.abs(s.vectors) + 1e-37
    with open(s.path, "wb") as f:
        f.write(data)
    s.em = None
    return s


def as_loaded(s):
    """Model of the embeddings the library's loader yields for s."""
    if s.em is None:
        with sut("loading the input"):
            e = F.loader(s.fmt)(s.path)
            s.em = M.EmbM(s.vm, M.NdM(np.array(np.asarray(e.storage))),
                          np.array(np.asarray(e.norms)),
                          None if e.metadata is None else dict(e.metadata))
    return s.em
