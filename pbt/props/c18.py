"""C18: word2vec files carry exactly the words and un-normalized vectors."""
import numpy as np
from hypothesis import strategies as st

from .. import ambient, gen, model as M, oracle as O, foreign as F
from ..core import Sub, require, fail, sut

LEVEL = "exploration"
ASSUMPTIONS = ["Words without space and without ASCII whitespace at the ends (the format "
               "cannot hold others); at least one column.",
               "Loading: vector lengths within single precision's range."]


@st.composite
def write_strategy(draw):
    case = draw(gen.emb_case(style="w2v", fills=gen.FILLS + ("wide",), hi=8,
                             layouts=("C", "C", "F", "rows2", "rev", "cols2", "be", "ro")))
    case["load"] = draw(st.sampled_from([None, None, "mmap"]))
    case["old"] = draw(st.booleans())
    case["at"] = draw(gen.place())
    return case


def obtain(case, ctx):
    import finalfusion
    em, e = gen.build(case)
    if case["load"] == "mmap" and em.storage.shape[0]:
        with sut("write and load"):
            e.write(ctx.path("in.fifu"))
            e = finalfusion.load_finalfusion(ctx.path("in.fifu"), mmap=True)
    return em, e


def write_check(case, ctx):
    from finalfusion.compat import write_word2vec, load_word2vec
    em, e = obtain(case, ctx)
    path = gen.place_path(ctx, case["at"])
    if case["old"]:
        with open(path, "wb") as f:
            f.write(b"z" * 100000)
    with sut("write_word2vec"):
        write_word2vec(gen.place_arg(path, case["at"]["how"], True), e)
    with open(path, "rb") as f:
        data = f.read()
    try:
        words, matrix = M.parse_w2v(data)
    except (M.FormatError, ValueError) as err:
        fail(f"written file does not follow the word2vec format: {err!r}")
    require(words == em.vocab.words, lambda: f"words {words[:10]!r}, expected "
            f"{em.vocab.words[:10]!r}")
    F.rows_equal(matrix, em, "written word2vec file")
    O.emb_equals(e, em, "embeddings after writing")
    if tame(matrix):
        with sut("load_word2vec"):
            e2 = load_word2vec(path)
        F.loaded(e2, words, matrix, "re-loaded")
        ctx.label("re-loaded")
    ctx.label(f"{em.vocab.kind}/{em.storage.kind}")
    ctx.label("norms" if em.norms is not None else "no norms")
    return len(words) >= 2


def tame(m):
    a = np.abs(m[m != 0].astype(np.float64))
    return np.isfinite(a).all() and (a < 1e15).all() and (a > 1e-15).all()


@st.composite
def load_strategy(draw):
    w = draw(gen.words_spec("w2v", 0 if gen.rarely(draw, 5) else 2, 8))
    n = len(gen.words_of(w))
    case = dict(words=w, seed=draw(st.integers(0, 9999)), cols=draw(st.integers(1, 8)),
                fill=draw(st.sampled_from(["normal", "ints", "zrows", "unit", "space"])),
                newline=draw(st.sampled_from(["\n", "\n", "\n", "", "\r\n", "\t\n\n"])),
                head=draw(st.sampled_from(["%d %d\n", "%d %d\n", "%d  %d\n", "%d\t%d \n"])),
                end=draw(st.booleans()), pad=draw(st.integers(0, 9)),
                at=draw(gen.place()))
    if gen.rarely(draw, 10):
        case["cols"] = draw(st.sampled_from([50, 300]))
    assert n >= 0
    return case


def load_check(case, ctx):
    from finalfusion.compat import load_word2vec
    words = gen.words_of(case["words"])
    if case["fill"] == "space":          # bytes that look like separators
        rng = np.random.RandomState(case["seed"])
        pool = np.array([0x20202020, 0x0a0a0a0a, 0x0a200a20, 0x200a0d09, 0x40002020],
                        dtype="<u4").view("<f4")
        matrix = pool[rng.randint(0, len(pool), size=(len(words), case["cols"]))]
        matrix = np.where(np.abs(matrix) < 1e-15, np.float32(1e-12), matrix).astype("<f4")
    else:
        matrix = gen.fill(case["seed"], (len(words), case["cols"]), case["fill"])
    raw = [w.encode("utf-8") for w in words]
    if case["pad"] == 1:
        raw = [b"\n\t" + w + b"\t" for w in raw]
    body = M.encode_w2v(raw, matrix, case["newline"].encode()).split(b"\n", 1)[1]
    if not case["end"] and case["newline"] and body:
        body = body[:-len(case["newline"])]
    path = gen.place_path(ctx, case["at"])
    with open(path, "wb") as f:
        f.write((case["head"] % matrix.shape).encode() + body)
    with sut("load_word2vec"):
        e = load_word2vec(gen.place_arg(path, case["at"]["how"]))
    F.loaded(e, words, matrix, "loaded word2vec file")
    ctx.label(f"newline {case['newline']!r}")
    return len(words) >= 2


@st.composite
def write_wide(draw):
    return draw(gen.wide(draw(write_strategy())))


@st.composite
def load_wide(draw):
    case = draw(load_strategy())
    if "words" in case:
        case["words"].update(list=case["words"]["list"][:4], bulk=0)
    else:
        draw(gen.wide(dict(vocab=case["vocab"], storage=dict(kind="nd"))))
    case["cols"] = draw(st.sampled_from(gen.WIDE))
    return case


@st.composite
def write_large(draw):
    return draw(gen.large(draw(write_strategy()), far=True))


@st.composite
def load_large(draw):
    case = draw(load_strategy())
    case["words"]["bulk"] = draw(st.sampled_from(gen.EDGES + gen.FAR))
    case["cols"] = draw(st.sampled_from([1, 3, 10, 20]))
    return case


SUBS = [Sub("write-wide", write_wide, write_check, "as write, with hundreds to 70000 columns.", 64),
        Sub("load-wide", load_wide, load_check, "as load, with hundreds to 70000 columns.", 64),
        Sub("write", ambient.within(write_strategy), write_check,
            "non-trivial: at least two words.", 5000),
        Sub("load", ambient.within(load_strategy), load_check,
            "non-trivial: at least two words.", 5000),
        Sub("write-large", write_large, write_check, "as write, up to 70000 words.", 64),
        Sub("load-large", load_large, load_check, "as load, up to 70000 words.", 64)]
