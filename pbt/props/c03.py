"""C03: files follow the finalfusion byte format in both directions."""
import toml
from hypothesis import strategies as st

from .. import gen, model as M, oracle as O
from ..core import Sub, require, fail, sut

LEVEL = "exploration"
ASSUMPTIONS = ["The reference encoder/parser in pbt/model.py states the finalfusion format "
               "(as in finalfusion-rust: 1 to 4 padding bytes before float data)."]


def write_check(case, ctx):
    em, e = gen.build(case)
    path = ctx.path("w.fifu")
    with sut("write"):
        e.write(path)
    with open(path, "rb") as f:
        data = f.read()
    judge(data, em.chunks("" if em.meta is not None else None), em.meta, "written file")
    with sut("chunks"):
        parts = e.chunks()
    for part, ref in zip(parts, em.chunks("" if em.meta is not None else None)):
        p = ctx.path("solo.fifu")
        with sut("Chunk.write"):
            part.write(p)
        with open(p, "rb") as f:
            judge(f.read(), [ref], em.meta, f"standalone {type(part).__name__}")
    ctx.label(f"{em.vocab.kind}/{em.storage.kind}")
    return len(em.vocab.words) >= 1


def judge(data, want, meta, what):
    """Strict parse, then byte equality with the reference encoding."""
    try:
        got = M.parse_file(data)
    except Exception as ex:
        fail(f"{what} does not conform to the format: {type(ex).__name__}: {ex}")
    require([c for c, _ in got] == [c for c, _ in want],
            lambda: f"{what}: chunks {[c for c, _ in got]}, expected {[c for c, _ in want]}")
    ref = []
    for (cid, obj), (_, mine) in zip(want, got):
        if cid == M.META:
            try:
                val = toml.loads(mine)
            except Exception as ex:
                fail(f"{what}: metadata is not TOML: {ex}")
            require(gen.same(val, meta), lambda: f"{what}: metadata {val!r}")
            obj = mine
        ref.append((cid, obj))
    want_data, _ = M.encode_file(ref)
    if data != want_data:
        at = next((i for i, (a, b) in enumerate(zip(data, want_data)) if a != b),
                  min(len(data), len(want_data)))
        fail(f"{what}: {len(data)} bytes, expected {len(want_data)}; first difference at "
             f"byte {at}: {data[at:at + 8].hex()} expected {want_data[at:at + 8].hex()}")


# TOML documents as other writers format them
DOCS = ["", "# only a comment\n", "a=1", "  a   =    1   # c\nb = 'lit'\n",
        "[x]\n  y = \"\\u65e5\"\n\n[x.z]\nq=[ 1,2,\n 3 ]\n", "d = 1979-05-27T07:32:00\n",
        "a.b = 1\n" if False else "ab = true\r\nc = 1e3\r\n", "s = \"\"\"multi\nline\"\"\"\n",
        "t = { k = 1, l = \"m\" }\n", "[[arr]]\nn = 1\n[[arr]]\nn = 2\n",
        "big = \"" + "\u00fc" * 700 + "\"\n"]


@st.composite
def read_strategy(draw):
    case = draw(gen.emb_case(layouts=("C",), pqfills=("normal", "ints", "bits"), meta=False))
    case["doc"] = draw(st.one_of(st.none(), st.integers(0, len(DOCS) - 1)))
    return case


def read_check(case, ctx):
    import finalfusion
    em = gen.emb_model(case)
    doc = None if case["doc"] is None else DOCS[case["doc"]]
    em.meta = None if doc is None else toml.loads(doc)
    data, _ = M.encode_file(em.chunks(doc))
    path = ctx.path("r.fifu")
    with open(path, "wb") as f:
        f.write(data)
    with sut("loading a conforming file"):
        e = finalfusion.load_finalfusion(path)
    O.emb_equals(e, em, "loaded")
    if em.storage.kind == "pq" or em.vocab.kind == "explicit":
        with sut("write"):
            e.write(ctx.path("rw.fifu"))
        with open(ctx.path("rw.fifu"), "rb") as f:
            judge(f.read(), em.chunks("" if doc is not None else None), em.meta,
                  "re-written file")
    # queries against the meaning of the file
    for w in em.vocab.words[:3] + ["ab\u00e4", "<x>", "abc"]:
        with sut("idx"):
            got = e.vocab.idx(w)
        require(got == em.vocab.idx(w),
                lambda: f"idx({w!r}) is {got}, expected {em.vocab.idx(w)}")
    ctx.label(f"{em.vocab.kind}/{em.storage.kind}")
    return len(em.vocab.words) >= 1


def vocab_check(case, ctx):
    """Vocabulary chunks with any bucket count and n-gram range, both directions."""
    from finalfusion.vocab import load_vocab
    vm = gen.vocab_model(case)
    ref = [(M.VOCAB_ID[vm.kind], vm)]
    with sut("vocabulary"):
        gen.vocab_sut(vm).write(ctx.path("v.fifu"))
    with open(ctx.path("v.fifu"), "rb") as f:
        judge(f.read(), ref, None, "written vocabulary")
    with open(ctx.path("r.fifu"), "wb") as f:
        f.write(M.encode_file(ref)[0])
    with sut("loading a conforming vocabulary"):
        O.vocab_equals(load_vocab(ctx.path("r.fifu")), vm, "loaded vocabulary")
    ctx.label(vm.kind)
    return len(vm.words) >= 1


@st.composite
def wide(draw):
    return draw(gen.wide(draw(gen.emb_case(layouts=gen.LAYOUTS, pqfills=("normal", "bits")))))


@st.composite
def read_wide(draw):
    return draw(gen.wide(draw(read_strategy())))


@st.composite
def large(draw):
    return draw(gen.large(draw(gen.emb_case(layouts=gen.LAYOUTS, pqfills=("normal", "bits"))), far=True))


@st.composite
def read_large(draw):
    return draw(gen.large(draw(read_strategy()), far=False))


@st.composite
def write_far(draw):
    return draw(gen.far(draw(gen.emb_case(layouts=gen.LAYOUTS, pqfills=("normal", "bits")))))


@st.composite
def read_far(draw):
    return draw(gen.far(draw(read_strategy())))


SUBS = [
    Sub("write", lambda: gen.emb_case(layouts=gen.LAYOUTS, hardmeta=True, huge=True,
                                      pqfills=("normal", "ints", "bits", "edge")),
        write_check, "written files are parsed strictly and compared byte for byte with the "
        "reference encoder; non-trivial: at least one word.", 5000),
    Sub("read", read_strategy, read_check, "files of the reference encoder are loaded and "
        "compared with the model; non-trivial: at least one word.", 5000),
    Sub("vocab", lambda: gen.vocab_case(vast=True), vocab_check, "single vocabularies, up to 2^62 "
        "buckets, written and read; non-trivial: at least one word.", 1600),
    Sub("write-wide", wide, write_check, "as write, with hundreds to 70000 columns.", 80),
    Sub("read-wide", read_wide, read_check, "as read, with hundreds to 70000 columns.", 80),
    Sub("write-far", write_far, write_check, "as write, with more than 65000 words or n-grams.", 16),
    Sub("read-far", read_far, read_check, "as read, with more than 65000 words or n-grams.", 16),
    Sub("write-large", large, write_check, "as write, with hundreds to 70000 words.", 96),
    Sub("read-large", read_large, read_check, "as read, with hundreds to 5000 words.", 96),
]
