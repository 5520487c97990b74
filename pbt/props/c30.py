"""C30: copies and pickles equal the original and live on their own."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from .. import gen, model as M, oracle as O
from ..core import Sub, outcome, require, sut

LEVEL = "exploration"
ASSUMPTIONS = ["Pickle protocols 2 to 5.",
               "A shallow copy may share its parts with the original; independence is required "
               "of deep copies and pickles only."]

HOWS = ["copy", "deepcopy", "pickle"]


@st.composite
def strategy(draw):
    case = draw(gen.emb_case(layouts=("C", "C", "F", "rows2", "rev", "ro"), hi=6,
                             fills=gen.FILLS))
    words = gen.words_of(case["vocab"]["words"])[:8]
    case["how"] = draw(st.lists(st.sampled_from(HOWS), min_size=1, max_size=2))
    case["proto"] = draw(st.integers(2, 5))
    case["from"] = draw(st.sampled_from(["built", "built", "loaded", "mapped", "slice"]))
    case["queries"] = draw(st.lists(gen.query(words), max_size=6))
    case["warm"] = draw(st.lists(st.integers(0, 7), max_size=3))
    return case


def duplicate(x, how, proto):
    if how == "copy":
        return copy.copy(x)
    if how == "deepcopy":
        return copy.deepcopy(x)
    return pickle.loads(pickle.dumps(x, protocol=proto))


def through(x, case, what):
    for how in case["how"]:
        with sut(f"{how} of {what}"):
            y = duplicate(x, how, case["proto"])
        require(type(y) is type(x), lambda: f"{how} of {what}: {type(y)}")
        x = y
    return x


def answers(e, queries):
    """What can be asked of embeddings, in comparable form."""
    out = []
    with sut("querying"), np.errstate(all="ignore"):
        for q in queries:
            v = e.embedding(q)
            out.append((q, q in e.vocab, e.vocab.idx(q),
                        None if v is None else np.array(v).tobytes()))
    return out


def warm_up(e, em, ops):
    """Earlier use must not hinder copying."""
    w = (em.vocab.words + ["zz"])[0]
    fns = [lambda: e.word_similarity(w, 2), lambda: e.analogy(w, w, w), lambda: list(e),
           lambda: e.bucket_to_explicit(), lambda: e.embedding("ab"), lambda: repr(e),
           lambda: np.asarray(e.storage), lambda: (e.vocab.idx("abc"), w in e.vocab)]
    with np.errstate(all="ignore"):
        for i in ops:
            outcome(fns[i])


def written(e, ctx):
    p = ctx.path("w")
    with sut("writing"):
        e.write(p)
    with open(p, "rb") as f:
        return f.read()


def check(case, ctx):
    import finalfusion
    from finalfusion import Embeddings
    em, e = gen.build(case)
    with sut("preparing"):
        if case["from"] in ("loaded", "mapped"):
            e.write(ctx.path("src.fifu"))
            if case["from"] == "mapped" and 0 not in em.storage.shape:
                e = finalfusion.load_finalfusion(ctx.path("src.fifu"), mmap=True)
            else:
                e = finalfusion.load_finalfusion(ctx.path("src.fifu"))
        elif case["from"] == "slice":
            e = Embeddings(e.storage[:], e.vocab, e.norms, e.metadata)
    first = answers(e, case["queries"] + em.vocab.words[:3])
    warm_up(e, em, case["warm"])
    raw = written(e, ctx)
    c = through(e, case, "embeddings")
    O.emb_equals(c, em, "copy")
    require(c.origin == e.origin, lambda: f"origin {c.origin!r}, was {e.origin!r}")
    require(answers(c, case["queries"] + em.vocab.words[:3]) == first, "answers of the copy differ")
    require(written(c, ctx) == raw, "the copy is written with other bytes")
    with sut("comparing vocabularies"):
        v = through(e.vocab, case, "the vocabulary")
        require(v == e.vocab and not v != e.vocab, "a copied vocabulary is not equal")
        O.vocab_equals(v, em.vocab, "copied vocabulary")
        if em.vocab.kind != "simple":
            ix = through(e.vocab.subword_indexer, case, "the indexer")
            require(ix == e.vocab.subword_indexer, "a copied indexer is not equal")
            for q in case["queries"] + em.vocab.words[:2]:
                got = ix.subword_indices(q, with_ngrams=True)
                want = em.vocab.sub(q)
                require([tuple(t) for t in got] == want,
                        lambda: f"copied indexer: {str(got)[:99]} for {q!r}, "
                                f"expected {str(want)[:99]}")
    s = through(e.storage, case, "the storage")
    O.storage_equals(s, em.storage, "copied storage")
    if em.norms is not None:
        O.norms_equal(through(e.norms, case, "the norms"), em.norms, "copied norms")
    if em.meta is not None:
        O.meta_equal(through(e.metadata, case, "the metadata"), em.meta, "copied metadata")
    if case["how"] != ["copy"] * len(case["how"]):
        with sut("changing the copies"):
            if em.storage.kind == "nd":
                for a in (np.asarray(s), np.asarray(c.storage)):
                    if a.flags.writeable:
                        a[:] = 7
            if c.norms is not None and np.asarray(c.norms).flags.writeable:
                np.asarray(c.norms)[:] = 7
            if c.metadata is not None:
                c.metadata["x"] = 1
            c.norms = None
            c.metadata = None
            v.words.append("\0not a word")
            c.vocab.word_index.clear()
        O.emb_equals(e, em, "original after changing the copy")
        ctx.label("independent")
    ctx.label(f"{em.vocab.kind}/{em.storage.kind}")
    ctx.label(case["from"])
    ctx.label("+".join(case["how"]))
    return len(em.vocab.words) > 0


SUBS = [
    Sub("copies", strategy, check, "embeddings and each of their chunks are copied, deep-copied "
        "or pickled, once or twice, and compared with the model; non-trivial: at least one "
        "word.", 2400),
]
