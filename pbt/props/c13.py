"""C13: similarity queries return the true k nearest words."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, many, oracle as O
from ..core import Sub, require, sut

LEVEL = "exploration"
ASSUMPTIONS = ["Finite vectors of moderate size; similarities are compared with a float64 "
               "reference within single-precision rounding, so words whose similarities "
               "differ by less may appear in either order."]


@st.composite
def simil(draw, large=False):
    """Embeddings for ranking: small dimensions, ties, zero rows, various sizes."""
    case = draw(gen.emb_case(fills=gen.TAME, lo=0, hi=9, hardmeta=False, meta=False,
                             layouts=("C", "C", "F", "rows2", "rev", "cols2")))
    if large or gen.rarely(draw, 25):
        far = large and gen.rarely(draw, 10)
        case["vocab"]["words"]["bulk"] = draw(
            st.one_of(st.sampled_from(gen.FAR), st.integers(65530, 70000)) if far else
            st.integers(257, 3000) if large else st.integers(1, 80))
        case["vocab"]["words"]["bseed"] = draw(st.integers(0, 999))
    case["load"] = draw(st.sampled_from([None, None, "read", "mmap"]))
    return case


def obtain(case, ctx):
    import finalfusion
    em, e = gen.build(case)
    if case["load"]:
        with sut("write and load"):
            e.write(ctx.path("s.fifu"))
            e = finalfusion.load_finalfusion(
                ctx.path("s.fifu"), mmap=case["load"] == "mmap" and em.storage.shape[0] > 0)
    return em, e


@st.composite
def k_of(draw, large=False):
    """["abs", k] or ["rel", delta to the number of words] or None (default)"""
    how = draw(st.integers(0, 9))
    if how == 0:
        return None
    if how <= 4:
        return ["rel", draw(st.integers(-3, 5))]
    if how == 9:
        return ["abs", draw(st.sampled_from([50, 1000, 10 ** 6]))]
    return ["abs", draw(st.integers(0, 12) if not large or how == 8 else
                        st.integers(5, 400))]


def k_val(k, n, default):
    if k is None:
        return default
    return max(0, n + k[1]) if k[0] == "rel" else k[1]


def kw(k, n):
    return {} if k is None else {"k": k_val(k, n, 0)}


@st.composite
def word_strategy(draw, large=False):
    case = draw(simil(large))
    words = gen.words_of(case["vocab"]["words"])
    case["queries"] = draw(st.lists(st.tuples(gen.query(words, "any", case["vocab"]), k_of(large)).map(list),
                                    min_size=1, max_size=5))
    return case


def word_check(case, ctx):
    em, e = obtain(case, ctx)
    n = len(em.vocab.words)
    nontrivial = 0
    for q, k in case["queries"]:
        what = f"word_similarity({q[:30]!r}, {k})"
        with sut(what):
            res = e.word_similarity(q, **kw(k, n))
        ref = O.query_vec(em, q)
        if ref is None:
            require(res is None, lambda: f"{what}: {res}, expected None")
            ctx.label("no embedding")
            continue
        with sut(what):
            O.check_neighbours(res, em, *ref, k_val(k, n, 10), {q}, what)
        nontrivial += n >= 2 and len(res) >= 1
        ctx.label("oov query" if q not in em.vocab.pos else "known query")
        if n and k_val(k, n, 10) >= n:
            ctx.label("k >= words")
    ctx.label(f"{em.vocab.kind}/{em.storage.kind}")
    return nontrivial > 0


@st.composite
def vec_strategy(draw, large=False):
    case = draw(simil(large))
    words = gen.words_of(case["vocab"]["words"])
    qs = []
    for _ in range(draw(st.integers(1, 4))):
        src = draw(st.sampled_from(["random", "random", "zero", "row", "neg", "strided"]))
        skip = draw(st.one_of(
            st.none(), st.just([]),
            st.lists(gen.query(words), max_size=30 if large else 5),
            st.just("all"), st.just("most")))
        qs.append(dict(src=src, seed=draw(st.integers(0, 999)), k=draw(k_of(large)),
                       skip=skip))
    case["queries"] = qs
    return case


def vec_check(case, ctx):
    em, e = obtain(case, ctx)
    n, dims = len(em.vocab.words), em.storage.shape[1]
    nontrivial = 0
    for q in case["queries"]:
        vec = gen.fill(q["seed"], (dims,), "normal")
        if q["src"] == "zero":
            vec = np.zeros(dims, dtype=np.float32)
        elif q["src"] in ("row", "neg") and n:
            with sut("row lookup"):
                vec = e[em.vocab.words[q["seed"] % n]]
            if q["src"] == "neg":
                vec = -vec
        elif q["src"] == "strided":
            buf = np.full((dims, 3), 5, dtype=np.float32)
            buf[:, 1] = vec
            vec = buf[:, 1]
        skip = q["skip"]
        if skip == "all":
            skip = list(em.vocab.words)
        elif skip == "most":
            skip = em.vocab.words[1:]
        what = f"embedding_similarity({q['src']}, {q['k']}, skip={str(skip)[:40]})"
        ref = np.array(vec, dtype=np.float64)
        args = kw(q["k"], n)
        if skip is not None:
            args["skip"] = set(skip)
        with sut(what):
            res = e.embedding_similarity(vec, **args)
            O.check_neighbours(res, em, ref, np.zeros(dims), k_val(q["k"], n, 10),
                               set(skip or []), what)
        require(np.array_equal(ref, np.array(vec, dtype=np.float64)),
                lambda: f"{what}: query vector changed")
        if any(w in em.vocab.pos for w in skip or []):
            ctx.label("skips known words")
        if any(w not in em.vocab.pos for w in skip or []):
            ctx.label("skips unknown words")
        nontrivial += n >= 2 and len(res) >= 1
    ctx.label(f"{em.vocab.kind}/{em.storage.kind}")
    return nontrivial > 0


RULE = "non-trivial: at least two words in the vocabulary and a non-empty answer."
@st.composite
def many_strategy(draw):
    case = draw(many.embeddings())
    case["load"] = draw(st.sampled_from([None, None, "read", "mmap"]))
    case["many"] = draw(many.spec(4200))
    return case


def many_check(case, ctx):
    """One embeddings object answers a long sequence of similarity queries."""
    em, e = obtain(case, ctx)
    n = len(em.vocab.words)
    qs = many.queries(case["many"], em.vocab.words)
    want = many.Memo(lambda w: O.query_vec(em, w))
    rng = np.random.RandomState(case["many"]["seed"])
    for i, w in enumerate(qs):
        k, what, skip = i % (n + 2), f"query {i}, {w!r}", set()
        if i % 4:
            with sut(what):
                res = e.word_similarity(w, k)
            ref, skip = want[w], {w}
        else:
            q = np.float32(rng.randn(em.storage.shape[1]))
            skip = {w, em.vocab.words[i % n]} if i % 8 else set()
            with sut(what):
                res = e.embedding_similarity(q, k, skip)
            ref = q.astype(np.float64), np.zeros(q.shape)
        with sut(what):
            if ref is None:
                require(res is None, lambda: f"{what}: {res}, expected None")
            else:
                O.check_neighbours(res, em, *ref, k, skip, what)
                res.clear()                 # the caller's list
    return len(qs) >= 20 and n >= 2


SUBS = [Sub("many", many_strategy, many_check, "up to 4200 queries of one object; non-trivial: at "
            "least 20, and two words.", 160),
        Sub("word", word_strategy, word_check, RULE, 8000),
        Sub("vector", vec_strategy, vec_check, RULE, 8000),
        Sub("large-word", lambda: word_strategy(True), word_check, RULE, 250),
        Sub("large-vector", lambda: vec_strategy(True), vec_check, RULE, 350)]
