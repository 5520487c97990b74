"""C11: embedding lookup returns the right vector by every route."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, many, model as M, oracle as O
from ..core import Sub, require, rejects, sut

LEVEL = "exploration"
ASSUMPTIONS = ["Matrix entries are finite and of moderate size; sums are compared within "
               "float32 rounding, and directions of sums that cancel almost completely are "
               "not compared."]


@st.composite
def strategy(draw):
    case = draw(gen.emb_case(fills=gen.TAME, layouts=("C", "F", "rows2", "rev", "ro")))
    ws = gen.words_of(case["vocab"]["words"])
    case["queries"] = draw(st.lists(gen.query(ws, "any", case["vocab"]), min_size=1, max_size=6))
    case["dseed"] = draw(st.integers(0, 99))
    case["mmap"] = draw(st.sampled_from([None, False, True]))
    case["buf"] = draw(st.sampled_from(["fresh", "row", "strided", "double"]))
    return case


@st.composite
def large(draw):
    case = draw(gen.large(draw(strategy()), budget=600000))
    words = gen.words_of(case["vocab"]["words"])
    for i in draw(st.lists(st.integers(0, 99999), min_size=2, max_size=6)):
        w = words[i % len(words)]
        case["queries"].append(w + draw(st.sampled_from(["", "", "a", w, "\u00e4b"])))
    return case


@st.composite
def wide(draw):
    return draw(gen.wide(draw(strategy())))


def exact(em, got, idx, what):
    if em.storage.kind == "nd":
        O.same_bits(got, em.storage.array[idx], what)


def buffer(case, dims):
    if case["buf"] == "row":
        return np.full((3, dims), 8, dtype=np.float32)[1]
    if case["buf"] == "strided":
        return np.full((dims, 2), 8, dtype=np.float32)[:, 0]
    return np.full(dims, 8, dtype=np.float64 if case["buf"] == "double" else np.float32)


def check(case, ctx):
    import finalfusion
    em, e = gen.build(case)
    dims = em.storage.shape[1]
    if case["mmap"] is not None:
        with sut("write and load"):
            e.write(ctx.path("e.fifu"))
            e = finalfusion.load_finalfusion(ctx.path("e.fifu"), mmap=case["mmap"]
                                             and em.storage.shape[0] > 0)
    default = gen.fill(case["dseed"], (dims,), "ints" if case["dseed"] % 3 else "normal")
    dnorm = (2.5, 0.0, -1.0, 1e-30)[case["dseed"] % 4]
    sums = 0
    for w in case["queries"]:
        q = repr(w[:30])
        ref = em.lookup(w)
        if ref is None:
            rejects(f"[{q}] without embedding", lambda: e[w], KeyError)
            with sut(f"lookup of {q}"):
                require(e.embedding(w) is None, lambda: f"embedding({q}) is not None")
                got = e.embedding(w, default=default)
                O.same_bits(got, default, f"embedding({q}, default)")
                out = buffer(case, dims)
                require(e.embedding(w, out=out) is None, "not None with a buffer")
                require((out == 8).all(), "buffer touched without embedding and default")
                got = e.embedding(w, out=out, default=default)
                require(got is out, "buffer is not returned")
                O.same_bits(np.float32(out), default, "buffer with default")
            if em.norms is None:
                rejects("embedding_with_norm without norms",
                        lambda: e.embedding_with_norm(w), TypeError)
            else:
                with sut(f"embedding_with_norm({q})"):
                    require(e.embedding_with_norm(w) is None, "embedding_with_norm not None")
                    got = e.embedding_with_norm(w, default=(default, dnorm))
                    O.same_bits(got[0], default, "embedding_with_norm default")
                    require(got[1] == dnorm, "default norm")
                    out = buffer(case, dims)
                    require(e.embedding_with_norm(w, out=out) is None, "not None")
                    require((out == 8).all(), "buffer touched")
                    got = e.embedding_with_norm(w, out=out, default=(default, dnorm))
                    require(got[0] is out and got[1] == dnorm, "buffer or norm not returned")
                    O.same_bits(np.float32(out), default, "buffer with default")
            continue
        idx = em.vocab.idx(w)
        known = isinstance(idx, int)
        sums += not known
        results = []
        with sut(f"lookup of {q}"):
            results.append(("[]", e[w]))
            results.append(("embedding", e.embedding(w)))
            results.append(("embedding with default", e.embedding(w, default=default)))
            out = buffer(case, dims)
            got = e.embedding(w, out=out)
            require(got is out, "buffer is not returned")
            results.append(("embedding into a buffer", got))
            out = buffer(case, dims)
            got = e.embedding(w, out, default)
            require(got is out, "buffer is not returned")
            results.append(("embedding into a buffer with default", got))
        if em.norms is None:
            rejects("embedding_with_norm without norms", lambda: e.embedding_with_norm(w),
                    TypeError)
        else:
            with sut(f"embedding_with_norm({q})"):
                vec, norm = e.embedding_with_norm(w)
                O.check_norm(norm, ref, f"norm of {q}")
                results.append(("embedding_with_norm", vec))
                vec, norm = e.embedding_with_norm(w, default=(default, dnorm))
                O.check_norm(norm, ref, f"norm of {q}")
                results.append(("embedding_with_norm with default", vec))
                out = buffer(case, dims)
                vec, norm = e.embedding_with_norm(w, out=out)
                require(vec is out, "buffer is not returned")
                O.check_norm(norm, ref, f"norm of {q}")
                results.append(("embedding_with_norm into a buffer", vec))
        for how, vec in results:
            if case["buf"] == "double" and "buffer" in how:
                vec = np.float32(vec)
            require(np.asarray(vec).dtype == np.float32, f"{how}: not float32")
            O.check_vector(vec, ref, f"{how}: {q}")
            if known:
                exact(em, vec, idx, f"{how}: {q}")
        for how, vec in results[1:]:
            require(np.allclose(vec, results[0][1], rtol=1e-4, atol=1e-6 * (
                1 + float(np.max(np.abs(results[0][1]), initial=0)))),
                lambda: f"{how} disagrees with subscripting for {q}: {vec} {results[0][1]}")
        with sut("in"):
            require((w in e) == known, "membership differs")
    with sut("iteration"):
        rows = list(e)
    require(len(rows) == len(em.vocab.words),
            lambda: f"iteration yields {len(rows)} items for {len(em.vocab.words)} words")
    for i, row in enumerate(rows):
        require(len(row) == (2 if em.norms is None else 3), "iteration item length")
        require(row[0] == em.vocab.words[i], "iteration order")
        O.check_vector(row[1], em.lookup(row[0]), f"iterated {row[0][:30]!r}")
        exact(em, row[1], i, f"iterated {row[0][:30]!r}")
        if em.norms is not None:
            require(np.float32(row[2]) == em.norms[i], "iterated norm")
    ctx.label(f"{em.vocab.kind}/{em.storage.kind}")
    ctx.label("sums", sums)
    return sums > 0 or len(em.vocab.words) >= 2


@st.composite
def many_strategy(draw):
    case = draw(many.embeddings())
    case["many"] = draw(many.spec())
    case["main"] = draw(st.integers(0, 4))  # the route of most lookups
    return case


def many_check(case, ctx):
    """One embeddings object answers a long sequence of lookups by changing routes."""
    em, e = gen.build(case)
    dims, norms = em.storage.shape[1], em.norms is not None
    qs = many.queries(case["many"], em.vocab.words)
    want = many.Memo(em.lookup)
    out = np.zeros(dims, dtype=np.float32)
    for i, w in enumerate(qs):
        ref, norm, what = want[w], None, f"lookup {i}, {w!r}"
        how = i % 5 if i % 4 == 0 else case["main"]
        with sut(what):
            if how == 0:
                got = e.embedding(w)
            elif how == 1:
                got = e.embedding(w, out=out)
            elif how == 2 and norms:
                got = e.embedding_with_norm(w)
                got, norm = (None, None) if got is None else got
            elif how == 3 and norms:
                got = e.embedding_with_norm(w, out=out)
                got, norm = (None, None) if got is None else got
            else:
                try:
                    got = e[w]
                except KeyError:
                    got = None
            require((got is None) == (ref is None), lambda: f"{what}: {got}, expected {ref}")
            if ref is not None:
                O.check_vector(got, ref, what)
                if norm is not None:
                    O.check_norm(norm, ref, what)
                if ref[3] == "sum":
                    got[:] = 3              # the caller's vector
    O.emb_equals(e, em, "embeddings afterwards")
    return len(qs) >= 20


SUBS = [Sub("many", many_strategy, many_check,
            "up to 10100 lookups on one object; non-trivial: at least 20.", 160),
        Sub("lookup", strategy, check,
            "non-trivial: an unknown word with n-gram indices, or two words.", 6000),
        Sub("large", large, check, "as lookup, with hundreds to 70000 words.", 80),
        Sub("wide", wide, check, "as lookup, with hundreds to 70000 columns.", 80)]
