"""C07: n-gram extraction yields exactly the n-grams in range."""
from hypothesis import strategies as st

from .. import gen, many, model as M
from ..core import Sub, require, rejects, sut

LEVEL = "exploration"
ASSUMPTIONS = ["Bounds are given as non-negative integers below 2**32; words hold no surrogates."]


@st.composite
def strategy(draw):
    w = draw(gen.word("any", 30))
    if gen.rarely(draw, 10):
        w = draw(st.sampled_from(gen.LONG))
    lo = draw(st.one_of(st.integers(1, 8), st.integers(1, max(1, len(w) + 3))))
    hi = draw(st.one_of(st.integers(lo, lo + 5), st.sampled_from([lo, lo + 40, 1 << 31,
                                                                  gen.U32])))
    if len(w) > 100:
        hi = min(hi, lo + 6)
    return dict(word=w, lo=lo, hi=max(hi, lo), bracket=draw(st.booleans()))


@st.composite
def long_strategy(draw):
    spec = draw(gen.long_word())
    lo, hi = draw(gen.long_range(spec["n"] + 2, False))
    return dict(long=spec, lo=lo, hi=hi, bracket=draw(st.booleans()))


def check(case, ctx):
    from finalfusion.subword import ngrams
    if "long" in case:
        case = dict(case, word=gen.long_of(case["long"]))
    w, lo, hi, b = case["word"], case["lo"], case["hi"], case["bracket"]
    want = M.ngrams(w, lo, hi, b)
    with sut("ngrams"):
        got = ngrams(w, lo, hi, b)
    require(isinstance(got, list) and got == want,
            lambda: f"ngrams({w[:80]!r}, {lo}, {hi}, {b}) = {got[:30]}, expected {want[:30]}")
    with sut("ngrams with keywords"):
        require(ngrams(w, min_n=lo, max_n=hi, bracket=b) == want, "keyword call differs")
        if b:
            require(ngrams(w, lo, hi) == want, "bracketing is not the default")
        if (lo, hi) == (3, 6):
            require(ngrams(w, bracket=b) == want, "default range is not 3-6")
    ctx.label("none" if not want else "few" if len(want) < 5 else "many")
    ctx.label("multi-byte" if len(w.encode()) > len(w) else "ascii")
    return len(want) >= 2


@st.composite
def bad_strategy(draw):
    w = draw(gen.word())
    lo, hi = draw(st.one_of(
        st.tuples(st.just(0), st.integers(0, 9)),
        st.tuples(st.integers(1, 9), st.integers(0, 8)).filter(lambda t: t[1] < t[0]),
        st.tuples(st.just(gen.U32), st.integers(0, 9))))
    return dict(word=w, lo=lo, hi=hi, bracket=draw(st.booleans()))


def bad_check(case, ctx):
    from finalfusion.subword import ngrams
    w, lo, hi, b = case["word"], case["lo"], case["hi"], case["bracket"]
    rejects(f"ngrams with bounds {lo}, {hi}", lambda: ngrams(w, lo, hi, b), AssertionError)
    rejects("ngrams of None", lambda: ngrams(None, 1, 2), TypeError)
    return True


@st.composite
def many_strategy(draw):
    lo, hi = draw(gen.ngram_range(wide=False))
    return dict(many=draw(many.spec()), lo=lo, hi=hi, bracket=draw(st.booleans()))


def many_check(case, ctx):
    """A long sequence of calls; returned lists belong to the caller."""
    from finalfusion.subword import ngrams
    qs = many.queries(case["many"], [])
    for i, w in enumerate(qs):
        with sut(f"call {i}, {w!r}"):
            got = ngrams(w, case["lo"], case["hi"], case["bracket"])
            require(list(got) == M.ngrams(w, case["lo"], case["hi"], case["bracket"]),
                    lambda: f"call {i}: ngrams({w!r}) = {got[:20]}")
            got.clear()
    return len(qs) >= 20


SUBS = [
    Sub("many", many_strategy, many_check, "up to 10100 calls in sequence; non-trivial: at least "
        "20.", 160),
    Sub("extract", strategy, check, "non-trivial: at least two n-grams.", 24000),
    Sub("long", long_strategy, check, "words of hundreds to 70000 characters; non-trivial: at "
        "least two n-grams.", 1200),
    Sub("bounds", bad_strategy, bad_check, "zero or reversed bounds; all non-trivial.", 1600),
]
