"""C09: fastText bucket indices follow fastText's hash definition."""
from hypothesis import strategies as st

from .. import gen, many, model as M
from ..core import Sub, require, rejects, sut
from .c08 import params, long_params, judge

LEVEL = "exploration"
ASSUMPTIONS = ["Index sums stay below 2**64; words hold no surrogates."]


@st.composite
def strategy(draw):
    case = draw(params())
    case["buckets"] = draw(st.one_of(
        st.integers(1, 100), st.integers(1, gen.U32),
        st.sampled_from([1, 2, 2000000, 1 << 31, (1 << 31) + 1, gen.U32, 65536])))
    return case


def check(case, ctx):
    from finalfusion.subword import FastTextIndexer
    n = case["buckets"]
    if "long" in case:
        case = dict(case, word=gen.long_of(case["long"]))
    with sut("constructor"):
        ix = FastTextIndexer(n, case["lo"], case["hi"])
        ix2 = FastTextIndexer(n_buckets=n, min_n=case["lo"], max_n=case["hi"])
    k = judge(ix, case, lambda g: M.ft_hash(g) % n, n, "indexer")
    with sut("properties"):
        require(ix.n_buckets == n, "n_buckets differs")
        require(ix == ix2, "equal indexers differ")
        require(ix != FastTextIndexer(n % gen.U32 + 1, case["lo"], case["hi"]) or n == gen.U32,
                "different bucket counts compare equal")
    ctx.label("no n-grams" if not k else "n-grams")
    ctx.label("multi-byte" if len(case["word"].encode()) > len(case["word"]) else "ascii")
    return k >= 1


@st.composite
def long_strategy(draw):
    case = draw(long_params())
    case["buckets"] = draw(st.sampled_from([1, 1000, 2000000, 1 << 31, gen.U32]))
    return case


@st.composite
def bad_strategy(draw):
    return draw(st.sampled_from([
        dict(n=0, lo=3, hi=6), dict(n=1 << 32, lo=3, hi=6), dict(n=-1, lo=3, hi=6),
        dict(n=5, lo=0, hi=6), dict(n=5, lo=0, hi=0), dict(n=5, lo=4, hi=3),
        dict(n=5, lo=2, hi=1), dict(n=1 << 40, lo=1, hi=1)]))


def bad_check(case, ctx):
    from finalfusion.subword import FastTextIndexer
    rejects(f"indexer with {case}",
            lambda: FastTextIndexer(case["n"], case["lo"], case["hi"]))
    return True


def many_check(case, ctx):
    from finalfusion.subword import FastTextIndexer
    return many.check_indexers(case, lambda m: FastTextIndexer(m.buckets, m.lo, m.hi))


SUBS = [
    Sub("many", lambda: many.indexers("ft"), many_check, "up to 10100 queries of two indexers "
        "in turns; non-trivial: at least 20.", 160),
    Sub("hash", strategy, check, "non-trivial: the word has n-grams.", 10000),
    Sub("long", long_strategy, check, "words of hundreds to 70000 characters with short, long "
        "or nearly full-length n-grams; non-trivial: the word has n-grams.", 400),
    Sub("bounds", bad_strategy, bad_check, "invalid settings; all non-trivial.", 40, 40),
]
