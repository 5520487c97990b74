"""C08: finalfusion bucket indices follow the finalfusion hash definition."""
from hypothesis import strategies as st

from .. import gen, many, model as M
from ..core import Sub, require, rejects, sut

LEVEL = "exploration"
ASSUMPTIONS = ["Index sums stay below 2**64; words hold no surrogates."]


@st.composite
def params(draw):
    w = draw(gen.word("any", 25))
    if gen.rarely(draw, 6):
        w = draw(st.sampled_from(gen.LONG))[:200]
    lo, hi = draw(gen.ngram_range(wide=len(w) < 40))
    return dict(word=w, lo=lo, hi=hi, bracket=draw(st.booleans()),
                offset=draw(st.one_of(st.integers(0, 50), st.sampled_from(
                    [(1 << 31) - 1, 1 << 32, (1 << 32) + 5, 1 << 53, 1 << 62]))))


@st.composite
def strategy(draw):
    case = draw(params())
    case["exp"] = draw(st.one_of(st.integers(1, 63), st.sampled_from([21, 1, 2, 31, 32, 33, 63])))
    return case


def judge(ix, case, bucket, count, what):
    """Indexer results against a reference bucket function."""
    w, b, off = case["word"], case["bracket"], case["offset"]
    grams = M.ngrams(w, case["lo"], case["hi"], b)
    want = [(g, bucket(g) + off) for g in grams]
    with sut(what):
        got = ix.subword_indices(w, offset=off, bracket=b)
        require(list(got) == [i for _, i in want],
                lambda: f"{what}.subword_indices({w[:80]!r}, {off}, {b}) = {got[:10]}, expected "
                        f"{[i for _, i in want][:10]}")
        got = ix.subword_indices(w, offset=off, bracket=b, with_ngrams=True)
        require([tuple(t) for t in got] == want,
                lambda: f"{what}.subword_indices({w[:80]!r}, with_ngrams) = {got[:10]}, expected "
                        f"{want[:10]}")
        require(all(off <= i < off + count for _, i in got), "index out of range")
        if b:
            require(ix.subword_indices(w, off) == [i for _, i in want],
                    "bracketing is not the default")
        require(ix.subword_indices(w, bracket=b) == [i - off for _, i in want],
                "offset does not default to 0")
        for g, i in want[:80]:
            require(ix(g) == i - off, lambda: f"{what}({g!r}) = {ix(g)}, expected {i - off}")
        require(ix(w) == bucket(w), lambda: f"{what}({w!r}) = {ix(w)}, expected {bucket(w)}")
        require(ix.upper_bound == count, lambda: f"{what}.upper_bound {ix.upper_bound}")
        require((ix.min_n, ix.max_n) == (case["lo"], case["hi"]), "n-gram range differs")
    rejects("indexing None", lambda: ix.subword_indices(None), TypeError)
    return len(want)


def check(case, ctx):
    from finalfusion.subword import FinalfusionHashIndexer
    if "long" in case:
        case = dict(case, word=gen.long_of(case["long"]))
    with sut("constructor"):
        ix = FinalfusionHashIndexer(case["exp"], case["lo"], case["hi"])
        ix2 = FinalfusionHashIndexer(bucket_exp=case["exp"], min_n=case["lo"], max_n=case["hi"])
    mask = (1 << case["exp"]) - 1
    n = judge(ix, case, lambda g: M.ff_hash(g) & mask, 1 << case["exp"], "indexer")
    with sut("properties"):
        require(ix.buckets_exp == case["exp"], "buckets_exp differs")
        require(ix == ix2, "equal indexers differ")
        require(ix != FinalfusionHashIndexer(case["exp"] % 63 + 1, case["lo"], case["hi"]),
                "different bucket exponents compare equal")
    ctx.label("no n-grams" if not n else "n-grams")
    ctx.label("multi-byte" if len(case["word"].encode()) > len(case["word"]) else "ascii")
    return n >= 1


@st.composite
def long_params(draw):
    spec = draw(gen.long_word())
    lo, hi = draw(gen.long_range(spec["n"] + 2))
    return dict(long=spec, lo=lo, hi=hi, bracket=draw(st.booleans()),
                offset=draw(st.sampled_from([0, 7, 1 << 32])))


@st.composite
def long_strategy(draw):
    case = draw(long_params())
    case["exp"] = draw(st.sampled_from([1, 8, 21, 32, 63]))
    return case


@st.composite
def bad_strategy(draw):
    return draw(st.sampled_from([
        dict(e=0, lo=3, hi=6), dict(e=64, lo=3, hi=6), dict(e=200, lo=1, hi=1),
        dict(e=-1, lo=3, hi=6), dict(e=5, lo=0, hi=6), dict(e=5, lo=0, hi=0),
        dict(e=5, lo=4, hi=3), dict(e=5, lo=2, hi=1), dict(e=63, lo=7, hi=6),
        dict(e=21, lo=3, hi=0)]))


def bad_check(case, ctx):
    from finalfusion.subword import FinalfusionHashIndexer
    rejects(f"indexer with {case}",
            lambda: FinalfusionHashIndexer(case["e"], case["lo"], case["hi"]))
    return True


def many_check(case, ctx):
    from finalfusion.subword import FinalfusionHashIndexer
    return many.check_indexers(case, lambda m: FinalfusionHashIndexer(m.buckets, m.lo, m.hi))


SUBS = [
    Sub("many", lambda: many.indexers("ff"), many_check, "up to 10100 queries of two indexers "
        "in turns; non-trivial: at least 20.", 160),
    Sub("hash", strategy, check, "non-trivial: the word has n-grams.", 8000),
    Sub("long", long_strategy, check, "words of hundreds to 70000 characters with short, long "
        "or nearly full-length n-grams; non-trivial: the word has n-grams.", 160),
    Sub("bounds", bad_strategy, bad_check, "invalid settings; all non-trivial.", 40, 40),
]
