"""Long sequences of queries on one object: what bounded caches, counters and growing tables
inside the tested code would answer wrongly only after dozens to thousands of queries."""
import numpy as np
from hypothesis import strategies as st

from . import gen
from .core import require, sut

SIZES = [c + d for c in (128, 256, 512, 1000, 1024, 2048, 4096, 5000) for d in (2, 70)]


@st.composite
def spec(draw, most=11000):
    """{"n", "seed", "letters", "longest"}: a seeded sequence of n query words."""
    n = draw(st.one_of(st.integers(2, 300), st.integers(2, 300), st.integers(2, 2200),
                       st.sampled_from(SIZES), st.sampled_from([8300, 10100])))
    return dict(n=min(n, most), seed=draw(st.integers(0, 9999)),
                letters=draw(st.sampled_from([2, 3, 10, 10, 26, 26])),
                longest=draw(st.sampled_from([4, 7, 7, 12])))


def queries(spec, words):
    """The words: known, recombined, new, asked before, and neighbours of those."""
    rng = np.random.RandomState(spec["seed"])
    letters = "abcdefghij\u00e4\u65e5\U0001f600klmnopqrstuvwxyz"[-spec["letters"]:]
    known = [w[:60] for w in words][:200]
    out = []
    for i in range(spec["n"]):
        how = rng.randint(20)
        w = "".join(letters[j] for j in rng.randint(len(letters), size=rng.randint(
            1, spec["longest"] + 1)))
        if how < 3 and known:
            w = known[rng.randint(len(known))]
        elif how < 5 and known:
            w = known[rng.randint(len(known))] + w[:2]
        elif how < 8 and out:
            w = out[rng.randint(len(out))]
        elif how < 10 and out:
            w = out[rng.randint(len(out))][:-1] + w[:1]
        out.append(w)
    return out


@st.composite
def vocab(draw, kinds=gen.KINDS):
    """A vocabulary whose n-gram ranges keep thousands of queries cheap."""
    return cheap(draw, draw(gen.vocab_case(kinds=kinds, hi=6, big=False, long=False)))


def cheap(draw, v):
    if v["kind"] != "simple":
        v["lo"] = min(v["lo"], 4)
        v["hi"] = min(v["hi"], v["lo"] + 2)
    if v["kind"] == "explicit":
        v["words"].update(bulk=draw(st.sampled_from([0, 20, 100])),
                          bseed=draw(st.integers(0, 999)))
        v["ngrams"] = dict(words=draw(st.integers(1, 100)), seed=draw(st.integers(0, 999)))
        v["index"] = draw(st.sampled_from([None, "share", "permute"]))
    elif v["kind"] == "ff":
        v["buckets"] = draw(st.integers(1, 10))
    elif v["kind"] == "ft":
        v["buckets"] = draw(st.integers(1, 1000))
    return v


@st.composite
def embeddings(draw, kinds=("ff", "ft", "explicit", "ff", "ft", "simple")):
    case = draw(gen.emb_case(kinds=kinds, fills=gen.TAME, lo=1, hi=6, hardmeta=False,
                             meta=False))
    cheap(draw, case["vocab"])
    return case


class Memo(dict):
    """fn(word), computed once per word."""
    def __init__(self, fn):
        self.fn = fn

    def __missing__(self, key):
        self[key] = r = self.fn(key)
        return r


@st.composite
def indexers(draw, kind):
    """Two n-gram indexers of different settings, asked in turns."""
    out = dict(pair=[draw(vocab((kind,))) for _ in range(2)], many=draw(spec()),
               turns=draw(st.integers(1, 3)))
    if kind != "explicit":
        for v in out["pair"]:
            v["buckets"] = draw(st.sampled_from([1, 3, 10, 21, 33, 62] if kind == "ff" else
                                                [1, 7, 1000, 65536, 2000000, (1 << 32) - 1]))
    return out


def check_indexers(case, make):
    """make(model) gives the tested indexer."""
    models = [gen.vocab_model(v) for v in case["pair"]]
    with sut("constructor"):
        ixs = [make(m) for m in models]
    qs = queries(case["many"], models[0].words + models[1].words)
    memo = [Memo(m.sub) for m in models]
    for i, w in enumerate(qs):
        who = i // case["turns"] % 2
        ix, off, want = ixs[who], i % 3, memo[who][w]
        with sut(f"query {i}, {w!r}"):
            if i % 4 == 0:
                got = ix.subword_indices(w, offset=off, with_ngrams=True)
                same = [tuple(t) for t in got] == [(g, b + off) for g, b in want]
            elif i % 4 == 1:
                got = ix.subword_indices(w, bracket=False)
                same = list(got) == [b for _, b in models[who].sub(w, 0, False)]
            elif i % 4 == 2 and want:
                g, b = want[i % len(want)]
                got = [ix(g)]
                same = got == [b]
            else:
                got = ix.subword_indices(w, off)
                same = list(got) == [b + off for _, b in want]
            require(same, lambda: f"query {i} of indexer {who}, {w!r}: {str(got)[:150]}, "
                    f"expected {str(want)[:150]}")
            got.clear()                     # the caller's list
    return len(qs) >= 20
