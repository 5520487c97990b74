"""C15: converting bucket to explicit embeddings preserves every vector."""
import numpy as np
from hypothesis import strategies as st

from .. import cli, gen, model as M, oracle as O
from ..core import Sub, require, rejects, sut

LEVEL = "exploration"
ASSUMPTIONS = ["Quantized rows are compared within single-precision rounding, array rows bit "
               "for bit."]


@st.composite
def strategy(draw):
    case = draw(gen.emb_case(kinds=("ff", "ft"), hi=9,
                             fills=("normal", "ints", "zrows", "bits")))
    if gen.rarely(draw, 30):            # many buckets: few collisions
        case["vocab"]["buckets"] = draw(st.integers(6, 10)) \
            if case["vocab"]["kind"] == "ff" else draw(st.integers(100, 2000))
    words = gen.words_of(case["vocab"]["words"])
    case["queries"] = draw(st.lists(gen.query(words, "any", case["vocab"]), max_size=5))
    case["load"] = draw(st.sampled_from([None, None, "read", "mmap"]))
    case["reload"] = draw(st.sampled_from(["read", "mmap"]))
    return case


@st.composite
def large(draw):
    case = draw(gen.large(draw(strategy()), far=False, budget=400000))
    v = case["vocab"]
    words = gen.words_of(v["words"])
    case["queries"] = [words[i % len(words)] + draw(st.sampled_from(["", "", "a", "1"]))
                       for i in draw(st.lists(st.integers(0, 99999), min_size=2, max_size=5))]
    return case


@st.composite
def far(draw):
    """So many words that they have tens of thousands of n-grams."""
    case = draw(gen.large(draw(strategy()), far=False, budget=400000))
    v = case["vocab"]
    v["words"]["bulk"] = draw(st.sampled_from([9000, 17000]))
    v["lo"], v["hi"] = draw(st.sampled_from([(3, 5), (2, 5), (4, 6)]))
    s = case["storage"]
    if draw(st.integers(0, 2)):         # more than 65536 rows in use
        v["lo"], v["hi"] = 4, 7
        v["words"]["bulk"] = 17000
        v["buckets"] = draw(st.integers(18, 19)) if v["kind"] == "ff" else \
            draw(st.integers(200000, 400000))
        s["cols"] = draw(st.integers(1, 3))
        if s["kind"] == "pq":
            s["sub"], s["q"] = draw(st.integers(1, 2)), draw(st.integers(1, 2))
    words = gen.words_of(v["words"])
    case["queries"] = [words[i % len(words)] + draw(st.sampled_from(["", "a"]))
                       for i in draw(st.lists(st.integers(0, 99999), min_size=2, max_size=5))]
    return case


def covered(em, w):
    known = getattr(em, "known", None)
    if known is None:
        known = em.known = set()
        for x in em.vocab.words:
            known.update(M.ngrams(x, em.vocab.lo, em.vocab.hi, True))
    return all(g in known for g in M.ngrams(w, em.vocab.lo, em.vocab.hi, True))


def same_lookups(e, e2, em, words, what, ctx):
    """Words all of whose n-grams occur in known words: same vector."""
    tame = all(np.isfinite(x).all() for x in (em.dense(),)) and \
        np.abs(em.dense()).max(initial=0) < 1e9
    for w in words:
        if w not in em.vocab.pos and not covered(em, w):
            ctx.label("query with other n-grams")
            continue
        with sut(f"{what}: lookup of {w[:30]!r}"):
            a, b = e.embedding(w), e2.embedding(w)
        require((a is None) == (b is None), lambda: f"{what}: embedding of {w[:30]!r} "
                "exists only before or after the conversion")
        if a is None or not tame:
            continue
        ctx.label("compared known" if w in em.vocab.pos else "compared unknown")
        ref = em.lookup(w)
        O.check_vector(a, ref, f"{what}: {w[:30]!r} before")
        O.check_vector(b, ref, f"{what}: {w[:30]!r} after")


def recombined(em):
    """Unknown words whose n-grams all occur in known words, e.g. substrings kept by
    periodic words."""
    out = []
    for w in em.vocab.words[:6]:
        if len(w) < 100:
            out += [w + w, w[:len(w) // 2] + w[len(w) // 2:][:-1], w + w[-1:], w[:1] + w]
    return [w for w in out if w not in em.vocab.pos]


def check(case, ctx):
    import finalfusion
    em, e = gen.build(case)
    if case["load"]:
        with sut("write and load"):
            e.write(ctx.path("in.fifu"))
            e = finalfusion.load_finalfusion(ctx.path("in.fifu"), mmap=case["load"] == "mmap")
    with sut("bucket_to_explicit"):
        e2 = e.bucket_to_explicit()
        v2 = e.vocab.to_explicit()
    em2 = O.explicit_of(em, e2, "converted")
    O.explicit_vocab_of(em.vocab, v2, "to_explicit")
    O.emb_equals(e, em, "source after conversion")
    words = case["queries"] + recombined(em) + em.vocab.words[:3]
    same_lookups(e, e2, em, words, "converted", ctx)
    with sut("writing the conversion"):
        e2.write(ctx.path("out.fifu"))
        e3 = finalfusion.load_finalfusion(
            ctx.path("out.fifu"), mmap=case["reload"] == "mmap" and em2.storage.shape[0] > 0)
    em3 = O.explicit_of(em, e3, "converted, written and loaded")
    O.vocab_equals(e3.vocab, em2.vocab, "loaded conversion's vocab")
    O.same_bits(em3.storage.array, em2.storage.array, "loaded conversion's storage")
    same_lookups(e, e3, em, words, "reloaded", ctx)
    for x in (e2, e3):
        rejects("converting explicit embeddings", x.bucket_to_explicit, TypeError)
    ctx.label(f"{em.vocab.kind}/{em.storage.kind}")
    shared = em2.vocab.n_sub() < len(em2.vocab.ngrams)
    ctx.label("shared buckets" if shared else "no shared buckets")
    return len(em2.vocab.ngrams) >= 2


@st.composite
def refuse_strategy(draw):
    return draw(gen.emb_case(kinds=("simple", "explicit"), hi=5, bulk=False))


def refuse_check(case, ctx):
    em, e = gen.build(case)
    rejects(f"converting {em.vocab.kind} embeddings", e.bucket_to_explicit, TypeError)
    O.emb_equals(e, em, "source after refusal")
    return len(em.vocab.words) > 0


@st.composite
def tool_strategy(draw):
    case = draw(gen.emb_case(kinds=("ff", "ft"), style="plain", hi=6, fills=("normal", "zrows"),
                             long=False, meta=False))
    case["mmap"] = draw(st.booleans())
    case["defaults"] = draw(st.booleans())
    return case


def tool_check(case, ctx):
    import finalfusion
    em, e = gen.build(case)
    src, dst = ctx.path("in.fifu"), ctx.path("out.fifu")
    with sut("write"):
        e.write(src)
    args = [src, dst] + ([] if case["defaults"] else ["-f", "finalfusion"]) + \
        (["--mmap"] if case["mmap"] else [])
    with open(src, "rb") as f:
        before = f.read()
    code, out, err = cli.run("explicit", args)
    require(code == 0, lambda: f"ffp-bucket-to-explicit failed: {err[-400:]}")
    with open(src, "rb") as f:
        require(f.read() == before, "ffp-bucket-to-explicit changed its input")
    with sut("loading the tool's output"):
        e2 = finalfusion.load_finalfusion(dst)
    O.explicit_of(em, e2, "ffp-bucket-to-explicit")
    ctx.label(f"{em.vocab.kind}/{em.storage.kind}")
    return len(em.vocab.words) >= 2


@st.composite
def fttool_strategy(draw):
    v = draw(gen.vocab_case(("ft",), "plain", 1, 6, long=False))
    v["hi"] = min(v["hi"], 12)
    v["lo"] = min(v["lo"], v["hi"])
    return dict(vocab=v, seed=draw(st.integers(0, 999)), cols=draw(st.integers(1, 5)))


def fttool_check(case, ctx):
    """fastText input: the tool's output is the conversion of what load_fasttext gives."""
    import finalfusion
    from finalfusion.compat import load_fasttext
    vm = gen.vocab_model(case["vocab"])
    mat = gen.fill(case["seed"], (vm.bound, case["cols"]), "normal")
    cfg = [case["cols"], 5, 5, 5, 5, 1, 2, 2, vm.buckets, vm.lo, vm.hi, 100, 1e-4]
    src, dst = ctx.path("in.bin"), ctx.path("out.fifu")
    with open(src, "wb") as f:
        f.write(M.encode_ft(cfg, vm.words, mat))
    code, out, err = cli.run("explicit", [src, dst, "--from", "fasttext"])
    require(code == 0, lambda: f"ffp-bucket-to-explicit failed: {err[-400:]}")
    with sut("loading"):
        e = load_fasttext(src)
        e2 = finalfusion.load_finalfusion(dst)
        em = M.EmbM(vm, M.NdM(np.array(np.asarray(e.storage))), np.array(e.norms))
    O.explicit_of(em, e2, "ffp-bucket-to-explicit of a fastText model")
    return len(vm.words) >= 2


SUBS = [
    Sub("convert", strategy, check,
        "non-trivial: the known words have at least two distinct n-grams.", 3500),
    Sub("large", large, check, "as convert, with hundreds to 5000 words.", 64),
    Sub("far", far, check, "as convert, with 9000 to 17000 words and up to 200000 n-grams.", 8),
    Sub("refuse", refuse_strategy, refuse_check, "non-trivial: not empty.", 600),
    Sub("tool", tool_strategy, tool_check, "non-trivial: at least two words.", 1000),
    Sub("tool-fasttext", fttool_strategy, fttool_check, "non-trivial: at least two words.", 600),
]
