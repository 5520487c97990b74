"""C10: explicit n-gram lookup maps exactly the listed n-grams."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, many, model as M
from ..core import Sub, require, rejects, sut

LEVEL = "exploration"
ASSUMPTIONS = ["Words and n-grams hold no surrogates."]


@st.composite
def strategy(draw, large=False, far=False):
    v = draw(gen.vocab_case(kinds=("explicit",), hi=5, bulk=False))
    if large:
        draw(gen.large(dict(vocab=v, storage=dict(kind="nd", cols=1)), False))
        v["words"]["bulk"] = min(v["words"]["bulk"], 3000)
    if far:
        draw(gen.far(dict(vocab=v, storage=dict(kind="nd"))))
    ws = gen.words_of(v["words"])
    grams = v["ngrams"] if not (large or far) else gen.vocab_model(v).ngrams[-50:]
    return dict(v=v, queries=draw(st.lists(gen.query(ws + grams), min_size=1, max_size=6)),
                bracket=draw(st.booleans()),
                offset=draw(st.sampled_from([0, 1, 7, 1000, 1 << 32, 1 << 53])))


def check(case, ctx):
    from finalfusion.subword import ExplicitIndexer
    v = case["v"]
    vm = gen.vocab_model(v)
    with sut("constructor"):
        if v["index"] is None:
            ix = ExplicitIndexer(list(vm.ngrams), vm.lo, vm.hi)
        else:
            ix = ExplicitIndexer(list(vm.ngrams), vm.lo, vm.hi, dict(vm.table))
    with sut("properties"):
        require(list(ix.ngrams) == vm.ngrams, "ngrams differ")
        require(dict(ix.ngram_index) == vm.table, "ngram_index differs")
        require(ix.upper_bound == len(set(vm.index)),
                lambda: f"upper bound {ix.upper_bound}, expected {len(set(vm.index))}")
        require(len(ix) == len(vm.ngrams), "len differs")
        require(list(ix) == vm.ngrams, "iteration differs")
        require((ix.min_n, ix.max_n) == (vm.lo, vm.hi), "n-gram range differs")
        same = ExplicitIndexer(list(vm.ngrams), vm.lo, vm.hi, dict(vm.table))
        require(ix == same and same == ix, "equal indexers differ")
    for g in vm.ngrams:
        with sut("lookup of a listed n-gram"):
            require(ix(g) == vm.table[g] and ix[g] == vm.table[g] and g in ix,
                    lambda: f"{g!r}: {ix(g)}, expected {vm.table[g]}")
    off, b, hits = case["offset"], case["bracket"], 0
    for w in case["queries"]:
        want = vm.sub(w, off, b)
        hits += bool(want)
        with sut(f"subword_indices({w!r})"):
            got = ix.subword_indices(w, off, b)
            require(list(got) == [i for _, i in want],
                    lambda: f"subword_indices({w!r}, {off}, {b}) = {got}, expected {want}")
            got = ix.subword_indices(w, offset=off, bracket=b, with_ngrams=True)
            require([tuple(t) for t in got] == want,
                    lambda: f"subword_indices({w!r}, with_ngrams) = {got}, expected {want}")
            if b:
                require(ix.subword_indices(w) == [i - off for _, i in want],
                        "defaults are not offset 0 with brackets")
            require((w in ix) == (w in vm.table), lambda: f"{w!r} in indexer: {w in ix}")
            require(ix(w) == vm.table.get(w), lambda: f"indexer({w!r}) = {ix(w)}")
        if w not in vm.table:
            rejects(f"[{w!r}]", lambda: ix[w], KeyError)
    for i in range(1, len(case["queries"]) + 1):
        some = (case["queries"][:i] + vm.ngrams[:2])[::-1]
        want = all(w in vm.table for w in some)
        with sut("membership of several n-grams"):
            require((some in ix) == want and (tuple(some) in ix) == want
                    and ([some, vm.ngrams[:1]] in ix) == want,
                    lambda: f"{some!r} in indexer: {some in ix}, expected {want}")
    with sut("membership of listed n-grams"):
        require(vm.ngrams in ix and [vm.ngrams[-2:], vm.ngrams[:2]] in ix,
                "the listed n-grams are not in the indexer")
    rejects("indexing None", lambda: ix.subword_indices(None), TypeError)
    ctx.label("default index" if v["index"] is None else "given index")
    ctx.label("shared indices" if len(set(vm.index)) < len(vm.index) else "own indices")
    ctx.label("queries with hits", hits)
    return hits > 0


@st.composite
def long_strategy(draw):
    spec = draw(gen.long_word())
    lo, hi = draw(gen.long_range(spec["n"] + 2, False))
    return dict(long=spec, lo=lo, hi=hi, bracket=draw(st.booleans()),
                seed=draw(st.integers(0, 999)), share=draw(st.booleans()),
                offset=draw(st.sampled_from([0, 7, 1 << 32])))


def long_check(case, ctx):
    """Part of the n-grams of one long word, listed in random order."""
    from finalfusion.subword import ExplicitIndexer
    w, lo, hi, off, b = (gen.long_of(case["long"]), case["lo"], case["hi"], case["offset"],
                         case["bracket"])
    rng = np.random.RandomState(case["seed"])
    all_grams = M.ngrams(w, lo, hi, b)
    pool = list(dict.fromkeys(all_grams))
    grams = [pool[i] for i in rng.permutation(len(pool))[:len(pool) * 2 // 3 + 1].tolist()]
    index = rng.permutation(len(grams)).tolist()
    if case["share"]:
        index = np.unique([i // 3 for i in index], return_inverse=True)[1].tolist()
    table = dict(zip(grams, index))
    want = [(g, table[g] + off) for g in all_grams if g in table]
    with sut("indexing a long word"):
        ix = ExplicitIndexer(list(grams), lo, hi, dict(table))
        got = ix.subword_indices(w, off, b)
        require(list(got) == [i for _, i in want],
                lambda: f"subword_indices of {len(w)} characters: {got[:10]}..., expected "
                        f"{[i for _, i in want][:10]}...")
        got = ix.subword_indices(w, off, b, with_ngrams=True)
        require([tuple(t) for t in got] == want, "n-grams and indices of a long word differ")
        for g in all_grams[:300]:
            require(ix(g) == table.get(g), lambda: f"index of {g[:60]!r}: {ix(g)}")
    return len(want) >= 1


@st.composite
def bad_strategy(draw):
    grams = draw(st.lists(gen.word("any", 5), min_size=1, max_size=8, unique=True))
    n = len(grams)
    how = draw(st.sampled_from(["dup", "dupidx", "missing", "extra", "other", "gap", "gap",
                                "neg", "bounds", "shift", "any"]))
    return dict(any=draw(st.lists(st.integers(-9, 12), min_size=n, max_size=n))
                if how == "any" else None,
                grams=grams, index=draw(gen.surjection(n)), how=how,
                at=draw(st.integers(0, n - 1)), by=draw(st.integers(1, 5)),
                at2=draw(st.integers(0, n)))


def bad_check(case, ctx):
    from finalfusion.subword import ExplicitIndexer
    grams, at, how = list(case["grams"]), case["at"], case["how"]
    table = dict(zip(grams, case["index"]))
    lo, hi = 3, 6
    if how == "dup":
        grams.insert(case["at2"], grams[at])
        table = None
    elif how == "dupidx":
        grams.insert(case["at2"], grams[at])
    elif how == "missing":
        del table[grams[at]]
        if table and set(table.values()) != set(range(len(set(table.values())))):
            pass
    elif how == "extra":
        if "extra!" in table:
            return False
        table["extra!"] = 0
    elif how == "other":
        if "other!" in table:
            return False
        table["other!"] = table.pop(grams[at])
    elif how == "gap":
        # an index beyond the contiguous range
        table[grams[at]] = len(set(table.values())) + case["by"]
        if set(table.values()) == set(range(len(set(table.values())))):
            return False
    elif how == "shift":
        table = {g: i + case["by"] for g, i in table.items()}
    elif how == "any":
        table = dict(zip(grams, case["any"]))
        if set(case["any"]) == set(range(len(set(case["any"])))):
            return False
    elif how == "neg":
        table[grams[at]] = -case["by"]
    else:
        lo, hi = [(0, 3), (4, 3), (0, 0), (5, 1), (2, 1)][case["by"] % 5]
    rejects(f"indexer with {how} ({grams}, {lo}, {hi}, {table})",
            lambda: ExplicitIndexer(grams, lo, hi) if table is None else
            ExplicitIndexer(grams, lo, hi, table))
    if how in ("dupidx", "gap", "shift", "any", "bounds") and min(table.values()) >= 0:
        from finalfusion.vocab import load_vocab
        vm = M.VocabM("explicit", ["w"], lo, hi, None, grams, [table[g] for g in grams])
        with open(ctx.path("x.fifu"), "wb") as f:
            f.write(M.encode_file([(M.EXPLICIT, vm)])[0])
        rejects(f"loading a vocabulary with {how} ({grams}, {lo}, {hi}, {table})",
                lambda: load_vocab(ctx.path("x.fifu")))
        ctx.label("also as a file")
    ctx.label(how)
    return True


def many_check(case, ctx):
    from finalfusion.subword import ExplicitIndexer
    return many.check_indexers(case, lambda m: ExplicitIndexer(list(m.ngrams), m.lo, m.hi, dict(m.table)))


SUBS = [
    Sub("many", lambda: many.indexers("explicit"), many_check, "up to 10100 queries of two indexers "
        "in turns; non-trivial: at least 20.", 160),
    Sub("lookup", strategy, check, "non-trivial: some query has a listed n-gram.", 8000),
    Sub("large", lambda: strategy(True), check, "tables of up to 20000 n-grams; non-trivial: as "
        "above.", 160),
    Sub("far", lambda: strategy(far=True), check, "tables of 65535 to 100000 n-grams; "
        "non-trivial: as above.", 16),
    Sub("long", long_strategy, long_check, "words of hundreds to 70000 characters; non-trivial: "
        "a listed n-gram occurs.", 600),
    Sub("invalid", bad_strategy, bad_check, "invalid n-gram lists and mappings; non-trivial: "
        "the damage applies.", 3000),
]
