"""C06: a vocabulary is a bijection between its words and 0..n-1."""
from hypothesis import strategies as st

from .. import gen, many, model as M, oracle as O
from ..core import Sub, require, rejects, sut

LEVEL = "exploration"
ASSUMPTIONS = []


@st.composite
def strategy(draw, large=False):
    case = dict(vocab=draw(gen.vocab_case(hi=12, huge=True, vast=not large)))
    if large:
        draw(gen.large(dict(vocab=case["vocab"], storage=dict(kind="nd", cols=1))))
    ws = gen.words_of(case["vocab"]["words"])
    case["queries"] = draw(st.lists(gen.query(ws, "any", case["vocab"]), min_size=1, max_size=8))
    case["bracket"] = draw(st.booleans())
    case["default"] = draw(st.sampled_from([None, 0, -1, 7, [], [1, 2]]))
    case["reload"] = draw(st.booleans())
    case["noindex"] = draw(st.booleans())
    return case


def check(case, ctx):
    vm = gen.vocab_model(case["vocab"])
    with sut("constructor"):
        dflt = vm.kind == "explicit" and vm.index == list(range(len(vm.ngrams)))
        v = gen.vocab_sut(vm, explicit_index=not (dflt and case["noindex"]))
    if case["reload"]:
        from finalfusion.vocab import load_vocab
        with sut("write and load_vocab"):
            v.write(ctx.path("v.fifu"))
            v = load_vocab(ctx.path("v.fifu"))
    O.vocab_equals(v, vm)
    n = len(vm.words)
    with sut("iteration"):
        require(list(iter(v)) == vm.words and list(v) == vm.words, "iteration differs")
        require([v.words[i] for i in range(n)] == vm.words, "words differ")
    for i, w in enumerate(vm.words):
        with sut("lookup of a known word"):
            require(v.idx(w) == i and type(v.idx(w)) is int,
                    lambda: f"idx of word {i} {w[:40]!r} is {v.idx(w)}")
            require(v[w] == i, lambda: f"[{w[:40]!r}] is {v[w]}, expected {i}")
            require(v.idx(w, default=-5) == i, "default used for a known word")
            require(w in v, lambda: f"{w[:40]!r} not in vocabulary")
            require(v.word_index[w] == i, "word_index differs")
    for w in case["queries"]:
        known = w in vm.pos
        ref = vm.idx(w)
        with sut(f"lookup of {w[:40]!r}"):
            require((w in v) == known, lambda: f"{w[:40]!r} in vocab is {w in v}")
            d = case["default"]
            got = v.idx(w)
            require(got == ref, lambda: f"idx({w[:40]!r}) is {str(got)[:200]}, "
                    f"expected {str(ref)[:200]}")
            gd = v.idx(w, default=d)
            require(gd == (d if ref is None else ref),
                    lambda: f"idx({w[:40]!r}, default={d}) is {str(gd)[:200]}")
            if isinstance(ref, list):
                require(all(n <= i < v.upper_bound for i in got),
                        lambda: f"index outside [{n}, {v.upper_bound}): {got}")
        if ref is None:
            rejects(f"[{w[:40]!r}] of an unknown word", lambda: v[w], KeyError)
        else:
            with sut(f"[{w[:40]!r}]"):
                require(v[w] == ref, lambda: f"[{w[:40]!r}] is {str(v[w])[:200]}")
        if vm.kind != "simple":
            b = case["bracket"]
            with sut("subword methods"):
                require(v.subwords(w, bracket=b) == M.ngrams(w, vm.lo, vm.hi, b),
                        lambda: f"subwords({w[:40]!r}) differ")
                require(v.subwords(w) == M.ngrams(w, vm.lo, vm.hi), "subwords() differ")
                sub = vm.sub(w, n, b)
                require(v.subword_indices(w, bracket=b) == [i for _, i in sub],
                        lambda: f"subword_indices({w[:40]!r}, bracket={b}) differ")
                require([tuple(t) for t in v.subword_indices(w, bracket=b, with_ngrams=True)]
                        == sub, lambda: f"subword_indices({w[:40]!r}) with n-grams differ")
    with sut("membership of lists"):
        some = [w for w in case["queries"]]
        require((some in v) == all(w in vm.pos for w in some), "list membership differs")
        require(vm.words in v, "list of all words not contained")
        require([some] in v if all(w in vm.pos for w in some) else [some] not in v,
                "membership of a nested list differs")
        require(tuple(vm.words) in v and iter(vm.words) in v and set(vm.words) in v and
                dict.fromkeys(vm.words) in v, "tuple, iterator, set or dict of all words "
                "not contained")
        require(42 not in v and [42] not in v and vm.words + [None] not in v,
                "number or None contained")
    O.vocab_equals(v, vm, "vocabulary after queries")
    ctx.label(vm.kind)
    ctx.label("queries with subword indices",
              sum(isinstance(vm.idx(q), list) for q in case["queries"]))
    ctx.label("queries without index", sum(vm.idx(q) is None for q in case["queries"]))
    return n >= 2


@st.composite
def dup_strategy(draw, large=False):
    case = dict(vocab=draw(gen.vocab_case(lo=1, hi=8)))
    if large:
        draw(gen.large(dict(vocab=case["vocab"], storage=dict(kind="nd", cols=1))))
    ws = gen.words_of(case["vocab"]["words"])
    case["dups"] = draw(st.lists(st.tuples(st.integers(0, len(ws) - 1),
                                           st.integers(0, len(ws))), min_size=1, max_size=3))
    return case


def dup_check(case, ctx):
    import finalfusion
    from finalfusion.vocab import load_vocab
    vm = gen.vocab_model(case["vocab"])
    words = list(vm.words)
    for src, at in case["dups"]:
        words.insert(min(at, len(words)), words[src])
    vm.words = words
    rejects(f"{vm.kind} vocabulary with duplicate words", lambda: gen.vocab_sut(vm))
    data, _ = M.encode_file([(M.VOCAB_ID[vm.kind], vm)])
    p = ctx.path("d.fifu")
    with open(p, "wb") as f:
        f.write(data)
    rejects("loading a vocabulary with duplicate words", lambda: load_vocab(p))
    ctx.label(vm.kind)
    return True


@st.composite
def eq_strategy(draw, large=False):
    a = draw(gen.vocab_case(hi=6, bulk=False))
    if large:                    # hundreds to thousands of words
        a["words"]["list"] = gen.words_of(dict(list=a["words"]["list"], bulk=draw(
            st.integers(50, 3000)), bseed=draw(st.integers(0, 999))))
    at = draw(st.integers(0, max(0, len(a["words"]["list"]) - 1)))
    if not large and gen.rarely(draw, 20):
        return dict(a=a, b=draw(gen.vocab_case(hi=6, bulk=False)))
    import copy
    b = copy.deepcopy(a)
    ws = b["words"]["list"]
    how = draw(st.sampled_from(["same", "swap", "change", "drop", "add"] if large else
                               ["same", "kind", "lo", "hi", "buckets", "swap", "drop", "add",
                                "change", "index", "gswap", "gadd"]))
    if how == "kind":
        k = draw(st.sampled_from(gen.KINDS))
        b["kind"] = k
        b.setdefault("lo", 3)
        b.setdefault("hi", 6)
        b["buckets"] = draw(st.integers(1, 5))
        b.setdefault("ngrams", [])
        b.setdefault("index", None)
    elif how == "lo" and "lo" in b and b["lo"] > 1:
        b["lo"] -= 1
    elif how == "hi" and "hi" in b and b["hi"] < 100:
        b["hi"] += 1
    elif how == "buckets" and "buckets" in b:
        b["buckets"] += 1
    elif how == "swap" and len(ws) >= 2:
        i = at if at < len(ws) - 1 else 0
        ws[i], ws[-1] = ws[-1], ws[i]
    elif how == "drop" and ws:
        ws.pop(at)
    elif how == "add" and "new word" not in ws:
        ws.insert(at, "new word")
    elif how == "change" and ws and ws[at] + "'" not in ws:
        ws[at] += "'"
    elif how == "index" and b.get("ngrams"):
        b["index"] = draw(gen.surjection(len(b["ngrams"])))
    elif how == "gswap" and len(b.get("ngrams", [])) >= 2:
        g = b["ngrams"]
        g[0], g[1] = g[1], g[0]
    elif how == "gadd" and "ngrams" in b and "zzz" not in b["ngrams"]:
        b["ngrams"].append("zzz")
        if b["index"] is not None:
            b["index"].append(0 if b["index"] else 0)
    return dict(a=a, b=b)


@st.composite
def default_strategy(draw):
    ws = draw(gen.words_spec(hi=6))
    return dict(words=ws, kind=draw(st.sampled_from(["ff", "ft"])),
                queries=draw(st.lists(gen.query(gen.words_of(ws)), min_size=1, max_size=5)),
                kw=draw(st.booleans()))


def default_check(case, ctx):
    """Without an indexer: n-grams of 3 to 6 characters, 2^21 or 2,000,000 buckets."""
    from finalfusion.vocab import FastTextVocab, FinalfusionBucketVocab
    words = gen.words_of(case["words"])
    cls, buckets = dict(ff=(FinalfusionBucketVocab, 21),
                        ft=(FastTextVocab, 2000000))[case["kind"]]
    vm = M.VocabM(case["kind"], words, 3, 6, buckets)
    with sut("constructor without indexer"):
        v = cls(words=list(words)) if case["kw"] else cls(list(words))
    O.vocab_equals(v, vm)
    for w in words + case["queries"]:
        ref = vm.idx(w)
        with sut("lookup"):
            require(v.idx(w) == ref, lambda: f"idx({w[:40]!r}) is {str(v.idx(w))[:200]}, "
                    f"expected {str(ref)[:200]}")
            require(v.subword_indices(w) == [i for _, i in vm.sub(w, len(words))],
                    lambda: f"subword_indices({w[:40]!r}) differ")
    ctx.label(case["kind"])
    return any(isinstance(vm.idx(w), list) for w in case["queries"])


def key(vm):
    if vm.kind == "simple":
        return vm.kind, tuple(vm.words)
    if vm.kind == "explicit":
        return (vm.kind, tuple(vm.words), vm.lo, vm.hi, tuple(vm.ngrams),
                tuple(sorted(vm.table.items())))
    return vm.kind, tuple(vm.words), vm.lo, vm.hi, vm.buckets


def eq_check(case, ctx):
    ma, mb = gen.vocab_model(case["a"]), gen.vocab_model(case["b"])
    with sut("constructors"):
        a, b = gen.vocab_sut(ma), gen.vocab_sut(mb)
        a2 = gen.vocab_sut(ma)
    want = key(ma) == key(mb)
    with sut("=="):
        require((a == b) is want and (b == a) is want and (a != b) is not want,
                lambda: f"equality is {a == b}/{b == a}, expected {want}: {key(ma)} {key(mb)}")
        require(a == a2 and a == a, "not equal to an identical vocabulary")
        require(a != 1 and a != "x" and not a == None, "equal to something else")  # noqa
    ctx.label("equal" if want else "different")
    return bool(ma.words)


@st.composite
def many_strategy(draw):
    return dict(vocab=draw(many.vocab()), many=draw(many.spec()), reload=draw(st.booleans()))


def many_check(case, ctx):
    """One vocabulary answers a long sequence of queries."""
    vm = gen.vocab_model(case["vocab"])
    with sut("constructor"):
        v = gen.vocab_sut(vm)
    if case["reload"]:
        from finalfusion.vocab import load_vocab
        with sut("write and load_vocab"):
            v.write(ctx.path("v.fifu"))
            v = load_vocab(ctx.path("v.fifu"))
    qs = many.queries(case["many"], vm.words)
    want = many.Memo(vm.idx)
    for i, w in enumerate(qs):
        ref = want[w]
        with sut(f"query {i}, {w!r}"):
            how = i % 5
            if how == 0:
                got = v.idx(w)
            elif how == 1:
                got = v.idx(w, default=-5)
                got = None if got == -5 else got
            elif how == 2 or vm.kind == "simple":
                try:
                    got = v[w]
                except KeyError:
                    got = None
            elif how == 3:
                got = v.subword_indices(w)
                ref = [i for _, i in vm.sub(w, len(vm.words))]
            else:
                got = [g for g, _ in v.subword_indices(w, with_ngrams=True)]
                ref = [g for g, _ in vm.sub(w)]
            require(got == ref, lambda: f"query {i}, {w!r}: {str(got)[:150]}, expected "
                    f"{str(ref)[:150]}")
            require((w in v) == (w in vm.pos), lambda: f"query {i}: membership of {w!r}")
            if isinstance(got, list):
                got.clear()                 # the caller's list
    O.vocab_equals(v, vm, "vocab afterwards")
    return len(qs) >= 20


SUBS = [
    Sub("many", many_strategy, many_check, "up to 10100 queries of one vocabulary; non-trivial: at "
        "least 20.", 160),
    Sub("lookup", strategy, check, "non-trivial: at least two words.", 5000),
    Sub("duplicates", dup_strategy, dup_check, "word lists with inserted duplicates; all "
        "non-trivial.", 800),
    Sub("large", lambda: strategy(True), check, "vocabularies of up to 70000 words; non-trivial: "
        "as above.", 120),
    Sub("large-duplicates", lambda: dup_strategy(True), dup_check, "duplicates in such "
        "vocabularies; all non-trivial.", 80),
    Sub("defaults", default_strategy, default_check, "bucket vocabularies with the default "
        "indexer; non-trivial: some query has subword indices.", 1500),
    Sub("equality", eq_strategy, eq_check, "pairs of equal and minimally different "
        "vocabularies; non-trivial: words present.", 3000),
    Sub("large-equality", lambda: eq_strategy(True), eq_check, "such pairs of up to 3000 words.",
        200),
]
