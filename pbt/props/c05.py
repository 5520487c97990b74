"""C05: memory-mapped loading is indistinguishable from in-memory loading."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, model as M, oracle as O, sparse
from ..core import Sub, require, rejects, outcome, sut

LEVEL = "exploration"
ASSUMPTIONS = ["The file is given as a path and its matrix is not empty (nothing to map).",
               "Vectors and similarities are compared within float32 rounding."]


@st.composite
def strategy(draw):
    case = draw(gen.emb_case(lo=1, hi=8, fills=("normal", "ints", "zrows", "dup"),
                             layouts=("C",)))
    ws = gen.words_of(case["vocab"]["words"])
    case["queries"] = draw(st.lists(gen.query(ws, "any", case["vocab"]), min_size=1, max_size=5))
    case["slice"] = draw(st.tuples(*[st.one_of(st.none(), st.integers(-4, 9))] * 2,
                                   st.sampled_from([None, 1, 2, -1, 3])))
    case["ks"] = draw(st.integers(0, 12))
    case["keys"] = draw(st.lists(st.integers(0, 999), max_size=5))
    case["at"] = draw(gen.place(fd=False))
    return case


def both(what, f, a, b):
    ra, rb = outcome(lambda: f(a)), outcome(lambda: f(b))
    require(ra[0] == rb[0] and (ra[0] == "ok" or type(ra[1]) is type(rb[1])),
            lambda: f"{what}: in memory {ra!r}, mapped {rb!r}")
    return (ra[1], rb[1]) if ra[0] == "ok" else None


def eq(a, b, what):
    if a is None or b is None:
        require(a is None and b is None, lambda: f"{what}: {a!r} vs {b!r}")
        return
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape and a.dtype == b.dtype,
            lambda: f"{what}: {a.shape} {a.dtype} vs {b.shape} {b.dtype}")
    require(np.allclose(a, b, rtol=1e-5, atol=1e-6 * (1e-30 + float(np.max(np.abs(a), initial=0)))),
            lambda: f"{what}: {a} vs {b}")


def check(case, ctx):
    import finalfusion
    from finalfusion.storage import load_storage, load_ndarray, load_quantized_array
    em, e = gen.build(case)
    path = gen.place_path(ctx, case["at"])
    arg = gen.place_arg(path, case["at"]["how"])
    with sut("write"):
        e.write(path)
    with open(path, "rb") as f:
        data = f.read()
    with sut("loading"):
        a = finalfusion.load_finalfusion(path)
        b = finalfusion.load_finalfusion(arg, mmap=True)
        st_b = load_storage(arg, mmap=True)
        st_c = (load_ndarray if em.storage.kind == "nd" else load_quantized_array)(
            arg, mmap=True)
    O.emb_equals(b, em, "mapped")
    O.storage_equals(st_b, em.storage, "mapped storage")
    O.storage_equals(st_c, em.storage, "mapped storage")
    n = em.storage.shape[0]
    keys = [k % (2 * n) - n for k in case["keys"]]
    sl = slice(*case["slice"])
    for w in case["queries"]:
        r = both(f"embedding({w!r})", lambda x: x.embedding(w), a, b)
        if r:
            eq(*r, f"embedding({w!r})")
            ref = em.lookup(w)
            require((r[1] is None) == (ref is None), lambda: f"embedding({w!r}): {r[1]}")
            if ref:
                O.check_vector(r[1], ref, f"mapped embedding({w!r})")
        r = both(f"[{w!r}]", lambda x: x[w], a, b)
        if r:
            eq(*r, f"[{w!r}]")
        buf = [np.full(em.storage.shape[1], 5, dtype=np.float32) for _ in "ab"]
        it = iter(buf)
        r = both(f"embedding({w!r}, out)", lambda x: x.embedding(w, out=next(it)), a, b)
        eq(buf[0], buf[1], f"buffer after embedding({w!r}, out)")
        r = both(f"embedding_with_norm({w!r})", lambda x: x.embedding_with_norm(w), a, b)
        if r and r[0] is not None:
            eq(r[0][0], r[1][0], f"embedding_with_norm({w!r})")
            eq(r[0][1], r[1][1], f"norm of {w!r}")
        ref = em.lookup(w)
        r = both(f"word_similarity({w!r})", lambda x: x.word_similarity(w, case["ks"]), a, b)
        if r and r[1] is not None and ref:
            total, length, err, kind = ref
            if kind == "known":
                O.check_neighbours(r[1], em, total, err, case["ks"], {w},
                                   f"mapped word_similarity({w!r})")
            require(len(r[0]) == len(r[1]), "number of neighbours differs")
            for x, y in zip(r[0], r[1]):
                eq(x.similarity, y.similarity, f"neighbours of {w!r}")
    for key in keys + [keys, np.array(keys, dtype=int), sl]:
        r = both(f"storage[{key}]", lambda x: np.asarray(x.storage[key]), a, b)
        if r:
            eq(*r, f"storage[{key}]")
            O.close(r[1], em.dense()[key], 4e-6 * em.scale()[key] + 1e-37,
                    f"mapped storage[{key}]")
    with sut("iteration"):
        la, lb = list(a), list(b)
    require(len(la) == len(lb) == len(em.vocab.words), "iteration length differs")
    for x, y in zip(la, lb):
        require(x[0] == y[0] and len(x) == len(y), "iteration differs")
        eq(x[1], y[1], f"iterated row of {x[0]!r}")
    if em.vocab.kind in ("ff", "ft"):
        with sut("bucket_to_explicit"):
            ea, eb = a.bucket_to_explicit(), b.bucket_to_explicit()
        require(ea.vocab == eb.vocab, "converted vocabularies differ")
        eq(ea.storage, eb.storage, "converted storage")
    # writing the mapped embeddings, also a slice of a mapped storage
    with sut("write mapped"):
        b.write(ctx.path("m2.fifu"))
        st_b[sl].write(ctx.path("m3.fifu"))
        a.storage[sl].write(ctx.path("m4.fifu"))
    out = [open(ctx.path(p), "rb").read() for p in ("m2.fifu", "m3.fifu", "m4.fifu")]
    require(out[0] == data, "writing mapped embeddings gives a different file")
    require(out[1] == out[2], "writing a slice of a mapped storage gives a different file")
    if em.storage.kind == "nd":
        for s in (b.storage, st_b, st_c, b.storage[:]):
            require(not s.flags.writeable, "mapped buffer is writable")
            rejects("assignment into the mapped storage", lambda: s.__setitem__(0, 1.0))
        w = em.vocab.words[0]
        rejects("writing into a mapped row", lambda: b[w].__setitem__(slice(None), 3.0))
    for x in (b.storage, st_b):
        if em.storage.kind == "pq":
            with sut("np.asarray"):
                np.asarray(x)[:] = 9        # a new buffer: must not reach the file
            O.storage_equals(x, em.storage, "mapped storage after writing into its copy")
    with open(path, "rb") as f:
        require(f.read() == data, "the mapped file was changed")
    # the order of releases must not matter
    del a, b, st_b, st_c
    ctx.label(f"{em.vocab.kind}/{em.storage.kind}")
    ctx.label("path as " + case["at"]["how"])
    return len(em.vocab.words) >= 2


@st.composite
def large(draw):
    return draw(gen.large(draw(strategy())))


@st.composite
def wide(draw):
    return draw(gen.wide(draw(strategy())))


@st.composite
def huge(draw):
    v = draw(gen.vocab_case(("ff", "ft"), lo=1, hi=6, bulk=False, long=False))
    v["hi"] = min(v["hi"], v["lo"] + 5)
    pq = gen.rarely(draw, 30)
    rows, cols = draw(sparse.shape(1 if pq else 4))
    if v["kind"] == "ff":
        v["buckets"] = min(28, max(10, rows.bit_length() - draw(st.integers(0, 1))))
        cols = max(1, rows * cols >> v["buckets"])
    else:
        v["buckets"] = min(rows, gen.U32)
    ws = gen.words_of(v["words"])
    return dict(vocab=v, cols=cols, pq=pq, seed=draw(st.integers(0, 999)),
                queries=draw(st.lists(gen.query(ws), min_size=1, max_size=5)),
                norms=draw(st.booleans()))


def check_huge(case, ctx):
    with sparse.roomy():
        return huge_case(case, ctx)


def huge_case(case, ctx):
    import finalfusion
    from finalfusion.storage import load_storage
    vm = gen.vocab_model(case["vocab"])
    n, cols = len(vm.words), case["cols"]
    fixed = list(range(n)) + [i for w in case["queries"] for _, i in vm.sub(w, n)]
    big = (sparse.pq if case["pq"] else sparse.nd)(case["seed"], vm.bound, cols, fixed)
    norms = gen.fill(case["seed"], (n,), "pos") if case["norms"] else None
    em = M.EmbM(vm, big, norms)
    path = ctx.path("huge.fifu")
    sparse.write(path, em.chunks())
    with sut("mapping a huge file"):
        e = finalfusion.load_finalfusion(path, mmap=True)
        require(tuple(e.storage.shape) == big.shape, lambda: f"shape {e.storage.shape}")
    O.vocab_equals(e.vocab, vm)
    O.norms_equal(e.norms, norms)
    subs = 0
    for w in case["queries"] + vm.words:
        ref = em.lookup(w)
        with sut(f"lookup of {w!r}"):
            got = e.embedding(w)
        if ref is None:
            require(got is None, f"embedding({w!r}): expected None")
            continue
        subs += ref[3] == "sum"
        O.check_vector(got, ref, f"mapped embedding({w!r})")
    with sut("rows"):
        for s in (e.storage, load_storage(path, mmap=True)):
            for i in big.dense().rows:
                O.close(np.array(s[i]), em.dense()[i], 4e-6 * em.scale()[i] + 1e-37,
                        f"mapped row {i} of {vm.bound}")
            del s
    del e
    ctx.label("pq" if case["pq"] else "nd")
    return subs > 0


SUBS = [Sub("mmap", strategy, check, "non-trivial: at least two words.", 4000),
        Sub("huge", huge, check_huge, "mapped files of 1.5 to 4.5 GB (sparse); non-trivial: the vector "
            "of an unknown word is computed.", 800),
        Sub("large", large, check, "as mmap, with hundreds to 70000 words.", 64),
        Sub("wide", wide, check, "as mmap, with hundreds to 70000 columns.", 64)]
