"""C02: each chunk can be found and loaded on its own from any file."""
from hypothesis import strategies as st

import numpy as np

from .. import gen, model as M, oracle as O, sparse
from ..core import Sub, require, rejects, sut

LEVEL = "exploration"
ASSUMPTIONS = ["Files hold only the chunk types the library knows."]

META_TEXT = [("", {}), ("a = 1\n", {"a": 1}), ("b = \"\u65e5\"\n", {"b": "\u65e5"}),
             ("[t]\nx = [1, 2]\n", {"t": {"x": [1, 2]}}), ("c = 0.5", {"c": 0.5}),
             ("s = \"" + "z" * 61 + "\"\n", {"s": "z" * 61})]


@st.composite
def chunk(draw):
    kind = draw(st.sampled_from(["vocab", "vocab", "nd", "pq", "norms", "meta"]))
    if kind == "vocab":
        return dict(c="vocab", v=draw(gen.vocab_case(hi=5, big=True, bulk=False, vast=True)))
    if kind == "meta":
        return dict(c="meta", m=draw(st.integers(0, len(META_TEXT) - 1)))
    if kind == "norms":
        return dict(c="norms", seed=draw(st.integers(0, 99)), n=draw(st.integers(0, 9)),
                    fill=draw(st.sampled_from(["pos", "bits"])))
    rows = draw(st.integers(0, 6))
    if kind == "nd":
        return dict(c="nd", rows=rows, s=draw(gen.nd_case(big=False)))
    return dict(c="pq", rows=rows, s=draw(gen.pq_case(fills=("normal", "ints", "bits"))))


@st.composite
def strategy(draw):
    chunks = draw(st.lists(chunk(), min_size=1, max_size=7))
    if gen.rarely(draw, 4):                 # many chunks
        n = draw(st.sampled_from([9, 15, 16, 17, 31, 33, 64, 100, 255, 256, 257, 300]))
        last = chunks[-1]
        chunks = (chunks[:-1] or chunks) * n
        chunks = chunks[:n - 1] + [last]
    return dict(chunks=chunks,
                find=draw(st.lists(st.lists(st.integers(1, 8), max_size=4, unique=True), max_size=4)),
                fd=draw(st.sampled_from(["str", "bytes", "path", "fd", "rel", "like"])))


def chunk_model(c):
    if c["c"] == "vocab":
        vm = gen.vocab_model(c["v"])
        return M.VOCAB_ID[vm.kind], vm, None
    if c["c"] == "meta":
        text, val = META_TEXT[c["m"]]
        return M.META, text, val
    if c["c"] == "norms":
        return M.NORMS, gen.fill(c["seed"], (c["n"],), c["fill"]), None
    sm = gen.storage_model(c["s"], c["rows"])
    return (M.NDARRAY if c["c"] == "nd" else M.PQ), sm, None


def same_chunk(got, cid, obj, val, what):
    if cid in M.VOCAB_KIND:
        O.vocab_equals(got, obj, what)
    elif cid == M.META:
        O.meta_equal(got, val, what)
    elif cid == M.NORMS:
        O.norms_equal(got, obj, what)
    else:
        O.storage_equals(got, obj, what)


def loaders():
    from finalfusion.vocab import load_vocab, load_simple_vocab, load_fasttext_vocab, \
        load_finalfusion_bucket_vocab, load_explicit_vocab
    from finalfusion.storage import load_storage, load_ndarray, load_quantized_array
    from finalfusion.norms import load_norms
    from finalfusion.metadata import load_metadata
    vocabs = (M.SIMPLE, M.BUCKET, M.FASTTEXT, M.EXPLICIT)
    yield "load_vocab", load_vocab, vocabs
    yield "load_simple_vocab", load_simple_vocab, (M.SIMPLE,)
    yield "load_finalfusion_bucket_vocab", load_finalfusion_bucket_vocab, (M.BUCKET,)
    yield "load_fasttext_vocab", load_fasttext_vocab, (M.FASTTEXT,)
    yield "load_explicit_vocab", load_explicit_vocab, (M.EXPLICIT,)
    yield "load_storage", load_storage, (M.NDARRAY, M.PQ)
    yield "load_storage(mmap)", lambda p: load_storage(p, mmap=True), (M.NDARRAY, M.PQ)
    yield "load_ndarray", load_ndarray, (M.NDARRAY,)
    yield "load_ndarray(mmap)", lambda p: load_ndarray(p, mmap=True), (M.NDARRAY,)
    yield "load_quantized_array", load_quantized_array, (M.PQ,)
    yield "load_quantized_array(mmap)", lambda p: load_quantized_array(p, mmap=True), (M.PQ,)
    yield "load_norms", load_norms, (M.NORMS,)
    yield "load_metadata", load_metadata, (M.META,)


def classes():
    from finalfusion.vocab import SimpleVocab, FinalfusionBucketVocab, FastTextVocab, \
        ExplicitVocab
    from finalfusion.storage import NdArray, QuantizedArray
    from finalfusion.norms import Norms
    from finalfusion.metadata import Metadata
    return {M.SIMPLE: SimpleVocab, M.BUCKET: FinalfusionBucketVocab,
            M.FASTTEXT: FastTextVocab, M.EXPLICIT: ExplicitVocab, M.NDARRAY: NdArray,
            M.PQ: QuantizedArray, M.NORMS: Norms, M.META: Metadata}


def empty_data(obj, cid):
    return cid in (M.NDARRAY, M.PQ) and 0 in obj.shape


def check_loaders(path, chunks, how="str"):
    """Every single-chunk loader against the first matching chunk."""
    for name, fn, ids in loaders():
        first = next((c for c in chunks if c[0] in ids), None)
        if first is None:
            rejects(f"{name} without such a chunk", lambda: fn(path), ValueError)
            continue
        if "mmap" in name and empty_data(first[1], first[0]):
            continue                        # nothing to map
        with sut(name):
            got = fn(gen.place_arg(path, "str" if how == "fd" and "mmap" in name else how))
        same_chunk(got, *first, name)


def check(case, ctx):
    from finalfusion.io import find_chunk, ChunkIdentifier
    chunks = [chunk_model(c) for c in case["chunks"]]
    data, offsets = M.encode_file([(c[0], c[1]) for c in chunks])
    path = ctx.path("x.fifu")
    with open(path, "wb") as f:
        f.write(data)
    check_loaders(path, chunks, case["fd"])
    cls = classes()
    present = {c[0] for c in chunks}
    wanted = [set(x) for x in case["find"]] + [{i} for i in range(1, 9)]
    with open(path, "rb") as f:
        for ids in wanted:
            first = next((c for c in chunks if c[0] in ids), None)
            with sut(f"find_chunk {sorted(ids)}"):
                got = find_chunk(f, [ChunkIdentifier(i) for i in sorted(ids)])
            if first is None:
                require(got is None, lambda: f"find_chunk {sorted(ids)}: {got}, expected None")
                continue
            require(got is not None and int(got) == first[0],
                    lambda: f"find_chunk {sorted(ids)}: {got}, expected {first[0]}")
            with sut(f"read_chunk after find_chunk {sorted(ids)}"):
                obj = cls[first[0]].read_chunk(f)
            same_chunk(obj, *first, f"chunk found for {sorted(ids)}")
    with open(path, "rb") as f:
        require(f.read() == data, "loading changed the file")
    ctx.label(f"{len(chunks)} chunks")
    ctx.label("duplicate types" if len(present) < len(chunks) else "distinct types")
    return len(chunks) >= 2


# ------------------------------------------ files written by the library itself
def check_vocab(case, ctx):
    """A vocabulary as a file of its own, with any bucket count and n-gram range."""
    vm = gen.vocab_model(case)
    with sut("vocabulary"):
        v = gen.vocab_sut(vm)
        v.write(ctx.path("v.fifu"))
    check_loaders(ctx.path("v.fifu"), [(M.VOCAB_ID[vm.kind], vm, None)])
    return len(vm.words) >= 1


def check_written(case, ctx):
    em, e = gen.build(case)
    path = ctx.path("w.fifu")
    with sut("write"):
        e.write(path)
    chunks = []
    if em.meta is not None:
        chunks.append((M.META, None, em.meta))
    chunks.append((M.VOCAB_ID[em.vocab.kind], em.vocab, None))
    chunks.append((M.NDARRAY if em.storage.kind == "nd" else M.PQ, em.storage, None))
    if em.norms is not None:
        chunks.append((M.NORMS, em.norms, None))
    check_loaders(path, chunks)
    # every chunk as a file of its own
    with sut("chunks"):
        parts = e.chunks()
    require(len(parts) == len(chunks), lambda: f"chunks(): {len(parts)} of {len(chunks)}")
    for part, ref in zip(parts, chunks):
        p = ctx.path("solo.fifu")
        with sut(f"{type(part).__name__}.write"):
            part.write(p)
        check_loaders(p, [ref])
    ctx.label(f"{em.vocab.kind}/{em.storage.kind}")
    return len(em.vocab.words) >= 1


@st.composite
def large(draw):
    return draw(gen.large(draw(gen.emb_case(layouts=gen.LAYOUTS, big=False)), far=True))


@st.composite
def far(draw):
    return draw(gen.far(draw(gen.emb_case(layouts=gen.LAYOUTS, big=False, norms=True))))


@st.composite
def huge(draw):
    kind = draw(st.sampled_from(["nd", "nd", "pq"]))
    return dict(kind=kind, shape=list(draw(sparse.shape(4 if kind == "nd" else 1))),
                seed=draw(st.integers(0, 999)),
                before=draw(st.lists(chunk(), max_size=3)),
                after=draw(st.lists(chunk(), min_size=1, max_size=4)))


def check_huge(case, ctx):
    with sparse.roomy():
        return huge_case(case, ctx)


def huge_case(case, ctx):
    from finalfusion.storage import NdArray
    n, cols = case["shape"]
    big = (sparse.nd if case["kind"] == "nd" else sparse.pq)(case["seed"], n, cols)
    cid = M.NDARRAY if case["kind"] == "nd" else M.PQ
    chunks = [chunk_model(c) for c in case["before"]] + [(cid, big, None)] + \
        [chunk_model(c) for c in case["after"]]
    path = ctx.path("huge.fifu")
    sparse.write(path, [c[:2] for c in chunks])
    hits = 0
    for name, fn, ids in loaders():
        at = next((i for i, c in enumerate(chunks) if c[0] in ids), None)
        if at is None:
            rejects(f"{name} without such a chunk", lambda: fn(path), ValueError)
            continue
        if "mmap" in name and empty_data(chunks[at][1], chunks[at][0]):
            continue
        if chunks[at][1] is not big:
            with sut(name):
                got = fn(path)
            same_chunk(got, *chunks[at], name)
            hits += at > len(case["before"])
        elif "mmap" in name:
            with sut(name):
                got = fn(path)
                require(got.shape == (n, big.shape[1]),
                        lambda: f"{name}: shape {got.shape}, expected {(n, big.shape[1])}")
                for i in list(big.dense().rows) + [n // 2]:
                    row = np.array(got[i])
                    require(np.array_equal(row, big.dense()[i].astype(np.float32)),
                            lambda: f"{name}: row {i} of {n} is {row[:5]}, expected "
                                    f"{big.dense()[i][:5]}")
            del got
    ctx.label(f"{case['kind']} " + ("over" if n * cols * (4 if case["kind"] == "nd" else 1) >>
                                    32 else "under") + " 4 GB")
    return hits > 0


SUBS = [
    Sub("foreign", strategy, check, "random chunk sequences (any order, repeated types) "
        "encoded by the reference encoder; non-trivial: at least two chunks.", 3200),
    Sub("written", lambda: gen.emb_case(layouts=gen.LAYOUTS, big=False), check_written,
        "embeddings and single chunks written by the library; non-trivial: at least one word.",
        2400),
    Sub("vocab", lambda: gen.vocab_case(vast=True), check_vocab, "vocabularies on their own, up to "
        "2^62 buckets; non-trivial: at least one word.", 1600),
    Sub("huge", huge, check_huge, "files of 2 to 4.5 GB (sparse); non-trivial: a chunk behind the "
        "huge one is loaded.", 800),
    Sub("far", far, check_written, "as written, with more than 65000 words or n-grams.", 8),
    Sub("large", large, check_written, "as written, with hundreds to 70000 words.", 96),
]
