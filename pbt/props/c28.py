"""C28: only mutually consistent chunks form embeddings."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, model as M, oracle as O
from ..core import Sub, require, rejects, sut

LEVEL = "exploration"
ASSUMPTIONS = ["Any exception counts as refusal (the package documents AssertionError).",
               "Python runs without -O, which would strip the package's checks."]
NOT_STORAGE = ("ndarray", "list", "none", "vocab", "norms", "metadata", "str")
NOT_VOCAB = ("list", "dict", "none", "storage", "indexer", "str", "norms")
NOT_NORMS = ("ndarray", "list", "storage", "float", "vocab", "tuple")
NOT_META = ("dict", "str", "list", "int", "vocab", "norms")


def imposter(kind, e, em):
    from finalfusion import Metadata
    from finalfusion.norms import Norms
    n = len(em.vocab.words)
    norms = np.ones(n, dtype=np.float32)
    return {"ndarray": lambda: np.ones(tuple(em.storage.shape), dtype=np.float32),
            "list": lambda: list(em.vocab.words) or ["x"], "dict": lambda: dict(em.vocab.pos),
            "none": lambda: None, "str": lambda: "a" * max(1, n), "int": lambda: 1,
            "float": lambda: 1.0, "tuple": lambda: tuple([1.0] * n),
            "vocab": lambda: e.vocab, "storage": lambda: e.storage,
            "norms": lambda: Norms(norms), "metadata": lambda: Metadata(),
            "indexer": lambda: getattr(e.vocab, "subword_indexer", em.vocab.words)}[kind]()


# --------------------------------------------------------------- assembling ---
@st.composite
def bad_strategy(draw):
    what = draw(st.sampled_from(["rows", "rows", "rows", "norms", "norms", "norms", "both",
                                 "storage_type", "vocab_type", "norms_type", "meta_type"]))
    case = draw(gen.emb_case(hi=6, fills=("normal",), long=False, big=False,
                             bulk=gen.rarely(draw, 10)))
    case["what"] = what
    case["delta"] = draw(st.one_of(st.integers(-8, 8).filter(bool),
                                   st.sampled_from(["words", "double", "zero", "rows", "one",
                                                    "subwords"])))
    case["other"] = draw(st.integers(0, 6))
    case["full"] = draw(st.booleans())
    return case


def wrong(case, n, bound, right):
    d = case["delta"]
    v = {"words": n, "double": 2 * right, "zero": 0, "rows": bound, "one": 1,
         "subwords": bound - n}.get(d, d)
    v = right + v if isinstance(d, int) else v
    return v if v >= 0 and v != right else right + 1


def bad_check(case, ctx):
    from finalfusion import Embeddings
    from finalfusion.norms import Norms
    em, e = gen.build(case)
    n, bound = len(em.vocab.words), em.vocab.bound
    what = case["what"]
    storage, vocab, norms, meta = e.storage, e.vocab, e.norms, e.metadata
    detail = what
    if what in ("rows", "both"):
        rows = wrong(case, n, bound, bound)
        sm = gen.storage_model(case["storage"], rows)
        storage = gen.storage_sut(sm, case["storage"])
        detail = f"{rows} rows for {bound} indices ({em.vocab.kind}/{em.storage.kind})"
    if what in ("norms", "both"):
        k = wrong(case, n, bound, n)
        norms = Norms(np.ones(k, dtype=np.float32))
        detail += f" {k} norms for {n} words"
    if what == "storage_type":
        storage = imposter(NOT_STORAGE[case["other"] % len(NOT_STORAGE)], e, em)
    if what == "vocab_type":
        vocab = imposter(NOT_VOCAB[case["other"] % len(NOT_VOCAB)], e, em)
    if what == "norms_type":
        norms = imposter(NOT_NORMS[case["other"] % len(NOT_NORMS)], e, em)
        detail += f" {type(norms).__name__}"
    if what == "meta_type":
        meta = imposter(NOT_META[case["other"] % len(NOT_META)], e, em)
        detail += f" {type(meta).__name__}"
    if case["full"]:
        rejects(f"Embeddings with {detail}", lambda: Embeddings(storage, vocab, norms, meta,
                                                                "x"))
    else:
        rejects(f"Embeddings with {detail}", lambda: Embeddings(
            storage=storage, vocab=vocab, norms=norms, metadata=meta))
    # assignment to existing embeddings
    before = e.norms, e.metadata
    if what in ("norms", "both", "norms_type"):
        def assign():
            e.norms = norms
        rejects(f"assigning norms: {detail}", assign)
    if what == "meta_type":
        def assign():
            e.metadata = meta
        rejects(f"assigning metadata: {detail}", assign)
    if what in ("rows", "both", "storage_type"):
        def replace():
            e.storage = storage
        rejects(f"replacing the storage: {detail}", replace)
    with sut("existing embeddings"):
        require(e.norms is before[0] and e.metadata is before[1], "a refused assignment took "
                "effect")
    O.emb_equals(e, em, "embeddings after refusals")
    ctx.label(what)
    return n >= 1


# -------------------------------------------------------------------- files ---
@st.composite
def file_strategy(draw):
    case = draw(gen.emb_case(hi=6, fills=("normal",), long=False, big=False, bulk=False))
    case["what"] = draw(st.sampled_from(["rows", "norms"]))
    case["delta"] = draw(st.one_of(st.integers(-6, 6).filter(bool), st.sampled_from(
        ["words", "double", "zero", "rows", "one", "subwords"])))
    case["mmap"] = draw(st.booleans())
    return case


def file_check(case, ctx):
    import finalfusion
    em = gen.emb_model(case)
    n, bound = len(em.vocab.words), em.vocab.bound
    if case["what"] == "rows":
        rows = wrong(case, n, bound, bound)
        em.storage = gen.storage_model(case["storage"], rows)
        detail = f"{rows} rows for {bound} indices"
    else:
        k = wrong(case, n, bound, n)
        em.norms = np.ones(k, dtype="<f4")
        detail = f"{k} norms for {n} words"
    import toml
    path = ctx.path("x.fifu")
    with open(path, "wb") as f:
        f.write(M.encode_file(em.chunks(None if em.meta is None else toml.dumps(em.meta)))[0])
    rejects(f"loading a file with {detail} ({em.vocab.kind}/{em.storage.kind})",
            lambda: finalfusion.load_finalfusion(path, mmap=case["mmap"]))
    ctx.label(case["what"])
    return n >= 1


@st.composite
def ft_strategy(draw):
    v = draw(gen.vocab_case(("ft",), "ft", 1, 6, big=False, bulk=False, long=False))
    v["hi"] = min(v["hi"], (1 << 31) - 1)
    return dict(vocab=v, cols=draw(st.integers(1, 4)), seed=draw(st.integers(0, 999)),
                delta=draw(st.integers(-6, 6).filter(bool)))


def ft_check(case, ctx):
    """fastText models whose matrix does not have words + buckets rows."""
    from finalfusion.compat import load_fasttext
    vm = gen.vocab_model(case["vocab"])
    rows = max(0, vm.bound + case["delta"])
    cfg = [case["cols"], 5, 5, 5, 5, 1, 2, 2, vm.buckets, vm.lo, vm.hi, 100, 1e-4]
    path = ctx.path("x.bin")
    with open(path, "wb") as f:
        f.write(M.encode_ft(cfg, vm.words, gen.fill(case["seed"], (rows, case["cols"]),
                                                    "normal")))
    rejects(f"fastText model with {rows} rows for {vm.bound} indices",
            lambda: load_fasttext(path))
    return True


# --------------------------------------------------------------- consistent ---
@st.composite
def good_strategy(draw):
    case = draw(gen.emb_case(layouts=gen.LAYOUTS, hardmeta=True))
    case["origin"] = draw(st.sampled_from([None, "somewhere", "", "\u00e9/x"]))
    case["later"] = draw(st.lists(st.sampled_from(["norms", "meta", "nonorms", "nometa",
                                                   "slice"]), max_size=4))
    case["mmap"] = draw(st.booleans())
    case["name"] = draw(st.sampled_from(["x.fifu", "\u00e9 y.fifu", ".hidden"]))
    return case


def exposed(e, parts, em, what):
    storage, vocab, norms, meta = parts
    with sut(what):
        require(e.storage is storage and e.vocab is vocab and e.norms is norms and
                e.metadata is meta, f"{what}: not the chunks given")
        require(e.dims == em.storage.shape[1] and e.n_words == len(em.vocab.words) and
                type(e.n_words) is int, f"{what}: dims {e.dims}, n_words {e.n_words}")
        want = [x for x in (meta, vocab, storage, norms) if x is not None]
        got = e.chunks()
        require(isinstance(got, list) and len(got) == len(want) and
                all(a is b for a, b in zip(got, want)),
                lambda: f"{what}: chunks {[type(x).__name__ for x in got]}, expected "
                f"{[type(x).__name__ for x in want]}")
        ids = [x.chunk_identifier() for x in got]
        require(len(set(ids)) == len(ids), f"{what}: chunk identifiers {ids}")
        got.clear()
        require(len(e.chunks()) == len(want), f"{what}: changing the chunk list changes the "
                "embeddings")
        text = repr(e)
        require(f"n_words={len(em.vocab.words)}" in text and
                f"dims={em.storage.shape[1]}" in text and
                f"has_norms={norms is not None}" in text and
                f"has_metadata={meta is not None}" in text, f"{what}: {text}")
    O.emb_equals(e, em, what)


def good_check(case, ctx):
    import finalfusion
    from finalfusion import Embeddings, Metadata
    from finalfusion.norms import Norms
    em, base = gen.build(case)
    parts = [base.storage, base.vocab, base.norms, base.metadata]
    with sut("assembling consistent chunks"):
        e = Embeddings(*parts) if case["origin"] is None else \
            Embeddings(*parts, origin=case["origin"])
        require(e.origin == ("<memory>" if case["origin"] is None else case["origin"]),
                lambda: f"origin {e.origin!r}")
    exposed(e, parts, em, "assembled")
    n = len(em.vocab.words)
    for i, step in enumerate(case["later"]):
        with sut(f"assigning ({step})"):
            if step == "norms":
                em.norms = gen.fill(i, (n,), "pos")
                parts[2] = e.norms = Norms(em.norms.copy())
            elif step == "slice":
                # norms that are a slice of longer ones
                full = gen.fill(i, (n + 3,), "pos")
                em.norms = full[1:n + 1]
                parts[2] = e.norms = Norms(full.copy())[1:n + 1]
            elif step == "meta":
                em.meta = {"i": i}
                parts[3] = e.metadata = Metadata({"i": i})
            elif step == "nonorms":
                parts[2] = e.norms = em.norms = None
            else:
                parts[3] = e.metadata = em.meta = None
        exposed(e, parts, em, f"after {step}")
    mm = case["mmap"] and em.storage.shape[0] > 0 and em.storage.shape[1] > 0
    path = ctx.path(case["name"])
    with sut("write and load"):
        e.write(path)
        r = finalfusion.load_finalfusion(path, mmap=mm)
        require(r.origin == path, lambda: f"origin {r.origin!r} of embeddings loaded from "
                f"{path!r}")
    exposed(r, [r.storage, r.vocab, r.norms, r.metadata], em, "loaded")
    ctx.label(f"{em.vocab.kind}/{em.storage.kind}")
    return n >= 1


SUBS = [
    Sub("bad", bad_strategy, bad_check, "one chunk has the wrong size or type; non-trivial: at "
        "least one word.", 6000),
    Sub("file", file_strategy, file_check, "finalfusion file with chunks of inconsistent sizes; "
        "non-trivial: at least one word.", 3000),
    Sub("fasttext", ft_strategy, ft_check, "fastText file with too many or few matrix rows; all "
        "are non-trivial.", 1500),
    Sub("good", good_strategy, good_check, "consistent chunks and later assignments; "
        "non-trivial: at least one word.", 4000),
]
