"""C20: fastText models load and write with fastText's meaning."""
import numpy as np
from hypothesis import strategies as st

from .. import ambient, gen, model as M, oracle as O, foreign as F
from ..core import Sub, require, rejects, fail, sut

LEVEL = "exploration"
ASSUMPTIONS = ["Words without NUL bytes (</s> is averaged like any other word, as documented); at "
               "least one column; n-gram range 1 <= min <= max < 2^31, at least one bucket; "
               "finite matrices of moderate size.",
               "Averages are compared within single-precision rounding; where they cancel "
               "out almost completely only the product of vector and norm is compared."]


@st.composite
def ft_vocab(draw, lo=0):
    v = draw(gen.vocab_case(("ft",), "ft", lo, 8))
    v["hi"] = min(v["hi"], (1 << 31) - 1)
    return v


@st.composite
def load_strategy(draw):
    return dict(vocab=draw(ft_vocab(0 if gen.rarely(draw, 5) else 2)),
                seed=draw(st.integers(0, 9999)),
                cols=draw(st.integers(1, 8)),
                fill=draw(st.sampled_from(["normal", "ints", "zrows", "unit", "zero"])),
                cfg=draw(st.lists(st.integers(0, 1000), min_size=7, max_size=7)),
                loss=draw(st.integers(1, 3)), model=draw(st.integers(1, 3)),
                thr=draw(st.sampled_from([0.0, 1e-4, 0.5])),
                freqs=draw(st.integers(0, 10 ** 12)), tail=draw(st.integers(0, 30)),
                write=draw(st.booleans()), at=draw(gen.place()), queries=draw(st.lists(gen.word("ft"), max_size=3)))


def model_of(case):
    vm = gen.vocab_model(case["vocab"])
    matrix = gen.fill(case["seed"], (vm.bound, case["cols"]), case["fill"])
    c = case["cfg"]
    cfg = [case["cols"], c[0], c[1], c[2], c[3], c[4], case["loss"], case["model"],
           vm.buckets, vm.lo, vm.hi, c[5], case["thr"]]
    return vm, matrix, cfg


def load_check(case, ctx):
    from finalfusion.compat import load_fasttext, write_fasttext
    vm, matrix, cfg = model_of(case)
    path = gen.place_path(ctx, case["at"])
    freqs = [case["freqs"] + 7 * i for i in range(len(vm.words))]
    with open(path, "wb") as f:
        f.write(M.encode_ft(cfg, vm.words, matrix, freqs, n_tokens=case["freqs"],
                            tail=b"\x01" * case["tail"]))
    with sut("load_fasttext"):
        e = load_fasttext(gen.place_arg(path, case["at"]["how"]))
    F.ft_loaded(e, vm, matrix, "loaded model")
    want = dict(zip(M.FT_KEYS, cfg), loss=M.FT_LOSS[case["loss"]],
                model=M.FT_MODEL[case["model"]])
    with sut("metadata"):
        require(e.metadata is not None and gen.same(dict(e.metadata), want),
                lambda: f"metadata {dict(e.metadata or {})}, expected {want}")
    # lookups of unknown words sum the (unchanged) bucket rows
    em = M.EmbM(vm, M.NdM(np.array(np.asarray(e.storage))), np.array(np.asarray(e.norms)))
    for w in case["queries"] + vm.words[:2]:
        ref = em.lookup(w)
        with sut(f"lookup of {w[:20]!r}"):
            got = e.embedding(w)
        require((got is None) == (ref is None), lambda: f"lookup of {w[:20]!r}: {got}")
        if ref:
            O.check_vector(got, ref, f"lookup of {w[:20]!r}")
    if case["write"]:
        # writing undoes the averaging: the model's own matrix comes back
        with sut("write_fasttext"):
            write_fasttext(ctx.path("out.bin"), e)
        got = parse(ctx.path("out.bin"), vm, case["cols"])
        m64 = matrix.astype(np.float64)
        tol = np.zeros(m64.shape)
        for i, w in enumerate(vm.words):
            rows = [i] + [j for _, j in vm.sub(w, len(vm.words))]
            tol[i] = 1e-6 * (len(rows) + 8) * np.abs(m64[rows]).sum(0) + 1e-37
        O.close(got, m64, tol, "input matrix of the written model")
        O.same_bits(got[len(vm.words):], matrix[len(vm.words):], "written bucket rows")
    ctx.label(case["fill"])
    return len(vm.words) >= 2


def parse(path, vm, dims):
    with open(path, "rb") as f:
        data = f.read()
    try:
        cfg, words, mat, _tail = M.parse_ft(data)
    except (M.FormatError, ValueError) as err:
        fail(f"written file does not follow the fastText format: {err!r}")
    require(words == vm.words, lambda: f"words {words[:10]!r}, expected {vm.words[:10]!r}")
    have = (cfg[0], cfg[8], cfg[9], cfg[10])
    require(have == (dims, vm.buckets, vm.lo, vm.hi), lambda: "written dims, buckets, min_n, "
            f"max_n {have}, expected {(dims, vm.buckets, vm.lo, vm.hi)}")
    require(cfg[6] in M.FT_LOSS and cfg[7] in M.FT_MODEL, lambda: f"loss, model: {cfg}")
    require(mat.shape == (vm.bound, dims), lambda: f"matrix {mat.shape}, expected "
            f"{(vm.bound, dims)}")
    return mat


@st.composite
def write_strategy(draw):
    case = draw(gen.emb_case(kinds=("ft",), style="ft", fills=("normal", "ints", "zrows", "unit"),
                             hi=7, lo=0 if gen.rarely(draw, 5) else 1,
                             layouts=("C", "C", "F", "rows2", "rev", "be", "ro")))
    case["vocab"]["hi"] = min(case["vocab"]["hi"], (1 << 31) - 1)
    case["load"] = draw(st.sampled_from([None, None, "mmap"]))
    case["at"] = draw(gen.place())
    return case


def write_check(case, ctx):
    from finalfusion.compat import load_fasttext, write_fasttext
    from .c18 import obtain
    em, e = obtain(case, ctx)
    vm, dims, n = em.vocab, em.storage.shape[1], len(em.vocab.words)
    path = gen.place_path(ctx, case["at"])
    with sut("write_fasttext"):
        write_fasttext(gen.place_arg(path, case["at"]["how"], True), e)
    got = parse(path, vm, dims)
    ref, tol = F.ft_input(em)
    O.close(got, ref, tol, "written input matrix")
    if em.storage.kind == "nd":
        O.same_bits(got[n:], em.storage.array[n:], "written bucket rows")
    O.emb_equals(e, em, "embeddings after writing")
    with sut("load_fasttext"):
        e2 = load_fasttext(path)
    F.ft_loaded(e2, vm, got, "re-loaded")
    # ... and so the un-normalized vectors are those of the embeddings
    _, d, t = F.products(em)
    slack = np.zeros(d.shape)
    for i, w in enumerate(vm.words):
        rows = [i] + [j for _, j in vm.sub(w, n)]
        slack[i] = 3e-7 * (len(rows) + 8) * np.abs(ref[rows]).mean(0) + tol[rows].mean(0)
    with sut("re-loaded"):
        back = np.asarray(e2.storage)[:n].astype(np.float64) * \
            np.asarray(e2.norms).astype(np.float64)[:, None]
    O.close(back, d, t + slack, "vectors after writing and loading")
    ctx.label(f"{em.storage.kind}, {'norms' if em.norms is not None else 'no norms'}")
    return n >= 2


@st.composite
def refuse_strategy(draw):
    return draw(gen.emb_case(kinds=("simple", "ff", "explicit"), style="ft", hi=5, bulk=False))


def refuse_check(case, ctx):
    from finalfusion.compat import write_fasttext
    em, e = gen.build(case)
    rejects(f"write_fasttext with a {em.vocab.kind} vocabulary",
            lambda: write_fasttext(ctx.path("out.bin"), e), ValueError)
    O.emb_equals(e, em, "embeddings after refusal")
    return len(em.vocab.words) > 0


@st.composite
def write_wide(draw):
    return draw(gen.wide(draw(write_strategy())))


@st.composite
def load_wide(draw):
    case = draw(load_strategy())
    if "words" in case:
        case["words"].update(list=case["words"]["list"][:4], bulk=0)
    else:
        draw(gen.wide(dict(vocab=case["vocab"], storage=dict(kind="nd"))))
    case["cols"] = draw(st.sampled_from(gen.WIDE))
    return case


@st.composite
def write_large(draw):
    return draw(gen.large(draw(write_strategy()), budget=400000))


@st.composite
def load_large(draw):
    case = draw(load_strategy())
    case = draw(gen.large(dict(case, storage=dict(kind="nd", cols=1)), budget=400000))
    case["cols"] = case.pop("storage")["cols"]
    return case


SUBS = [Sub("write-wide", write_wide, write_check, "as write, with hundreds to 70000 columns.", 64),
        Sub("load-wide", load_wide, load_check, "as load, with hundreds to 70000 columns.", 64),
        Sub("load", ambient.within(load_strategy), load_check,
            "non-trivial: at least two words.", 4000),
        Sub("write-large", write_large, write_check, "as write, up to 70000 words.", 48),
        Sub("load-large", load_large, load_check, "as load, up to 70000 words.", 48),
        Sub("write", ambient.within(write_strategy), write_check,
            "non-trivial: at least two words.", 4000),
        Sub("refuse", refuse_strategy, refuse_check, "non-trivial: not empty.", 500)]
