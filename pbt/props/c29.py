"""C29: arbitrary bytes give an error or well-formed embeddings."""
import contextlib
import resource

import numpy as np
from hypothesis import strategies as st

from .. import gen, model as M, oracle as O, foreign as F
from ..core import Sub, require, fail, outcome, sut
from .c02 import META_TEXT
from .c04 import emb, encode, VOCABS
from .c26 import spec, parts, cfg_of
from ..source import text_lines

LEVEL = "exploration"
ASSUMPTIONS = ["Any exception counts as an error, lack of memory included.",
               "Quantized rows whose codes exceed the number of centroids may fail when they are "
               "looked up.",
               "Metadata is left out of the comparison after re-writing, as not every TOML "
               "document survives the TOML library."]

BOUNDS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 20, 32, 63, 64, 65, 127, 128, 255, 256,
          1000, 65535, 65536, (1 << 24) - 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32,
          1 << 40, (1 << 62) + 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, (1 << 64) - 4]
CLIPS = [b"\0", b"\0\0\0\0", b"\n", b" ", b"\xff", b"\xc3", b"\xa4", b"1", b"-", b".", b"e9",
         b"nan", b"FiFu", b"\1\0\0\0", b"a 1 2\n", b"\r\n", b"\r", b"\t", b"\x00" * 12, b"9" * 20,
         b"\xef\xbb\xbf", b"\x85", b"\xe2\x80\xa8"]


@st.composite
def position(draw):
    """Relative to the start of a chunk (or line), to the end, or anywhere."""
    how = draw(st.integers(0, 3))
    if how <= 1:
        return [draw(st.integers(0, 5)), draw(st.integers(0, 60))]
    if how == 2:
        return [-1, draw(st.integers(0, 40))]
    return [-2, draw(st.integers(0, 100000))]


@st.composite
def change(draw):
    kind = draw(st.sampled_from(["xor", "u32", "u32", "u64", "u64", "add", "ins", "del", "dup",
                                 "move", "splice", "cut", "junk"]))
    at = draw(position())
    if kind == "xor":
        return [kind, at, draw(st.integers(1, 255))]
    if kind in ("u32", "u64"):
        return [kind, at, draw(st.one_of(st.sampled_from(BOUNDS), st.integers(0, 40)))]
    if kind == "add":
        return [kind, at, draw(st.sampled_from([1, -1, 2, -2, 4, -4, 8, 16, 256, 65536]))]
    if kind == "ins":
        return [kind, at, draw(st.sampled_from(CLIPS)).hex()]
    if kind == "junk":
        return [kind, at, draw(st.binary(min_size=1, max_size=24)).hex()]
    if kind in ("dup", "del"):
        return [kind, at, draw(st.sampled_from([1, 2, 4, 8, 12, 16, 20, 28, 40, 64]))]
    if kind == "move":
        return [kind, at, draw(st.integers(1, 24)), draw(position())]
    return [kind, at, 0]


def resolve(at, marks, n):
    kind, k = at
    if kind == -1:
        return max(0, n - k)
    if kind == -2:
        return k % (n + 1)
    return min(n, marks[kind % len(marks)] + k)


def apply(data, other, marks, changes):
    data = bytearray(data)
    for c in changes:
        kind, at, v = c[0], resolve(c[1], marks, len(data)), c[2]
        if kind == "xor":
            if at < len(data):
                data[at] ^= v
        elif kind in ("u32", "u64"):
            w = 4 if kind == "u32" else 8
            data[at:at + w] = (v % (1 << (8 * w))).to_bytes(w, "little")
        elif kind == "add":
            old = int.from_bytes(data[at:at + 4], "little")
            data[at:at + 4] = ((old + v) % (1 << 32)).to_bytes(4, "little")
        elif kind in ("ins", "junk"):
            raw = bytes.fromhex(v)
            data[at:at if kind == "ins" else at + len(raw)] = raw
        elif kind == "del":
            del data[at:at + v]
        elif kind == "dup":
            data[at:at] = data[at:at + v]
        elif kind == "move":
            piece = data[at:at + v]
            del data[at:at + v]
            to = resolve(c[3], marks, len(data))
            data[to:to] = piece
        elif kind == "splice":
            data[at:] = other[min(at, len(other)):]
        elif kind == "cut":
            del data[at:]
    return bytes(data)


def vm_size():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[0]) * resource.getpagesize()


@contextlib.contextmanager
def little_memory(room=1 << 30):
    """Declared sizes may be enormous: let allocations fail early."""
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    lim = vm_size() + room
    if soft != resource.RLIM_INFINITY:
        lim = min(lim, soft)
    resource.setrlimit(resource.RLIMIT_AS, (lim, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))


QUERIES = ["", "a", "ab", "abc", "the", "\u65e5\u672c", "<a>", "zzzzz", "</s>"]


def touch(a):
    """Every byte is there (a mapped file too short would end the process)."""
    if a.size:
        a.min()


def vocab_formed(v, what):
    words = list(v.words)
    require(len(v) == len(words) == len(set(words)) == len(v.word_index),
            lambda: f"{what}: {len(v)} words, {len(set(words))} distinct, index of "
                    f"{len(v.word_index)}")
    for i, w in enumerate(words):
        require(isinstance(w, str), lambda: f"{what}: word {w!r}")
        require(v.idx(w) == i and w in v, lambda: f"{what}: word {i} {w!r} has index {v.idx(w)}")
    bound = v.upper_bound
    require(bound >= len(words), lambda: f"{what}: bound {bound} for {len(words)} words")
    for q in QUERIES:
        ix = v.idx(q)
        flat = [] if ix is None else ix if isinstance(ix, list) else [ix]
        require(all(isinstance(j, int) and 0 <= j < bound for j in flat),
                lambda: f"{what}: indices {flat[:9]} of {q!r} beyond {bound}")
    if hasattr(v, "subword_indexer"):
        ix = v.subword_indexer
        require(1 <= ix.min_n <= ix.max_n, lambda: f"{what}: range {ix.min_n} {ix.max_n}")
        require(ix.upper_bound == bound - len(words), lambda: f"{what}: bounds differ")
        if hasattr(ix, "ngrams"):
            grams, table = list(ix.ngrams), dict(ix.ngram_index)
            require(len(grams) == len(set(grams)) and set(grams) == set(table),
                    lambda: f"{what}: n-gram list and table differ")
            require(set(table.values()) == set(range(ix.upper_bound)),
                    lambda: f"{what}: n-gram indices do not cover 0..{ix.upper_bound - 1}")


def formed(e, what):
    """Internal agreement of loaded embeddings; returns whether all rows can be looked up."""
    with sut(what):
        v, s, norms = e.vocab, e.storage, e.norms
        vocab_formed(v, what + ": vocabulary")
        rows, cols = s.shape
        require(rows == v.upper_bound, lambda: f"{what}: {rows} rows for indices below "
                f"{v.upper_bound}")
        require(e.dims == cols and e.n_words == len(v), lambda: f"{what}: dims {e.dims}, "
                f"words {e.n_words}")
        if norms is not None:
            a = np.asarray(norms)
            require(a.shape == (len(v),) and a.dtype == np.float32,
                    lambda: f"{what}: norms {a.dtype} {a.shape}")
    lookups = True
    quant = type(s).__name__ == "QuantizedArray"
    if not quant:
        with sut(what):
            a = np.asarray(s)
            require(a.shape == (rows, cols) and a.dtype == np.float32,
                    lambda: f"{what}: storage {a.dtype} {a.shape}")
            touch(a)
    for q in list(v.words)[:6] + QUERIES:
        how, got = outcome(lambda: e.embedding(q))
        if how == "err":
            if isinstance(got, MemoryError) or quant and isinstance(got, (IndexError, ValueError)):
                lookups = False
                continue
            fail(f"{what}: lookup of {q!r} raised {type(got).__name__}: {got}")
        if got is None:
            require(q not in v, lambda: f"{what}: no vector for {q!r}")
        else:
            require(np.shape(got) == (cols,), lambda: f"{what}: vector of shape {np.shape(got)}")
    return lookups


def rewrite(e, ctx, what):
    """Written, strictly parsed, loaded again, written again: nothing changes."""
    import finalfusion
    p1, p2 = ctx.path("w1"), ctx.path("w2")
    with sut(what + ": writing"):
        e.metadata = None
        e.write(p1)
        with open(p1, "rb") as f:
            raw = f.read()
    try:
        chunks = M.parse_file(raw)
    except (M.FormatError, ZeroDivisionError) as ex:
        fail(f"{what}: written file is not well-formed: {ex}")
    objs = [c for _, c in chunks]
    O.vocab_equals(e.vocab, objs[0], what + ": as written")
    if objs[1].kind == "nd":
        O.same_bits(e.storage, objs[1].array, what + ": storage as written")
    O.norms_equal(e.norms, objs[2] if len(objs) > 2 else None, what + ": norms as written")
    with sut(what + ": loading what was written"):
        back = finalfusion.load_finalfusion(p1)
        back.write(p2)
    with open(p2, "rb") as f:
        require(f.read() == raw, f"{what}: written, loaded and written again differs")


def strict(data):
    """The model of a file that conforms to the last byte, or None."""
    try:
        chunks = M.parse_file(data)
        ids = [c for c, _ in chunks]
        if ids[:1] == [M.META]:
            ids, chunks = ids[1:], chunks[1:]
        if len(ids) not in (2, 3) or ids[0] not in VOCABS or ids[1] not in (M.NDARRAY, M.PQ) or \
                ids[2:] not in ([], [M.NORMS]):
            return None
        return M.EmbM(chunks[0][1], chunks[1][1], chunks[2][1] if ids[2:] else None)
    except Exception:
        return None


def trivial_size(e):
    return 0 in tuple(e.storage.shape)


def judge_fifu(data, path, ctx, single):
    import finalfusion
    from finalfusion.vocab import load_vocab
    from finalfusion.storage import load_storage
    from finalfusion.norms import load_norms
    from finalfusion.metadata import load_metadata
    with open(path, "wb") as f:
        f.write(data)
    how, e = outcome(lambda: finalfusion.load_finalfusion(path))
    mhow, m = outcome(lambda: finalfusion.load_finalfusion(path, mmap=True))
    what = f"file of {len(data)} bytes"
    for h, x, name in ((how, e, what), (mhow, m, what + " (mmap)")):
        if h == "ok":
            formed(x, name)
    if how != mhow:
        bad = e if how == "err" else m
        ok = m if how == "err" else e
        require(isinstance(bad, MemoryError) or trivial_size(ok),
                lambda: f"{what}: read {how}, mapped {mhow}: {type(bad).__name__} {bad}")
    elif how == "ok":
        require(list(e.vocab.words) == list(m.vocab.words) and e.vocab == m.vocab,
                f"{what}: vocabularies differ when mapped")
        require((e.norms is None) == (m.norms is None), f"{what}: norms when mapped")
        if e.norms is not None:
            O.same_bits(m.norms, np.array(np.asarray(e.norms)), what + ": norms when mapped")
        if type(e.storage).__name__ == "NdArray":
            O.same_bits(m.storage, np.array(np.asarray(e.storage)), what + ": mapped storage")
    if how == "ok":
        sm = strict(data)
        if sm is not None:
            ctx.label("conforming")
            O.vocab_equals(e.vocab, sm.vocab, what)
            if sm.storage.kind == "nd":
                O.same_bits(e.storage, sm.storage.array, what + ": storage")
            else:
                require(e.dims == sm.storage.declared, lambda: f"{what}: {e.dims} dimensions, "
                        f"the file says {sm.storage.declared}")
            O.norms_equal(e.norms, sm.norms, what + ": norms")
        rewrite(e, ctx, what)
    if single:
        h, v = outcome(lambda: load_vocab(path))
        if h == "ok":
            with sut("load_vocab"):
                vocab_formed(v, "load_vocab")
            if how == "ok":
                require(v == e.vocab or hidden(data), "load_vocab differs from load_finalfusion")
        for mm in (False, True):
            h, s = outcome(lambda: load_storage(path, mmap=mm))
            if h == "ok":
                with sut("load_storage"):
                    rows, cols = s.shape
                    require(len(s) == rows, "load_storage: length")
                    if type(s).__name__ == "NdArray":
                        a = np.asarray(s)
                        require(a.shape == (rows, cols), "load_storage: shape")
                        touch(a)
        h, n = outcome(lambda: load_norms(path))
        if h == "ok":
            with sut("load_norms"):
                require(np.asarray(n).ndim == 1 and np.asarray(n).dtype == np.float32,
                        "load_norms: shape")
        h, d = outcome(lambda: load_metadata(path))
        if h == "ok":
            require(type(d).__name__ == "Metadata", f"load_metadata: {type(d)}")
    return how


def hidden(data):
    """Chunk lengths may hide or uncover chunks from the loaders that skip by length."""
    return strict(data) is None


@st.composite
def fifu_strategy(draw):
    a, b = draw(emb()), draw(emb())
    b["vocab"]["words"]["list"] = a["vocab"]["words"]["list"] if draw(st.booleans()) \
        and b["vocab"]["kind"] != "explicit" else b["vocab"]["words"]["list"]
    return dict(a=a, b=b, changes=draw(st.lists(change(), min_size=1, max_size=4)),
                single=draw(st.booleans()))


def fifu_check(case, ctx):
    _, data, offsets, _ = encode(case["a"])
    _, other, _, _ = encode(case["b"])
    raw = apply(data, other, [0] + offsets, case["changes"])
    with little_memory():
        how = judge_fifu(raw, ctx.path("x.fifu"), ctx, case["single"])
    ctx.label("accepted" if how == "ok" else "refused")
    for c in case["changes"]:
        ctx.label(c[0])
    return raw != bytes(data)


TWEAKS = ["dupword", "dupword", "dupgram", "index", "index", "range", "buckets", "chunks",
          "field", "field"]


@st.composite
def assembled_strategy(draw):
    return dict(a=draw(emb()), tweaks=draw(st.lists(st.tuples(
        st.sampled_from(TWEAKS), st.integers(0, 40), st.integers(0, 40),
        st.sampled_from(BOUNDS)), max_size=2)),
        rows=[draw(st.sampled_from(["old", "new", "distinct"])),
              draw(st.sampled_from([0, 0, 1, -1, 2, 7]))],
        norms=draw(st.sampled_from([0, 0, 0, 1, -1, 5])), single=draw(st.booleans()))


def assembled_check(case, ctx):
    """Every chunk is well-formed, but they or their contents contradict each other."""
    em = gen.emb_model(case["a"])
    v = em.vocab
    text = None if case["a"]["doc"] is None else META_TEXT[case["a"]["doc"]][0]
    old = v.bound
    order, fields = None, []
    for name, i, j, value in case["tweaks"]:
        ctx.label(name)
        if name == "dupword":
            v.words.insert(i % (len(v.words) + 1), v.words[j % len(v.words)])
        elif name == "dupgram" and v.kind == "explicit" and v.ngrams:
            at = i % (len(v.ngrams) + 1)
            v.ngrams.insert(at, v.ngrams[j % len(v.ngrams)])
            v.index.insert(at, v.index[i % len(v.index)] if value % 2 else max(v.index) + 1)
        elif name == "index" and v.kind == "explicit" and v.ngrams:
            v.index[i % len(v.index)] = value if j % 2 else len(v.index) + j % 3 - 1
        elif name == "range" and v.kind != "simple":
            if i % 2:
                v.lo = value % (1 << 32)
            else:
                v.hi = value % (1 << 32)
        elif name == "buckets" and v.kind in ("ff", "ft"):
            v.buckets = value % (1 << 32)
        elif name == "chunks":
            order = i, j
        elif name == "field":
            fields.append((i, j))
    new = len(v.words) + (len(v.index) if v.kind == "explicit" else
                          v.n_sub() if v.kind == "simple" or v.buckets < 12 else 0)
    distinct = len(set(v.words)) + (len(set(v.index)) if v.kind == "explicit" else
                                    new - len(v.words))
    rows = max(0, dict(old=old, new=new, distinct=distinct)[case["rows"][0]] + case["rows"][1])
    sm = gen.storage_model(case["a"]["storage"], rows)
    norms = None
    if em.norms is not None:
        n = max(0, (len(v.words) if case["rows"][0] == "new" else len(em.norms)) + case["norms"])
        norms = np.resize(em.norms, n).astype("<f4")
    chunks = M.EmbM(v, sm, norms).chunks(text)
    if order is not None:
        i, j = order
        if i % 3 == 0:
            chunks.insert(j % (len(chunks) + 1), chunks[i % len(chunks)])
        elif i % 3 == 1:
            chunks.pop(j % len(chunks))
        else:
            chunks.insert(j % len(chunks), chunks.pop(i % len(chunks)))
    data, offsets = M.encode_file(chunks)
    data = bytearray(data)
    for i, j in fields:                       # a size declared by the storage
        at = next((o for o, (c, _) in zip(offsets, chunks) if c in (M.NDARRAY, M.PQ)), None)
        if at is not None:
            at += 12 + 4 * (i % (7 if case["a"]["storage"]["kind"] == "pq" else 3))
            size = int.from_bytes(data[at:at + 4], "little") + [1, -1, 2, 3, -2, 4, 256][j % 7]
            data[at:at + 4] = (size % (1 << 32)).to_bytes(4, "little")
    with little_memory():
        how = judge_fifu(bytes(data), ctx.path("x.fifu"), ctx, case["single"])
    ctx.label("accepted" if how == "ok" else "refused")
    return True


def judge_foreign(fmt, data, path, ctx, lossy):
    with open(path, "wb") as f:
        f.write(data)
    how, e = outcome(lambda: F.loader(fmt)(path, lossy=lossy))
    if how == "err":
        return how
    what = f"{fmt} file of {len(data)} bytes"
    formed(e, what)
    with sut(what):
        require(e.norms is not None, f"{what}: no norms")
        require(type(e.vocab).__name__ == ("FastTextVocab" if fmt == "fasttext"
                                           else "SimpleVocab"), f"{what}: {type(e.vocab)}")
    rewrite(e, ctx, what)
    try:                                      # what a strict reader makes of the same bytes
        if fmt == "word2vec":
            words, mat = M.parse_w2v(data)
        elif fmt == "fasttext":
            cfg, words, mat, _ = M.parse_ft(data)
        else:
            words, mat, _ = M.parse_text(data, fmt == "textdims")
    except Exception:
        return how
    style = {"word2vec": "w2v", "fasttext": "ft"}.get(fmt, "text")
    if not all(gen.ok_word(w, style) for w in words) or fmt == "textdims" and \
            mat.shape[0] != e.n_words:
        return how
    ctx.label("conforming")
    require(list(e.vocab.words) == words, lambda: f"{what}: words {list(e.vocab.words)[:9]!r}, "
            f"expected {words[:9]!r}")
    if fmt != "fasttext" and len(words) and np.isfinite(mat).all() and (np.abs(mat) < 1e15).all() and \
            not ((mat != 0) & (np.abs(mat) < 1e-15)).any():
        F.loaded(e, words, mat, what)
    return how


@st.composite
def foreign_strategy(draw):
    fmt = draw(st.sampled_from(["word2vec", "text", "textdims", "fasttext"]))
    return dict(a=spec(draw, fmt), b=spec(draw, fmt),
                changes=draw(st.lists(change(), min_size=1, max_size=4)))


def foreign_bytes(case):
    vm, matrix = parts(case)
    fmt = case["fmt"]
    if fmt == "fasttext":
        return M.encode_ft(cfg_of(case, vm), vm.words, matrix)
    if fmt == "word2vec":
        return M.encode_w2v(vm.words, matrix)
    return text_lines(vm.words, matrix, fmt == "textdims")


def foreign_check(case, ctx):
    data, other = foreign_bytes(case["a"]), foreign_bytes(case["b"])
    fmt = case["a"]["fmt"]
    if fmt == "fasttext":
        marks = [0, 8, 56, 88, data.rfind(b"\0\0\0", 0, max(88, len(data) - 40)) % len(data)]
    else:
        marks = [0] + [i + 1 for i, b in enumerate(data) if b == 10][:5]
    raw = apply(data, other, marks, case["changes"])
    with little_memory():
        how = judge_foreign(fmt, raw, ctx.path("x.bin"), ctx, case["a"]["lossy"])
    ctx.label(fmt + (" accepted" if how == "ok" else " refused"))
    return raw != bytes(data)


@st.composite
def prefix_strategy(draw):
    fmt = draw(st.sampled_from(["word2vec", "text", "textdims", "fasttext", "fasttext"]))
    return dict(a=spec(draw, fmt), seed=draw(st.integers(0, 999)),
                flip=draw(st.one_of(st.none(), st.integers(0, 999))))


def prefix_check(case, ctx):
    """Beginnings of one file, intact or with one bit flipped."""
    data = bytearray(foreign_bytes(case["a"]))
    if case["flip"] is not None and data:
        data[case["flip"] % len(data)] ^= 1 << case["seed"] % 8
    n = len(data)
    cuts = list(range(n)) if n <= 150 else \
        np.random.RandomState(case["seed"]).randint(0, n, size=150).tolist()
    with little_memory():
        for cut in cuts:
            how = judge_foreign(case["a"]["fmt"], bytes(data[:cut]), ctx.path("x.bin"), ctx,
                                case["a"]["lossy"])
    ctx.label(case["a"]["fmt"])
    return n > 0


TOKENS = ["a", "b", "\u00e4", "1", "2", "0", "-1", "2.5", "1e3", "nan", "inf", "-inf", "1e400",
          "1e-400", "0x1", "1_0", "\u00b2", "\u0661", "+1", ".5", "5.", "e", "--1", "1,5", "",
          "\ufeff", "\u00a0", "</s>"]
SEPS = [" ", " ", " ", " ", "\n", "\n", "\n", "\t", "  ", "\r\n", "\r", "\x0b", "\x0c", "\u00a0",
        "\u2028", "\x85", "\x1c", "\0"]


@st.composite
def token_strategy(draw):
    n = draw(st.integers(0, 24))
    toks = draw(st.lists(st.sampled_from(TOKENS), min_size=n, max_size=n))
    seps = draw(st.lists(st.sampled_from(SEPS), min_size=n, max_size=n))
    return dict(fmt=draw(st.sampled_from(["word2vec", "text", "textdims"])), toks=toks, seps=seps,
                head=draw(st.sampled_from([None, "1 1", "2 1", "2 2", "0 0", "3 0", "0 3", "-1 1",
                                           "1 -1", "1 2 3", "2", "", "2\t1", " 2 1 ", "2.0 1",
                                           "99999999999999999999 1", "1 4294967296", "\u0662 1"])),
                lossy=draw(st.booleans()))


def token_check(case, ctx):
    data = "".join(t + s for t, s in zip(case["toks"], case["seps"])).encode("utf-8")
    if case["head"] is not None:
        data = case["head"].encode("utf-8") + b"\n" + data
    with little_memory():
        how = judge_foreign(case["fmt"], data, ctx.path("x.txt"), ctx, case["lossy"])
    ctx.label(case["fmt"] + (" accepted" if how == "ok" else " refused"))
    return len(data) > 0


SUBS = [
    Sub("fifu", fifu_strategy, fifu_check, "a conforming file after one to four changes (fields "
        "overwritten with boundary values, bytes flipped, slices inserted, removed, repeated, "
        "moved, spliced from another file, cut); non-trivial: the bytes differ.", 8000),
    Sub("assembled", assembled_strategy, assembled_check, "files of well-formed chunks whose "
        "words, n-grams, indices, sizes or order contradict each other; all count.", 5000),
    Sub("foreign", foreign_strategy, foreign_check, "the same for word2vec, text, text-dims and "
        "fastText files.", 8000),
    Sub("prefix", prefix_strategy, prefix_check, "up to 150 beginnings of one such file each, "
        "intact or with one bit flipped; all count.", 400),
    Sub("tokens", token_strategy, token_check, "files of random words, numbers and separators; "
        "non-trivial: not empty.", 6000),
]
