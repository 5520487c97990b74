"""C04: damaged finalfusion files are rejected, never misread."""
import os
import struct

from hypothesis import strategies as st

from .. import gen, model as M, oracle as O
from ..core import Sub, require, fail, rejects, outcome, sut
from .c02 import META_TEXT, same_chunk
from .c21 import BAD

LEVEL = "fault_enumeration"
ASSUMPTIONS = ["Embeddings have at least one word and one dimension, so that every chunk "
               "carries data in its last bytes.",
               "Any exception counts as rejection."]
VOCABS = (M.SIMPLE, M.BUCKET, M.FASTTEXT, M.EXPLICIT)


@st.composite
def emb(draw):
    case = draw(gen.emb_case(lo=1, hi=5, big=False, bulk=False, long=False, meta=False,
                             fills=("normal", "bits"), pqfills=("normal", "bits")))
    case["doc"] = draw(st.one_of(st.none(), st.integers(1, len(META_TEXT) - 1)))
    if case["storage"]["kind"] == "nd" and case["vocab"]["kind"] != "simple":
        case["storage"]["cols"] = min(case["storage"]["cols"], 3)
    return case


def encode(case):
    em = gen.emb_model(case)
    text, em.meta = (None, None) if case["doc"] is None else META_TEXT[case["doc"]]
    chunks = em.chunks(text)
    data, offsets = M.encode_file(chunks)
    refs = [(cid, obj, em.meta if cid == M.META else None) for cid, obj in chunks]
    return em, data, offsets, refs


def single_loaders():
    from finalfusion.vocab import load_vocab
    from finalfusion.storage import load_storage
    from finalfusion.norms import load_norms
    from finalfusion.metadata import load_metadata
    return [("load_vocab", load_vocab, VOCABS),
            ("load_storage", load_storage, (M.NDARRAY, M.PQ)),
            ("load_storage(mmap)", lambda p: load_storage(p, mmap=True), (M.NDARRAY, M.PQ)),
            ("load_norms", load_norms, (M.NORMS,)),
            ("load_metadata", load_metadata, (M.META,))]


@st.composite
def cut_strategy(draw):
    case = draw(emb())
    case["cutseed"] = draw(st.integers(0, 999))
    case["single"] = draw(st.booleans())
    return case


@st.composite
def large_cut(draw):
    return draw(gen.large(draw(cut_strategy()), far=False, budget=200000))


def cut_check(case, ctx):
    import numpy as np
    import finalfusion
    em, data, offsets, refs = encode(case)
    n = len(data)
    if n <= 700:
        cuts = set(range(n))
    else:
        few = n > 20000
        rng = np.random.RandomState(case["cutseed"])
        cuts = set(int(x) for x in rng.randint(0, n, size=12 if few else 300))
        for o in offsets + [n]:
            near = (-8, -4, -1, 0, 1, 4, 11, 12, 20, 24, 28, 32) if few else range(-8, 45)
            cuts.update(o + c for c in near if 0 <= o + c < n)
        if few:
            cuts.update(range(4096, n, n // 12 // 4096 * 4096 + 4096))
    norms_at = offsets[-1] if refs[-1][0] == M.NORMS else None
    path = ctx.path("t.fifu")
    with open(path, "wb") as f:
        f.write(data)
    with sut("loading the intact file"):
        O.emb_equals(finalfusion.load_finalfusion(path), em, "intact")
    ends = offsets[1:] + [n]
    for cut in sorted(cuts, reverse=True):
        os.truncate(path, cut)
        for mm in (False, True):
            what = f"file of {n} bytes cut to {cut} (mmap={mm})"
            how, got = outcome(lambda: finalfusion.load_finalfusion(path, mmap=mm))
            if cut == norms_at:
                if how == "ok":
                    part = M.EmbM(em.vocab, em.storage, None, em.meta)
                    O.emb_equals(got, part, what)
            elif how == "ok":
                fail(f"{what}: loaded without an error")
            if how == "ok":
                del got
        if case["single"]:
            for name, fn, ids in single_loaders():
                at = next((i for i, r in enumerate(refs) if r[0] in ids), None)
                how, got = outcome(lambda: fn(path))
                if how == "err":
                    continue
                what = f"{name} of a file of {n} bytes cut to {cut}"
                if at is None or cut < ends[at]:
                    fail(f"{what}: loaded without an error")
                same_chunk(got, *refs[at], what)
                del got
    ctx.label("cut points", len(cuts))
    ctx.label("every byte" if n <= 700 else "sampled cuts")
    ctx.label(f"{em.vocab.kind}/{em.storage.kind}")
    return True


@st.composite
def field_strategy(draw):
    case = draw(emb())
    case["what"] = draw(st.sampled_from(["magic", "version", "type", "type", "vocab_id",
                                         "storage_id", "norms_id", "first_id"]))
    case["value"] = draw(st.one_of(st.integers(0, 12), st.sampled_from(
        [255, 256, 10 << 8, 10 << 24, 266, 0x46694675, (1 << 32) - 1, 1 << 31]),
        st.integers(0, (1 << 32) - 1)))
    case["byte"] = draw(st.integers(0, 3))
    case["which"] = draw(st.integers(0, 1))
    return case


def field_check(case, ctx):
    import finalfusion
    em, data, offsets, refs = encode(case)
    ids = [r[0] for r in refs]
    value, raw = case["value"], bytearray(data)
    what = case["what"]
    touched = None
    if what == "magic":
        flip = (value % 255) + 1
        raw[case["byte"]] ^= flip
    elif what == "version":
        if value == 0:
            value = 1
        struct.pack_into("<I", raw, 4, value)
    elif what == "type":
        slots = []
        for off, cid in zip(offsets, ids):
            if cid == M.NDARRAY:
                slots.append((off + 12 + 12, 10, cid))
            elif cid == M.NORMS:
                slots.append((off + 12 + 8, 10, cid))
            elif cid == M.PQ:
                slots += [(off + 12 + 28, 1, cid), (off + 12 + 32, 10, cid)]
        pos, right, touched = slots[case["which"] % len(slots)] if case["byte"] else slots[-1]
        if value == right:
            value = 11 - right
        struct.pack_into("<I", raw, pos, value)
    else:
        k = 1 if ids[0] == M.META else 0
        if what == "vocab_id":
            off, ok = offsets[k], set(VOCABS) | ({M.META} if k == 0 else set())
        elif what == "storage_id":
            off, ok = offsets[k + 1], {M.NDARRAY, M.PQ}
        elif what == "norms_id":
            if em.norms is None:
                return False
            off, ok = offsets[-1], {M.NORMS}
        else:
            off, ok = offsets[0], set(VOCABS) | {M.META}
        if value in ok:
            value = {M.NDARRAY: 3, M.PQ: 6}.get(value, 2)
        require_diff = value not in ok
        assert require_diff
        struct.pack_into("<I", raw, off, value)
    path = ctx.path("d.fifu")
    with open(path, "wb") as f:
        f.write(raw)
    for mm in (False, True):
        rejects(f"load_finalfusion(mmap={mm}) of a file with wrong {what} ({value})",
                lambda: finalfusion.load_finalfusion(path, mmap=mm))
    for name, fn, want in single_loaders():
        if what in ("magic", "version") or (what == "type" and touched in want):
            rejects(f"{name} of a file with wrong {what} ({value})", lambda: fn(path))
    ctx.label(what)
    return True


@st.composite
def utf8_strategy(draw):
    case = draw(emb())
    case["bad"] = draw(st.sampled_from(BAD))
    case["at"] = draw(st.integers(0, 40))
    case["pos"] = draw(st.integers(0, 8))
    case["where"] = draw(st.sampled_from(["word", "word", "ngram", "meta"]))
    return case


def utf8_check(case, ctx):
    """Words, n-grams or metadata holding bytes that are not UTF-8."""
    import finalfusion
    em = gen.emb_model(case)
    bad = bytes.fromhex(case["bad"])
    where = case["where"]
    if where == "ngram" and not (em.vocab.kind == "explicit" and em.vocab.ngrams):
        where = "word"
    text = None if case["doc"] is None else META_TEXT[case["doc"]][0].encode("utf-8")
    if where == "meta":
        text = (text or b"") + b'\nzz = "' + bad + b'"\n'
        want = [("load_metadata", M.META)]
    else:
        items = em.vocab.words if where == "word" else em.vocab.ngrams
        at = case["at"] % len(items)
        raw = items[at].encode("utf-8")
        raw = raw[:case["pos"]] + bad + raw[case["pos"]:]
        try:
            raw.decode("utf-8")
            return False                            # happens to be well-formed
        except UnicodeDecodeError:
            pass
        items[at] = raw.decode("utf-8", "surrogateescape")
        want = [("load_vocab", em.vocab.kind)]
    data, _ = M.encode_file(em.chunks(text))
    path = ctx.path("u.fifu")
    with open(path, "wb") as f:
        f.write(data)
    for mm in (False, True):
        rejects(f"load_finalfusion(mmap={mm}) with {bad!r} in a {where}",
                lambda: finalfusion.load_finalfusion(path, mmap=mm))
    for name, fn, _ in single_loaders():
        if name == want[0][0]:
            rejects(f"{name} with {bad!r} in a {where}", lambda: fn(path))
    ctx.label(where)
    return True


SUBS = [
    Sub("utf8", utf8_strategy, utf8_check, "malformed UTF-8 in a word, n-gram or the metadata; "
        "non-trivial: the bytes are malformed in their place.", 1500),
    Sub("cut", cut_strategy, cut_check, "each case is a file, loaded after truncation at every "
        "byte (files over 700 bytes: 300 random cuts and all chunk boundaries); all are "
        "non-trivial.", 1200),
    Sub("large", large_cut, cut_check, "as cut, with hundreds to 5000 words and some 60 cuts.", 32),
    Sub("field", field_strategy, field_check, "one identifying field replaced by a wrong "
        "value; non-trivial: the field exists in the file.", 4000),
]
