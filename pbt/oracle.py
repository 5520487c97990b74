"""Shared comparisons between finalfusion objects and the reference models."""
import numpy as np

from . import model as M
from .core import Violation, require, fail, sut


def bits(a):
    """Bit pattern of a float32 array, byte order normalized."""
    a = np.asarray(a)
    require(a.dtype.kind == "f" and a.dtype.itemsize == 4,
            lambda: f"expected float32 data, got {a.dtype}")
    return np.ascontiguousarray(a.astype("<f4", copy=False) if a.dtype.isnative
                                or a.dtype.str == "<f4"
                                else a.byteswap().view(a.dtype.newbyteorder())
                                ).view("<u4")


def same_bits(got, want, what):
    got = np.asarray(got)
    require(tuple(got.shape) == tuple(want.shape),
            lambda: f"{what}: shape {got.shape}, expected {want.shape}")
    g, w = bits(got), np.ascontiguousarray(want).view("<u4")
    if not np.array_equal(g, w):
        at = tuple(int(x) for x in np.argwhere(g != w)[0])
        fail(f"{what}: differs at {at}: got bits {int(g[at]):#x}, "
             f"expected {int(w[at]):#x}")


TINY = 1e-15     # below, squares are subnormal in float32 and lengths inexact


def close(got, want, tol, what):
    """|got - want| <= tol elementwise; NaN nowhere."""
    got = np.asarray(got)
    require(tuple(got.shape) == tuple(np.shape(want)),
            lambda: f"{what}: shape {got.shape}, expected {np.shape(want)}")
    d = np.abs(got.astype(np.float64) - want)
    bad = ~(d <= tol)
    if np.any(bad):
        at = tuple(int(x) for x in np.argwhere(np.atleast_1d(bad))[0])
        fail(f"{what}: at {at} got {np.atleast_1d(got)[at]!r}, expected "
             f"{np.atleast_1d(want)[at]!r} (tolerance {np.max(tol):.3g})")


KIND_CLASS = dict(simple="SimpleVocab", ff="FinalfusionBucketVocab",
                  ft="FastTextVocab", explicit="ExplicitVocab")


def vocab_equals(v, vm, what="vocab"):
    """All public accessors of a vocabulary against the model."""
    with sut(what):
        require(type(v).__name__ == KIND_CLASS[vm.kind],
                lambda: f"{what}: type {type(v).__name__}, expected {vm.kind}")
        require(list(v.words) == vm.words, lambda: f"{what}: words {list(v.words)[:20]!r}"
                f" expected {vm.words[:20]!r}")
        require(dict(v.word_index) == vm.pos, lambda: f"{what}: word index differs")
        require(len(v) == len(vm.words), lambda: f"{what}: len {len(v)}")
        require(v.upper_bound == vm.bound,
                lambda: f"{what}: upper bound {v.upper_bound}, expected {vm.bound}")
        if vm.kind == "simple":
            return
        require((v.min_n, v.max_n) == (vm.lo, vm.hi),
                lambda: f"{what}: n-gram range {(v.min_n, v.max_n)}, expected {(vm.lo, vm.hi)}")
        ix = v.subword_indexer
        require((ix.min_n, ix.max_n) == (vm.lo, vm.hi), lambda: f"{what}: indexer range")
        require(ix.upper_bound == vm.n_sub(),
                lambda: f"{what}: indexer bound {ix.upper_bound}, expected {vm.n_sub()}")
        if vm.kind == "ff":
            require(ix.buckets_exp == vm.buckets, lambda: f"{what}: bucket exponent "
                    f"{ix.buckets_exp}, expected {vm.buckets}")
        elif vm.kind == "ft":
            require(ix.n_buckets == vm.buckets, lambda: f"{what}: buckets "
                    f"{ix.n_buckets}, expected {vm.buckets}")
        else:
            require(list(ix.ngrams) == vm.ngrams, lambda: f"{what}: n-grams "
                    f"{list(ix.ngrams)[:20]!r} expected {vm.ngrams[:20]!r}")
            require(dict(ix.ngram_index) == vm.table,
                    lambda: f"{what}: n-gram index differs")


def storage_equals(s, sm, what="storage", dense=True):
    """Storage contents, bit for bit where stored, within rounding where computed."""
    with sut(what):
        if sm.kind == "nd":
            require(type(s).__name__ == "NdArray", lambda: f"{what}: {type(s)}")
            require(tuple(s.shape) == sm.shape,
                    lambda: f"{what}: shape {s.shape}, expected {sm.shape}")
            same_bits(s, sm.array, what)
            return
        require(type(s).__name__ == "QuantizedArray", lambda: f"{what}: {type(s)}")
        require(tuple(s.shape) == sm.shape,
                lambda: f"{what}: shape {s.shape}, expected {sm.shape}")
        require(len(s) == sm.shape[0], lambda: f"{what}: len {len(s)}")
        q = s.quantizer
        require(q.n_centroids == sm.quantizers.shape[1], lambda: f"{what}: centroids")
        require(q.reconstructed_len == sm.shape[1], lambda: f"{what}: reconstructed_len")
        require(s.quantized_len == sm.codes.shape[1], lambda: f"{what}: quantized_len")
        same_bits(q.subquantizers, sm.quantizers, what + " quantizers")
        require((q.projection is None) == (sm.projection is None),
                lambda: f"{what}: projection presence")
        if sm.projection is not None:
            same_bits(q.projection, sm.projection, what + " projection")
        if dense:
            tame = all(np.isfinite(x).all() and (np.abs(x) < 1e9).all() for x in
                       (sm.quantizers, sm.projection, sm.norms) if x is not None)
            if tame:
                close(np.asarray(s), sm.dense(), 4e-6 * sm.scale() + 1e-37,
                      what + " as matrix")


def parsed_storage_equals(got, want, what):
    """Two storage models, bit for bit."""
    require(got.kind == want.kind, lambda: f"{what}: kind {got.kind}")
    if got.kind == "nd":
        same_bits(got.array, want.array, what)
        return
    same_bits(got.quantizers, want.quantizers, what + " quantizers")
    require((got.projection is None) == (want.projection is None), f"{what}: projection")
    if want.projection is not None:
        same_bits(got.projection, want.projection, what + " projection")
    require((got.norms is None) == (want.norms is None), f"{what}: norms")
    if want.norms is not None:
        same_bits(got.norms, want.norms, what + " norms")
    require(got.codes.shape == want.codes.shape and
            np.array_equal(got.codes, want.codes), lambda: f"{what}: codes differ")


def norms_equal(n, want, what="norms"):
    if want is None:
        require(n is None, lambda: f"{what}: unexpectedly present")
        return
    require(n is not None, lambda: f"{what}: missing")
    require(type(n).__name__ == "Norms", lambda: f"{what}: {type(n)}")
    same_bits(n, want, what)


def meta_equal(m, want, what="metadata"):
    from .gen import same
    if want is None:
        require(m is None, lambda: f"{what}: unexpectedly present: {m!r}")
        return
    require(m is not None, lambda: f"{what}: missing")
    require(type(m).__name__ == "Metadata", lambda: f"{what}: {type(m)}")
    require(same(dict(m), want), lambda: f"{what}: {dict(m)!r}, expected {want!r}")


def emb_equals(e, em, what="embeddings"):
    vocab_equals(e.vocab, em.vocab, what + " vocab")
    storage_equals(e.storage, em.storage, what + " storage")
    norms_equal(e.norms, em.norms, what + " norms")
    meta_equal(e.metadata, em.meta, what + " metadata")
    with sut(what):
        require(e.dims == em.storage.shape[1], lambda: f"{what}: dims {e.dims}")
        require(e.n_words == len(em.vocab.words), lambda: f"{what}: n_words {e.n_words}")


def check_vector(got, ref, what):
    """A looked-up vector against EmbM.lookup's reference; returns nothing."""
    want, length, err, kind = ref
    got = np.asarray(got)
    require(got.ndim == 1, lambda: f"{what}: {got.ndim}-d result")
    if kind == "known":
        close(got, want, err, what)
        return
    require(np.isfinite(got).all(), lambda: f"{what}: not finite: {got}")
    require(got.shape == want.shape, lambda: f"{what}: shape {got.shape}")
    if length == 0:
        if np.all(err <= 1e-36):         # sum of zero rows: stays zero
            require(not got.any(), lambda: f"{what}: {got}, expected zeros")
        else:                            # rounding may leave a remainder
            size = float(np.sqrt((got.astype(np.float64) ** 2).sum()))
            require(size == 0 or abs(size - 1) < 1e-4, lambda: f"{what}: length {size}")
        return
    rel = float(np.sqrt((err ** 2).sum())) / length
    if rel > 0.02 or length < TINY:
        return                       # ill-conditioned: direction not determined
    close(got, want / length, 3 * rel + 1e-6, what)


def check_norm(got, ref, what):
    _, length, err, kind = ref
    if kind == "known":
        require(np.float32(got) == np.float32(length) or
                (np.isnan(length) and np.isnan(got)),
                lambda: f"{what}: norm {got}, expected {length}")
        return
    tol = 2 * float(np.sqrt((err ** 2).sum())) + 1e-6 * length + 1e-18
    require(abs(float(got) - length) <= tol,
            lambda: f"{what}: norm {got}, expected {length}")


def check_neighbours(res, em, qvec, qtol, k, skip, what):
    """res against the exhaustive float64 ranking.  qvec float64, qtol the
    elementwise uncertainty of the query vector."""
    n = len(em.vocab.words)
    d, s = em.dense()[:n], em.scale()[:n]
    ref = d @ qvec
    tol = 1e-5 * (s @ np.abs(qvec)) + s @ np.broadcast_to(qtol, qvec.shape) + 1e-30
    eligible = [i for i in range(n) if em.vocab.words[i] not in skip]
    require(res is not None, lambda: f"{what}: None")
    require(isinstance(res, list), lambda: f"{what}: {type(res)}")
    require(len(res) == min(k, len(eligible)),
            lambda: f"{what}: {len(res)} results, expected {min(k, len(eligible))}")
    seen, last = set(), None
    for r in res:
        w, sim = r.word, float(r.similarity)
        require(w in em.vocab.pos, lambda: f"{what}: unknown word {w!r}")
        i = em.vocab.pos[w]
        require(w not in skip, lambda: f"{what}: excluded word {w!r} returned")
        require(i not in seen, lambda: f"{what}: {w!r} returned twice")
        seen.add(i)
        require(abs(sim - ref[i]) <= tol[i],
                lambda: f"{what}: similarity of {w!r} is {sim}, expected {ref[i]}")
        require(last is None or sim <= last,
                lambda: f"{what}: not in descending order at {w!r}: {sim} after {last}")
        last = sim
    if res:
        low = min(ref[i] + tol[i] for i in seen)
        for i in eligible:
            if i not in seen:
                require(ref[i] - tol[i] <= low,
                        lambda: f"{what}: {em.vocab.words[i]!r} ({ref[i]}) left out, "
                                f"although {low} was returned")


def query_vec(em, word):
    """(float64 vector, elementwise tolerance) of the vector a lookup of `word`
    gives, or None."""
    ref = em.lookup(word)
    if ref is None:
        return None
    want, length, err, kind = ref
    if kind == "known":
        return want, np.broadcast_to(err, want.shape)
    zeros = np.zeros(want.shape)
    if length == 0 and np.all(err <= 1e-36):
        return zeros, zeros
    rel = float(np.sqrt((err ** 2).sum())) / length if length else 1.0
    if rel > 0.02 or length < TINY:      # a unit vector, direction undetermined
        return zeros, zeros + 1.0001
    return want / length, zeros + 3 * rel + 1e-6


def analogy_vec(em, a, b, c):
    """The same for the unit-length vector of b - a + c."""
    vs = [query_vec(em, w) for w in (a, b, c)]
    if any(v is None for v in vs):
        return None
    (va, ta), (vb, tb), (vc, tc) = vs
    d = vb - va + vc
    mag = np.abs(va) + np.abs(vb) + np.abs(vc)
    tol = ta + tb + tc + 3e-7 * mag
    length = float(np.sqrt((d ** 2).sum()))
    if not mag.any() and not tol.any():
        return d, tol
    rel = float(np.sqrt((tol ** 2).sum())) / length if length else 1.0
    if rel > 0.02 or length < TINY:
        return np.zeros(d.shape), np.zeros(d.shape) + 1.0001
    return d / length, np.zeros(d.shape) + 3 * rel + 1e-6


def explicit_of(em, e2, what="explicit"):
    """Check e2 as the explicit conversion of em; returns e2's model."""
    src = em.vocab
    with sut(what):
        vm = explicit_vocab_of(src, e2.vocab, what + " vocab")
        n = len(src.words)
        require(type(e2.storage).__name__ == "NdArray", lambda: f"{what}: {type(e2.storage)}")
        require(tuple(e2.storage.shape) == (vm.bound, em.storage.shape[1]),
                lambda: f"{what}: storage shape {e2.storage.shape}")
        got = np.array(np.asarray(e2.storage))
    rows = list(range(n)) + [0] * vm.n_sub()
    for g, i in vm.table.items():
        rows[n + i] = n + src.bucket(g)
    if em.storage.kind == "nd":
        same_bits(got, em.storage.array[rows], what + " storage")
    else:
        close(got, em.dense()[rows], 4e-6 * em.scale()[rows] + 1e-37, what + " storage")
    norms_equal(e2.norms, em.norms, what + " norms")
    return M.EmbM(vm, M.NdM(got), em.norms, None)


def explicit_vocab_of(src, v2, what="explicit vocab"):
    require(type(v2).__name__ == "ExplicitVocab", lambda: f"{what}: {type(v2).__name__}")
    grams = list(v2.subword_indexer.ngrams)
    table = dict(v2.subword_indexer.ngram_index)
    want = {}
    for w in src.words:
        for g in M.ngrams(w, src.lo, src.hi, True):
            want[g] = src.bucket(g)
    require(len(grams) == len(set(grams)), lambda: f"{what}: repeated n-grams")
    require(set(grams) == set(want), lambda: f"{what}: n-grams "
            f"{sorted(set(grams) ^ set(want))[:5]!r} listed wrongly or missing")
    require(set(table) == set(grams), lambda: f"{what}: table and list differ")
    pairs = set((want[g], table[g]) for g in grams)
    require(len(pairs) == len(set(b for b, _ in pairs)) == len(set(i for _, i in pairs)),
            lambda: f"{what}: sharing of rows differs from sharing of buckets")
    require(set(table.values()) == set(range(len(pairs))),
            lambda: f"{what}: row numbers are not 0..{len(pairs) - 1}")
    vm = M.VocabM("explicit", src.words, src.lo, src.hi, None, grams,
                  [table[g] for g in grams])
    vocab_equals(v2, vm, what)
    return vm
