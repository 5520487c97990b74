"""Shared pieces for the word2vec, text and fastText checks."""
import numpy as np

from . import model as M, oracle as O
from .core import require, fail, sut

FORMATS = ("word2vec", "text", "textdims", "fasttext")


def loader(fmt):
    from finalfusion import compat, load_finalfusion
    if fmt == "finalfusion":
        return lambda p, lossy=False: load_finalfusion(p)
    return {"word2vec": compat.load_word2vec, "text": compat.load_text,
            "textdims": compat.load_text_dims, "fasttext": compat.load_fasttext}[fmt]


def writer(fmt):
    from finalfusion import compat
    if fmt == "finalfusion":
        return lambda p, e: e.write(p)
    return {"word2vec": compat.write_word2vec, "text": compat.write_text,
            "textdims": compat.write_text_dims, "fasttext": compat.write_fasttext}[fmt]


def products(em):
    """Un-normalized vectors of the known words: (float32 exact or None,
    float64, tolerance)."""
    n = len(em.vocab.words)
    with np.errstate(all="ignore"):
        d, s = em.dense()[:n], em.scale()[:n]
        exact = em.storage.array[:n] if em.storage.kind == "nd" else None
        if em.norms is not None:
            f = em.norms.astype(np.float64)[:, None]
            d, s = d * f, s * np.abs(f)
            if exact is not None:        # the float64 product is exact
                exact = (exact.astype(np.float64) * f).astype("<f4")
    return exact, d, 4e-6 * s + 1e-37


def same_or_nan(got, want, what):
    """Bit-identical, or NaN in both (a product may change a NaN's payload)."""
    got = np.asarray(got)
    require(got.shape == want.shape, lambda: f"{what}: shape {got.shape}, expected {want.shape}")
    bad = (O.bits(got) != np.ascontiguousarray(want).view("<u4")) & \
        ~(np.isnan(got) & np.isnan(want))
    if bad.any():
        at = tuple(int(x) for x in np.argwhere(bad)[0])
        fail(f"{what}: at {at} got {got[at]!r}, expected {want[at]!r}")


def rows_equal(got, em, what):
    """A float32 matrix of un-normalized vectors against the embeddings."""
    exact, d, tol = products(em)
    require(tuple(got.shape) == d.shape, lambda: f"{what}: shape {got.shape}, "
            f"expected {d.shape}")
    if exact is not None:
        same_or_nan(got, exact, what)
    else:
        ok = np.isfinite(d) & np.isfinite(tol) & (np.abs(d) < 1e38)
        O.close(np.where(ok, got, 0), np.where(ok, d, 0), np.where(ok, tol, 0), what)


def loaded(e, words, matrix, what):
    """Embeddings loaded from a file with these words and un-normalized vectors."""
    n, dims = matrix.shape
    O.vocab_equals(e.vocab, M.VocabM("simple", words), what + " vocab")
    with sut(what):
        s, norms = np.asarray(e.storage), e.norms
        require(type(e.storage).__name__ == "NdArray", lambda: f"{what}: {type(e.storage)}")
        require(s.shape == (n, dims), lambda: f"{what}: shape {s.shape}, expected {(n, dims)}")
        require(norms is not None and type(norms).__name__ == "Norms", f"{what}: no norms")
        require(len(norms) == n and np.asarray(norms).dtype == np.float32, f"{what}: norms")
        norms = np.array(norms, dtype=np.float64)
    unit_rows(s, norms, matrix.astype(np.float64), 1e-6 * np.abs(matrix.astype(np.float64)) +
              1e-37, what, words)


def unit_rows(s, norms, ref, tol, what, words):
    """s * norms == ref within tol; rows of s have length one, or zero where ref is zero."""
    require(np.isfinite(s).all() and np.isfinite(norms).all(), lambda: f"{what}: not finite")
    s = s.astype(np.float64)
    O.close(s * norms[:, None], ref, tol, f"{what}: vectors times norms")
    length = np.sqrt((s ** 2).sum(1))
    true = np.sqrt((ref ** 2).sum(1))
    slack = np.sqrt((np.broadcast_to(tol, ref.shape) ** 2).sum(1))
    for i in range(len(s)):
        if true[i] == 0 and slack[i] < 1e-30:
            require(length[i] == 0 and norms[i] == 0, lambda: f"{what}: zero vector of "
                    f"{words[i]!r} became {s[i]} with norm {norms[i]}")
        elif true[i] > 3 * slack[i]:
            require(abs(length[i] - 1) < 2e-5, lambda: f"{what}: vector of {words[i][:20]!r} "
                    f"has length {length[i]}")
            require(abs(norms[i] - true[i]) <= 1e-5 * true[i] + 2 * slack[i],
                    lambda: f"{what}: norm {norms[i]}, expected {true[i]}")


# ----------------------------------------------------------------- fastText ---
def ft_input(em):
    """Input matrix of the fastText model that gives em: (float64, tolerance)."""
    n, words = len(em.vocab.words), em.vocab.words
    d, s = em.dense().copy(), em.scale().copy()
    tol = 4e-6 * s if em.storage.kind == "pq" else np.zeros(s.shape)
    out = d.copy()
    for i, w in enumerate(words):
        rows = [j for _, j in em.vocab.sub(w, n)]
        m = len(rows)
        f = float(em.norms[i]) if em.norms is not None else 1.0
        own, sub = d[i] * f * (m + 1), d[rows].sum(0)
        out[i] = own - sub
        tol[i] = 3e-7 * (m + 8) * (s[i] * abs(f) * (m + 1) + s[rows].sum(0)) + tol[i] * \
            abs(f) * (m + 1) + (tol[rows].sum(0) if em.storage.kind == "pq" else 0)
    return out, tol + 1e-37


def ft_loaded(e, vm, matrix, what, extra=0):
    """e as loaded from a fastText model with vocabulary vm and input matrix.
    extra: additional tolerance on the input matrix."""
    n = len(vm.words)
    O.vocab_equals(e.vocab, vm, what + " vocab")
    m64 = np.asarray(matrix).astype(np.float64)
    extra = np.broadcast_to(extra, m64.shape)
    avg = M.ft_average(vm, m64)
    tol = np.zeros(avg.shape)
    for i, w in enumerate(vm.words):
        rows = [i] + [j for _, j in vm.sub(w, n)]
        tol[i] = 1.5e-7 * (len(rows) + 4) * np.abs(m64[rows]).mean(0) + extra[rows].mean(0) \
            + 1e-37
    with sut(what):
        s = np.asarray(e.storage)
        require(s.shape == m64.shape, lambda: f"{what}: shape {s.shape}, expected {m64.shape}")
        require(type(e.storage).__name__ == "NdArray", lambda: f"{what}: {type(e.storage)}")
        if extra.any():
            O.close(s[n:], m64[n:], extra[n:] + 1e-37, what + " bucket rows")
        else:
            O.same_bits(s[n:], np.asarray(matrix)[n:], what + " bucket rows")
        norms = e.norms
        require(norms is not None and len(norms) == n, f"{what}: norms")
        unit_rows(s[:n], np.array(norms, dtype=np.float64), avg, tol, what, vm.words)
