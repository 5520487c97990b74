"""Files of several gigabytes whose matrices are holes except for a few rows."""
import contextlib
import resource
import struct

import numpy as np
from hypothesis import strategies as st

from . import gen, model as M

SIZES = [(1 << 31) - 5000, 1 << 31, (1 << 31) + 5000, 3 << 30, (1 << 32) - 5000, 1 << 32,
         (1 << 32) + 5000, (1 << 32) + (1 << 29)]


class Rows:
    """Rows by index; all others are zero."""
    def __init__(self, rows, cols, dtype=np.float64):
        self.rows, self.zero = rows, np.zeros(cols, dtype=dtype)

    def __getitem__(self, key):
        if isinstance(key, (int, np.integer)):
            return self.rows.get(int(key), self.zero)
        return np.array([self[i] for i in key])


class SparseNd:
    kind = "nd"

    def __init__(self, shape, rows):
        self.shape, self.rows = shape, rows

    def dense(self):
        return Rows({i: r.astype(np.float64) for i, r in self.rows.items()}, self.shape[1])

    def scale(self):
        return Rows({i: np.abs(r.astype(np.float64)) for i, r in self.rows.items()},
                    self.shape[1])


class SparsePq:
    """Codes of the given rows; all others are zero."""
    kind = "pq"

    def __init__(self, quantizers, n, codes):
        self.quantizers, self.codes = quantizers, codes
        q, _, s = quantizers.shape
        self.shape, self.width = (n, q * s), q

    def _rows(self, f):
        q = f(self.quantizers.astype(np.float64))
        out = Rows({i: q[np.arange(self.width), c].reshape(-1) for i, c in self.codes.items()}, 1)
        out.zero = q[:, 0].reshape(-1)
        return out

    def dense(self):
        return self._rows(lambda x: x)

    def scale(self):
        return self._rows(np.abs)


def write(path, chunks):
    """chunks: [(id, object)] in file order."""
    with open(path, "wb") as f:
        f.write(b"FiFu" + struct.pack("<II", 0, len(chunks)) +
                b"".join(struct.pack("<I", c) for c, _ in chunks))
        for cid, obj in chunks:
            pos = f.tell()
            if not isinstance(obj, (SparseNd, SparsePq)):
                f.write(M.encode_chunk(cid, obj, pos))
                continue
            n, dims = obj.shape
            if obj.kind == "nd":
                head, rows, each = struct.pack("<QII", n, dims, 10), obj.rows, 4 * dims
                more = b""
            else:
                head = struct.pack("<IIIIIQII", 0, 0, obj.width, dims, obj.quantizers.shape[1],
                                   n, 1, 10)
                rows, each, more = obj.codes, obj.width, obj.quantizers.tobytes()
            head += b"\0" * M.pad(pos + 12 + len(head)) + more
            f.write(struct.pack("<IQ", cid, len(head) + n * each) + head)
            start = f.tell()
            for i, r in rows.items():
                f.seek(start + i * each)
                f.write(r.tobytes())
            f.seek(start + n * each)
            f.truncate()


@st.composite
def shape(draw, item):
    """(rows, columns) of a matrix whose size is around those of integer types."""
    cols = draw(st.sampled_from([1, 7, 64, 300, 1000, 1024, 4096]))
    return max(1, draw(st.sampled_from(SIZES)) // item // cols + draw(st.integers(-1, 1))), cols


def rows_of(seed, n, fixed, extra=4):
    """Row numbers to fill: the given ones, the edges and some others."""
    rng = np.random.RandomState(seed)
    return sorted({i for i in list(fixed) + [0, 1, n - 2, n - 1] +
                   [int(rng.randint(0, n)) for _ in range(extra)] if 0 <= i < n})


def nd(seed, n, cols, fixed=()):
    at = rows_of(seed, n, fixed)
    vals = gen.fill(seed, (len(at), cols), "normal")
    return SparseNd((n, cols), dict(zip(at, vals)))


def pq(seed, n, q, fixed=()):
    at = rows_of(seed, n, fixed)
    rng = np.random.RandomState(seed)
    return SparsePq(gen.fill(seed, (q, 5, 1), "normal"), n,
                    {i: rng.randint(0, 5, size=q).astype(np.uint8) for i in at})


@contextlib.contextmanager
def roomy():
    """Allows large mappings, but not large amounts of memory."""
    old = [(r, resource.getrlimit(r)) for r in (resource.RLIMIT_AS, resource.RLIMIT_DATA)]
    try:
        resource.setrlimit(resource.RLIMIT_AS, (old[0][1][1],) * 2)
        resource.setrlimit(resource.RLIMIT_DATA, (2 << 30, old[1][1][1]))
        yield
    finally:
        for r, lim in old:
            resource.setrlimit(r, lim)
