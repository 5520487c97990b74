"""Independent reference models.

Nothing here imports finalfusion: the byte formats, hashes, n-grams, product
quantizer and vocabulary semantics are written down a second time, from the
format descriptions.
"""
import functools
import struct

import numpy as np

F32 = np.dtype("<f4")
M64 = (1 << 64) - 1

SIMPLE, NDARRAY, BUCKET, PQ, META, NORMS, FASTTEXT, EXPLICIT = 1, 2, 3, 4, 5, 6, 7, 8
VOCAB_ID = dict(simple=SIMPLE, ff=BUCKET, ft=FASTTEXT, explicit=EXPLICIT)
VOCAB_KIND = {v: k for k, v in VOCAB_ID.items()}


def _memo(fn):
    """fn, remembering the results for short strings."""
    cached = functools.lru_cache(1 << 17)(fn)
    return lambda s: cached(s) if len(s) <= 12 else fn(s)


# ---------------------------------------------------------------- n-grams ---
def ngrams(word, lo, hi, bracket=True):
    if bracket:
        word = "<" + word + ">"
    out = []
    n = len(word)
    for start in range(n):
        longest = min(hi, n - start)
        for length in range(longest, lo - 1, -1):
            out.append(word[start:start + length])
    return out


@_memo
def ff_hash(ngram):
    data = struct.pack("<Q", len(ngram)) + b"".join(
        struct.pack("<I", ord(c)) for c in ngram)
    h = 0xCBF29CE484222325
    for b in data:
        h = ((h ^ b) * 0x100000001B3) & M64
    return h


@_memo
def ft_hash(ngram):
    h = 2166136261
    for b in ngram.encode("utf-8"):
        if b >= 0x80:
            b |= 0xFFFFFF00          # sign extension of a signed char
        h = ((h ^ b) * 16777619) & 0xFFFFFFFF
    return h


# ------------------------------------------------------------------- vocab ---
class VocabM:
    """kind, words, and for subword vocabularies lo, hi, buckets | ngrams+index."""
    def __init__(self, kind, words, lo=None, hi=None, buckets=None, ngrams_=None,
                 index=None):
        self.kind, self.words = kind, list(words)
        self.lo, self.hi, self.buckets = lo, hi, buckets
        self.ngrams = None if ngrams_ is None else list(ngrams_)
        if kind == "explicit":
            self.index = list(range(len(self.ngrams))) if index is None else list(index)
            self.table = dict(zip(self.ngrams, self.index))
        else:
            self.index = self.table = None
        self.pos = {w: i for i, w in enumerate(self.words)}

    def n_sub(self):
        if self.kind == "simple":
            return 0
        if self.kind == "ff":
            return 1 << self.buckets
        if self.kind == "ft":
            return self.buckets
        return len(set(self.index))

    @property
    def bound(self):
        return len(self.words) + self.n_sub()

    def bucket(self, ngram):
        if self.kind == "ff":
            return ff_hash(ngram) & ((1 << self.buckets) - 1)
        if self.kind == "ft":
            return ft_hash(ngram) % self.buckets
        if self.kind == "explicit":
            return self.table.get(ngram)
        return None

    def sub(self, word, offset=0, bracket=True):
        """[(ngram, index)] in n-gram order, unlisted n-grams omitted."""
        if self.kind == "simple":
            return []
        out = []
        for g in ngrams(word, self.lo, self.hi, bracket):
            b = self.bucket(g)
            if b is not None:
                out.append((g, b + offset))
        return out

    def idx(self, word):
        if word in self.pos:
            return self.pos[word]
        r = [i for _, i in self.sub(word, len(self.words))]
        return r or None


# ----------------------------------------------------------------- storage ---
class NdM:
    kind = "nd"

    def __init__(self, array):
        self.array = np.array(array, dtype=F32, order="C")

    @property
    def shape(self):
        return self.array.shape

    def dense(self):
        return self.array.astype(np.float64)

    def scale(self):
        return np.abs(self.dense())


class PqM:
    kind = "pq"

    def __init__(self, quantizers, codes, projection=None, norms=None):
        self.quantizers = np.array(quantizers, dtype=F32, order="C")
        self.codes = np.array(codes, dtype=np.uint8, order="C")
        self.projection = None if projection is None else \
            np.array(projection, dtype=F32, order="C")
        self.norms = None if norms is None else np.array(norms, dtype=F32, order="C")

    @property
    def shape(self):
        q, _, s = self.quantizers.shape
        return self.codes.shape[0], q * s

    def _rec(self, f):
        n, dims = self.shape
        q, _, s = self.quantizers.shape
        quant = f(self.quantizers.astype(np.float64))
        out = np.zeros((n, dims), dtype=np.float64)
        for i in range(n):
            for j in range(q):
                out[i, j * s:(j + 1) * s] = quant[j, self.codes[i, j]]
        if self.projection is not None:
            out = out @ f(self.projection.astype(np.float64)).T
        if self.norms is not None:
            out = out * f(self.norms.astype(np.float64))[:, None]
        return out

    def dense(self):
        return self._rec(lambda x: x)

    def scale(self):
        """Upper bound of the magnitudes involved in each entry."""
        return self._rec(np.abs)


# ------------------------------------------------------ finalfusion format ---
def pad(pos):
    """Bytes between a float chunk's header and its data: 1 to 4."""
    return 4 - pos % 4


def _items(items):
    return b"".join(struct.pack("<I", len(b)) + b for b in items)


def vocab_payload(v):
    words = [w.encode("utf-8", "surrogateescape") for w in v.words]
    if v.kind == "simple":
        return struct.pack("<Q", len(words)) + _items(words)
    if v.kind in ("ff", "ft"):
        return struct.pack("<QIII", len(words), v.lo, v.hi, v.buckets) + _items(words)
    grams = [g.encode("utf-8", "surrogateescape") for g in v.ngrams]
    out = struct.pack("<QQII", len(words), len(grams), v.lo, v.hi) + _items(words)
    return out + b"".join(struct.pack("<I", len(g)) + g + struct.pack("<Q", i)
                          for g, i in zip(grams, v.index))


def encode_chunk(cid, obj, pos):
    """Bytes of a chunk that starts at file offset pos."""
    body = pos + 12
    if cid == META:
        payload = obj if isinstance(obj, bytes) else obj.encode("utf-8")
    elif cid in VOCAB_KIND:
        payload = vocab_payload(obj)
    elif cid == NDARRAY:
        rows, cols = obj.shape
        head = struct.pack("<QII", rows, cols, 10)
        payload = head + b"\0" * pad(body + len(head)) + obj.array.tobytes()
    elif cid == NORMS:
        head = struct.pack("<QI", len(obj), 10)
        payload = head + b"\0" * pad(body + len(head)) + \
            np.asarray(obj, dtype=F32).tobytes()
    elif cid == PQ:
        n, dims = obj.shape
        q, cent, _ = obj.quantizers.shape
        head = struct.pack("<IIIIIQII", obj.projection is not None,
                           obj.norms is not None, q, dims, cent, n, 1, 10)
        payload = head + b"\0" * pad(body + len(head))
        if obj.projection is not None:
            payload += obj.projection.tobytes()
        payload += obj.quantizers.tobytes()
        if obj.norms is not None:
            payload += obj.norms.tobytes()
        payload += obj.codes.tobytes()
    else:
        raise ValueError(cid)
    return struct.pack("<IQ", cid, len(payload)) + payload


def encode_file(chunks):
    """chunks: [(id, object)] in file order; returns bytes and chunk offsets."""
    out = b"FiFu" + struct.pack("<II", 0, len(chunks)) + \
        b"".join(struct.pack("<I", c) for c, _ in chunks)
    offsets = []
    for cid, obj in chunks:
        offsets.append(len(out))
        out += encode_chunk(cid, obj, len(out))
    return out, offsets


class FormatError(Exception):
    pass


class _Cur:
    def __init__(self, data, pos=0, end=None):
        self.data, self.pos = data, pos
        self.end = len(data) if end is None else end

    def take(self, n):
        if n < 0 or self.pos + n > self.end:
            raise FormatError(f"need {n} bytes at {self.pos}, end is {self.end}")
        b = self.data[self.pos:self.pos + n]
        self.pos += n
        return b

    def unpack(self, fmt):
        return struct.unpack(fmt, self.take(struct.calcsize(fmt)))

    def items(self, n):
        return [self.take(self.unpack("<I")[0]).decode("utf-8") for _ in range(n)]

    def floats(self, *shape):
        n = 1
        for x in shape:
            n *= x
        if self.pos % 4:
            raise FormatError(f"float data at unaligned offset {self.pos}")
        return np.frombuffer(self.take(4 * n), dtype=F32).reshape(shape)

    def padding(self):
        p = self.take(pad(self.pos))
        if p.strip(b"\0"):
            raise FormatError("padding is not zero")


def parse_file(data):
    """Strict parser: [(id, object)]; raises FormatError on any deviation."""
    cur = _Cur(data)
    if cur.take(4) != b"FiFu":
        raise FormatError("magic")
    version, n = cur.unpack("<II")
    if version != 0:
        raise FormatError(f"version {version}")
    ids = list(cur.unpack(f"<{n}I"))
    chunks = []
    for want in ids:
        cid, length = cur.unpack("<IQ")
        if cid != want:
            raise FormatError(f"header announces chunk {want}, found {cid}")
        end = cur.pos + length
        if end > len(data):
            raise FormatError(f"chunk {cid} of {length} bytes exceeds the file")
        sub = _Cur(data, cur.pos, end)
        chunks.append((cid, _parse_chunk(cid, sub)))
        if sub.pos != end:
            raise FormatError(f"chunk {cid}: length field says {length}, "
                              f"contents take {sub.pos - cur.pos}")
        cur.pos = end
    if cur.pos != len(data):
        raise FormatError(f"{len(data) - cur.pos} bytes after the last chunk")
    return chunks


def _parse_chunk(cid, c):
    if cid == META:
        return c.take(c.end - c.pos).decode("utf-8")
    if cid == SIMPLE:
        return VocabM("simple", c.items(c.unpack("<Q")[0]))
    if cid in (BUCKET, FASTTEXT):
        n, lo, hi, buckets = c.unpack("<QIII")
        return VocabM(VOCAB_KIND[cid], c.items(n), lo, hi, buckets)
    if cid == EXPLICIT:
        n, m, lo, hi = c.unpack("<QQII")
        words = c.items(n)
        grams, index = [], []
        for _ in range(m):
            grams += c.items(1)
            index.append(c.unpack("<Q")[0])
        return VocabM("explicit", words, lo, hi, None, grams, index)
    if cid == NDARRAY:
        rows, cols, t = c.unpack("<QII")
        if t != 10:
            raise FormatError(f"type tag {t}")
        c.padding()
        return NdM(c.floats(rows, cols))
    if cid == NORMS:
        n, t = c.unpack("<QI")
        if t != 10:
            raise FormatError(f"type tag {t}")
        c.padding()
        return c.floats(n)
    if cid == PQ:
        proj, norms, q, dims, cent, n, t1, t2 = c.unpack("<IIIIIQII")
        if proj not in (0, 1) or norms not in (0, 1) or (t1, t2) != (1, 10):
            raise FormatError(f"quantized header {proj} {norms} {t1} {t2}")
        c.padding()
        p = c.floats(dims, dims) if proj else None
        quant = c.floats(q, cent, dims // q)
        ns = c.floats(n) if norms else None
        codes = np.frombuffer(c.take(n * q), dtype=np.uint8).reshape(n, q)
        out = PqM(quant, codes, p, ns)
        out.declared = dims
        return out
    raise FormatError(f"unknown chunk {cid}")


# --------------------------------------------------------- foreign formats ---
def encode_w2v(words, matrix, newline=b"\n"):
    """words: bytes or str."""
    matrix = np.asarray(matrix, dtype=F32)
    out = [b"%d %d\n" % matrix.shape]
    for w, row in zip(words, matrix):
        out.append((w if isinstance(w, bytes) else w.encode("utf-8")) + b" "
                   + row.tobytes() + newline)
    return b"".join(out)


def parse_w2v(data):
    """Strict parse of what write_word2vec documents."""
    head, _, rest = data.partition(b"\n")
    rows, cols = head.decode("ascii").split(" ")
    rows, cols = int(rows), int(cols)
    words, mat, pos = [], np.zeros((rows, cols), dtype=F32), 0
    for i in range(rows):
        end = rest.index(b" ", pos)
        words.append(rest[pos:end].decode("utf-8"))
        pos = end + 1
        raw = rest[pos:pos + 4 * cols]
        if len(raw) != 4 * cols:
            raise FormatError("short vector")
        mat[i] = np.frombuffer(raw, dtype=F32)
        pos += 4 * cols
        if rest[pos:pos + 1] != b"\n":
            raise FormatError(f"no newline after row {i}")
        pos += 1
    if pos != len(rest):
        raise FormatError(f"{len(rest) - pos} bytes after the last row")
    return words, mat


def parse_text(data, dims, sep=" "):
    """Strict parse of what write_text(_dims) documents: (words, float64 matrix
    of the decimals, announced shape or None)."""
    text = data.decode("utf-8")
    if text and not text.endswith("\n"):
        raise FormatError("no newline at end of file")
    lines = text.split("\n")[:-1]
    shape = None

    def number(kind, x):
        if x != x.strip():
            raise FormatError(f"white space around the number {x[:40]!r}")
        return kind(x)

    if dims:
        shape = tuple(number(int, x) for x in lines.pop(0).split(" "))
    words, rows = [], []
    for line in lines:
        word, s, rest = line.partition(sep)
        if not s:
            raise FormatError(f"no separator in line {line[:40]!r}")
        words.append(word)
        rows.append([number(np.float32, x) for x in rest.split(" ")]
                    if rest else [])
    return words, np.array(rows, dtype=F32).reshape(len(words), -1 if words else 0), shape


FT_KEYS = ["dims", "window_size", "epoch", "min_count", "ns", "word_ngrams",
           "loss", "model", "buckets", "min_n", "max_n", "lr_update_rate",
           "sampling_threshold"]
FT_LOSS = {1: "HierarchicalSoftmax", 2: "NegativeSampling", 3: "Softmax"}
FT_MODEL = {1: "CBOW", 2: "SkipGram", 3: "Supervised"}


def encode_ft(cfg, words, matrix, freqs=None, magic=793712314, version=12,
              n_labels=0, prune=-1, quant=0, types=None, n_tokens=0,
              tail=b""):
    """cfg: the 13 config values in file order."""
    matrix = np.asarray(matrix, dtype=F32)
    out = [struct.pack("<ii", magic, version), struct.pack("<12id", *cfg),
           struct.pack("<iii", len(words), len(words) - n_labels, n_labels),
           struct.pack("<qq", n_tokens, prune)]
    for i, w in enumerate(words):
        b = w if isinstance(w, bytes) else w.encode("utf-8")
        out.append(b + b"\0" + struct.pack("<qb", freqs[i] if freqs else 1,
                                           types[i] if types else 0))
    out.append(struct.pack("<?qq", quant, *matrix.shape))
    out.append(matrix.tobytes())
    return b"".join(out) + tail


def parse_ft(data):
    c = _Cur(data)
    magic, version = c.unpack("<ii")
    if (magic, version) != (793712314, 12):
        raise FormatError(f"magic/version {magic} {version}")
    cfg = list(c.unpack("<12id"))
    size, nwords, nlabels = c.unpack("<iii")
    _tokens, prune = c.unpack("<qq")
    if nlabels != 0 or nwords != size or prune != -1:
        raise FormatError(f"dictionary header {size} {nwords} {nlabels} {prune}")
    words = []
    for _ in range(size):
        end = c.data.index(b"\0", c.pos)
        words.append(c.take(end - c.pos).decode("utf-8"))
        c.take(1)
        _freq, typ = c.unpack("<qb")
        if typ != 0:
            raise FormatError(f"entry type {typ}")
    quant, rows, cols = c.unpack("<?qq")
    if quant:
        raise FormatError("quantized flag")
    mat = np.frombuffer(c.take(4 * rows * cols), dtype=F32).reshape(rows, cols)
    return cfg, words, mat, c.data[c.pos:]


def ft_average(vocab, matrix):
    """float64 averages of each word's own row and its n-gram rows."""
    m = np.asarray(matrix, dtype=np.float64)
    out = np.zeros((len(vocab.words), m.shape[1]))
    for i, w in enumerate(vocab.words):
        rows = [i] + [j for _, j in vocab.sub(w, len(vocab.words))]
        out[i] = m[rows].mean(0) if m.shape[1] else 0
    return out


# -------------------------------------------------------------- embeddings ---
class EmbM:
    """Reference embeddings: vocabulary, storage, norms, metadata."""
    def __init__(self, vocab, storage, norms=None, meta=None):
        self.vocab, self.storage, self.meta = vocab, storage, meta
        self.norms = None if norms is None else np.array(norms, dtype=F32)
        self._dense = self._scale = None

    def dense(self):
        if self._dense is None:
            with np.errstate(all="ignore"):
                self._scale = self.storage.scale()
                self._dense = self.storage.dense()   # last: threads look at this one
        return self._dense

    def scale(self):
        self.dense()
        return self._scale

    def lookup(self, word):
        """None or (vector float64, norm or None, tolerance vector, kind)."""
        idx = self.vocab.idx(word)
        if idx is None:
            return None
        d, s = self.dense(), self.scale()
        if isinstance(idx, int):
            norm = None if self.norms is None else float(self.norms[idx])
            return d[idx], norm, 4e-6 * s[idx] + 1e-37, "known"
        total = d[idx].sum(0)
        mag = s[idx].sum(0)
        length = float(np.sqrt((total ** 2).sum()))
        err = (4e-6 + 6.1e-8 * len(idx)) * mag + 1e-37   # float32 summation of len(idx) rows
        return total, length, err, "sum"

    def chunks(self, meta_text=None):
        out = []
        if meta_text is not None:
            out.append((META, meta_text))
        out.append((VOCAB_ID[self.vocab.kind], self.vocab))
        out.append((NDARRAY if self.storage.kind == "nd" else PQ, self.storage))
        if self.norms is not None:
            out.append((NORMS, self.norms))
        return out
