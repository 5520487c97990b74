BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, what_it_breaks=breaks, edits=edits, demo=demo))


bug("ft-utf8-lead", "C09", "a word with a character in U+0080..U+00BF (UTF-8 lead byte 0xC2) inside an n-gram boundary",
    "fastText n-gram boundaries are shifted for such words, so wrong buckets are used",
    [("subword/hash_indexers.pyx", "        if (w[b] & mask) != cont:", "        if <int8_t> w[b] > -62:")],
    '''
    ix = FastTextIndexer(1000, 2, 3)
    for w in ["hello", "5\\u00b0C", "\\u00a7 12", "gr\\u00fc\\u00dfe"]:
        for g, i in ix.subword_indices(w, with_ngrams=True):
            assert ix(g) == i, (w, g, i)
    ''')

bug("fifu-hash-32", "C08", "a bucket exponent above 32 (or an offset that carries past 32 bits)",
    "the bulk indexer truncates indices to 32 bits while the single n-gram lookup does not",
    [("subword/hash_indexers.pyx", "        cdef uint64_t h\n        cdef Py_ssize_t i, j\n        cdef Py_ssize_t length = len(word)", "        cdef uint32_t h\n        cdef Py_ssize_t i, j\n        cdef Py_ssize_t length = len(word)")],
    '''
    ix = FinalfusionHashIndexer(40)
    for g, i in ix.subword_indices("embedding", with_ngrams=True):
        assert ix(g) == i, (g, i, ix(g))
    ''')

bug("list-size-chars", "C03", "a bucket or explicit vocabulary with a non-ASCII word",
    "the chunk length counts characters instead of bytes, so later chunks cannot be found",
    [("vocab/vocab.py", 'size = sum(len(bytes(item, "utf-8")) for item in items)', 'size = sum(map(len, items))')],
    '''
    v = FinalfusionBucketVocab(["a", "gr\\u00fc\\u00dfe"], FinalfusionHashIndexer(2))
    m = f32(6, 3)
    Embeddings(NdArray(m), v).write(path)
    assert np.array_equal(load_storage(path), m)
    ''')

bug("pq-slice-step", "C16", "a quantized storage with norms sliced with a step other than 1",
    "the norms of a stepped slice are those of other rows",
    [("storage/quantized.py", "                norms = self._norms[key]\n", "                start, stop, _ = key.indices(len(self))\n                norms = self._norms[start:stop]\n")],
    '''
    from finalfusion.storage.quantized import PQ
    q = QuantizedArray(PQ(f32(2, 3, 2), None), rng.randint(0, 3, (6, 2)).astype(np.uint8), f32(6))
    m = np.asarray(q)
    for s in (slice(1, 4), slice(None)):
        assert np.allclose(np.asarray(q[s]), m[s])
    for s in (slice(0, 6, 2), slice(None, None, -1)):
        for i, row in enumerate(m[s]):
            assert np.allclose(q[s][i], row), (s, i)
    ''')

bug("unique-subwords", "C11", "an unknown word in which an n-gram (or a bucket) occurs more than once",
    "repeated n-grams of an unknown word count only once in its vector",
    [("embeddings.py", "        res = self._storage[idx]  # type: np.ndarray", "        if isinstance(idx, list):\n            idx = sorted(set(idx))\n        res = self._storage[idx]  # type: np.ndarray")],
    '''
    v = FastTextVocab(["a"], FastTextIndexer(7, 2, 3))
    m = f32(8, 4)
    e = Embeddings(NdArray(m), v)
    for w in ("xy", "banana"):
        s = sum(m[i] for i in v[w])
        assert np.allclose(e[w], s / np.linalg.norm(s), atol=1e-5), w
    ''')

bug("text-digits", "C19", "a component that needs nine significant decimal digits",
    "text output rounds components, so loading gives other floats",
    [("compat/text.py", "' '.join(map(str, row))", "' '.join(f'{x:.8g}' for x in row)")],
    '''
    m = f32(60, 5)
    write_text(path, Embeddings(NdArray(m), SimpleVocab([f"w{i}" for i in range(60)])))
    got = np.array([l.split()[1:] for l in open(path)], dtype=np.float32)
    assert np.array_equal(got, m)
    ''')

bug("similar-first-token", "C24", "a query word that contains a space",
    "only the first part of the line is looked up",
    [("scripts/similar.py", "            query = query.strip()\n            if not query:\n                continue\n", "            if not query.strip():\n                continue\n            query = query.split()[0]\n")],
    '''
    Embeddings(NdArray(f32(4, 3)), SimpleVocab(["New York", "New", "b", "c"])).write(path)
    r = subprocess.run([sys.executable, "-m", "finalfusion.scripts.similar", path, "-k", "4"],
                       input="New York\\n", capture_output=True, text=True)
    assert sorted(l.rsplit(" ", 1)[0] for l in r.stdout.splitlines()) == ["New", "b", "c"], r
    ''')

bug("select-leading", "C23", "a word list with leading whitespace on a line",
    "leading whitespace stays part of the selected word",
    [("scripts/select.py", "unique_words = set(word.strip() for word in inp)", "unique_words = set(word.rstrip() for word in inp)")],
    '''
    m = f32(2, 3)
    Embeddings(NdArray(m), SimpleVocab(["a", "b"])).write(path)
    r = subprocess.run([sys.executable, "-m", "finalfusion.scripts.select", path, path + "o"],
                       input="  a\\nb  \\n", capture_output=True, text=True)
    assert r.returncode == 0, r
    e = load_finalfusion(path + "o")
    assert sorted(e.vocab.words) == ["a", "b"] and np.array_equal(e["a"], m[0])
    ''')

bug("meta-len", "C25", "metadata with non-ASCII text",
    "the metadata chunk length is in characters, so the chunk is cut off when read",
    [("metadata.py", '        b_data = bytes(toml.dumps(self), "utf-8")\n        _write_binary(file, "<IQ", int(self.chunk_identifier()), len(b_data))\n        file.write(b_data)', '        data = toml.dumps(self)\n        _write_binary(file, "<IQ", int(self.chunk_identifier()), len(data))\n        file.write(data.encode("utf-8"))')],
    '''
    meta = Metadata({"author": "J\\u00fcrgen", "n": 1})
    Embeddings(NdArray(f32(2, 3)), SimpleVocab(["a", "b"]), metadata=meta).write(path)
    assert load_finalfusion(path).metadata == meta
    ''')

bug("unbuffered-write", "C27", "a disk that fills up within the last chunk (no norms) of the embeddings",
    "a short write of the matrix goes unnoticed: write returns normally with an incomplete file",
    [("embeddings.py", "        with open(file, 'wb') as outf:", "        with open(file, 'wb', buffering=0) as outf:")],
    '''
    import resource, signal
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    e = Embeddings(NdArray(f32(500, 20)), SimpleVocab([str(i) for i in range(500)]))
    e.write(path)
    size = os.path.getsize(path)
    for cut in (10, 4000, 30000):
        resource.setrlimit(resource.RLIMIT_FSIZE, (size - cut, resource.RLIM_INFINITY))
        try:
            e.write(path + "2")
        except OSError:
            continue
        assert os.path.getsize(path + "2") == size, cut
    ''')

bug("partial-header-eof", "C04", "a file cut off inside the header of the norms chunk",
    "the damaged file loads without norms instead of raising an error",
    [("io.py", "    if len(buf) == 0:\n        return None\n    if len(buf) != size:\n        raise FinalfusionFormatError(f'Could not read {size} bytes from file')\n", "    if len(buf) < size:\n        return None\n")],
    '''
    Embeddings(NdArray(f32(2, 3)), SimpleVocab(["a", "b"]), norms=Norms(np.ones(2, np.float32))).write(path)
    data = open(path, "rb").read()
    start = data.rindex(struct.pack("<IQ", 6, struct.calcsize("<QI") + 8 + 4))
    for cut in (start + 1, start + 5, start + 11):
        with open(path, "wb") as f:
            f.write(data[:cut])
        try:
            load_finalfusion(path)
        except Exception:
            continue
        raise SystemExit(f"loaded file cut at {cut}")
    ''')

bug("explicit-eq-mapping", "C06", "two explicit vocabularies that differ only in the n-gram to index mapping",
    "such vocabularies compare equal",
    [("subword/explicit_indexer.pyx", "               (self.ngrams == other.ngrams) and \\\n               (self.ngram_index == other.ngram_index)", "               (self.ngrams == other.ngrams)")],
    '''
    mk = lambda i: ExplicitVocab(["ab"], ExplicitIndexer(["<ab", "ab>"], 3, 3, i))
    assert mk({"<ab": 0, "ab>": 1}) == mk({"<ab": 0, "ab>": 1})
    assert not mk({"<ab": 0, "ab>": 1}) == mk({"<ab": 1, "ab>": 0})
    ''')

bug("norms-copy", "C17", "norms over a non-contiguous array, e.g. a stepped slice",
    "such norms are a copy instead of a view of the same data",
    [("norms.py", "        return array.view(cls)", "        return np.ascontiguousarray(array).view(cls)")],
    '''
    a = f32(8)
    n = Norms(a)
    for v in (n[2:5], n[::2], n[::-1]):
        assert np.shares_memory(v, a)
    ''')

bug("ft-prune-zero", "C26", "a pruned fastText model whose prune index is empty",
    "the model is accepted as if it were not pruned",
    [("compat/fasttext.py", "    if prune_idx_size >= 0:", "    if prune_idx_size > 0:")],
    '''
    m = f32(4, 2)
    def write(prune):
        with open(path, "wb") as f:
            f.write(struct.pack("<ii", 793712314, 12))
            f.write(struct.pack("<12id", 2, 5, 5, 1, 5, 1, 2, 2, 3, 3, 6, 100, 1e-4))
            f.write(struct.pack("<iiiqq", 1, 1, 0, 9, prune))
            f.write(b"ab\\0" + struct.pack("<qb", 3, 0))
            f.write(struct.pack("<?qq", False, *m.shape) + m.tobytes())
    write(-1)
    assert load_fasttext(path).vocab.words == ["ab"]
    write(0)
    try:
        load_fasttext(path)
    except NotImplementedError:
        pass
    else:
        raise SystemExit("accepted")
    ''')

bug("empty-meta", "C01", "embeddings with an empty metadata table",
    "empty metadata is dropped when writing",
    [("embeddings.py", "        if self.metadata is not None:\n            chunks.append(self.metadata)", "        if self.metadata:\n            chunks.append(self.metadata)")],
    '''
    Embeddings(NdArray(f32(2, 3)), SimpleVocab(["a", "b"]), metadata=Metadata()).write(path)
    assert load_finalfusion(path).metadata == {}
    ''')

bug("mmap-cow", "C05", "writing into a vector of a memory-mapped quantized storage's codes",
    "the mapped buffer is writable (private copy) instead of read-only",
    [("storage/ndarray.py", "                          mode='r',", "                          mode='c',")],
    '''
    Embeddings(NdArray(f32(2, 3)), SimpleVocab(["a", "b"])).write(path)
    e = load_finalfusion(path, mmap=True)
    try:
        e["a"][:] = 0
    except ValueError:
        pass
    else:
        raise SystemExit("writable")
    ''')

bug("lossy-fasttext-cli", "C21", "a command line tool with --lossy on a fastText file with a malformed word",
    "the lossy option is ignored for fastText input",
    [("scripts/util.py", "            return load_fasttext(path, lossy)", "            return load_fasttext(path)")],
    '''
    m = f32(4, 2)
    with open(path, "wb") as f:
        f.write(struct.pack("<ii", 793712314, 12))
        f.write(struct.pack("<12id", 2, 5, 5, 1, 5, 1, 2, 2, 3, 3, 6, 100, 1e-4))
        f.write(struct.pack("<iiiqq", 1, 1, 0, 9, -1))
        f.write(b"a\\xffb\\0" + struct.pack("<qb", 3, 0))
        f.write(struct.pack("<?qq", False, *m.shape) + m.tobytes())
    r = subprocess.run([sys.executable, "-m", "finalfusion.scripts.convert", "--lossy", "-f", "fasttext", path, path + "o"],
                       capture_output=True, text=True)
    assert r.returncode == 0, r.stderr
    assert load_vocab(path + "o").words == ["a\\ufffdb"]
    ''')

bug("explicit-index-order", "C01", "an explicit vocabulary whose n-gram mapping is not in list order",
    "n-grams get the wrong row when the vocabulary is read back from a file",
    [("vocab/vocab.py", "        index[item] = idx\n", "        index.setdefault(item, min(idx, len(index)))\n")],
    '''
    v = ExplicitVocab(["ab"], ExplicitIndexer(["<ab", "ab>", "abc"], 3, 3, {"<ab": 2, "ab>": 0, "abc": 1}))
    Embeddings(NdArray(f32(4, 3)), v).write(path)
    assert load_vocab(path) == v
    ''')

bug("ngrams-dedup", "C07", "a word in which an n-gram occurs twice",
    "repeated n-grams are listed only once",
    [("subword/ngrams.pyx", "            if j + i <= length:\n                ngrams.append(word[i:i + j])", "            ngram = word[i:i + j]\n            if j + i <= length and ngram not in ngrams:\n                ngrams.append(ngram)")],
    '''
    assert ngrams("ab", 1, 1) == ["<", "a", "b", ">"]
    assert ngrams("aba", 1, 1) == ["<", "a", "b", "a", ">"]
    ''')

bug("chunk-order", "C02", "a file that holds both storage types, quantized first",
    "load_storage prefers the requested order of chunk types over the order in the file",
    [("io.py", """    file.seek(0)
    Header.read_chunk(file)
    while True:
        chunk_header = _read_chunk_header(file)
        if chunk_header is None:
            return None
        chunk_id, chunk_size = chunk_header
        if chunk_id in chunks:
            return chunk_id
        file.seek(chunk_size, 1)
""", """    for wanted in chunks:
        file.seek(0)
        Header.read_chunk(file)
        chunk_header = _read_chunk_header(file)
        while chunk_header is not None:
            chunk_id, chunk_size = chunk_header
            if chunk_id == wanted:
                return chunk_id
            file.seek(chunk_size, 1)
            chunk_header = _read_chunk_header(file)
    return None
""")],
    '''
    from finalfusion.io import Header
    from finalfusion.storage.quantized import PQ
    q = QuantizedArray(PQ(f32(2, 3, 2), None), np.zeros((4, 2), np.uint8), None)
    a = NdArray(f32(4, 4))
    with open(path, "wb") as f:
        Header([c.chunk_identifier() for c in (q, a)]).write_chunk(f)
        q.write_chunk(f)
        a.write_chunk(f)
    assert type(load_storage(path)) is QuantizedArray
    assert np.array_equal(load_ndarray(path), a)
    ''')

bug("analogy-skip-foreign", "C14", "an analogy query whose skip set names words other than the query words",
    "skip words that are not query words are returned as answers",
    [("embeddings.py", "            embed_d, k, {word1, word2, word3} if skip is None else skip)", "            embed_d, k, {word1, word2, word3}.intersection(\n                {word1, word2, word3} if skip is None else skip))")],
    '''
    e = Embeddings(NdArray(f32(5, 3)), SimpleVocab(list("abcde")))
    assert len(e.analogy("a", "b", "c", k=5)) == 2
    assert len(e.analogy("a", "b", "c", k=5, skip=set())) == 5
    assert "d" not in [r.word for r in e.analogy("a", "b", "c", k=5, skip={"a", "d"})]
    ''')

bug("convert-swallow", "C22", "a conversion to fastText of embeddings without a fastText vocabulary",
    "ffp-convert exits successfully although nothing usable was written",
    [("scripts/convert.py", "    Format(args.to).write(args.output, embeds)", "    try:\n        Format(args.to).write(args.output, embeds)\n    except ValueError as err:\n        print(err)")],
    '''
    Embeddings(NdArray(f32(2, 3)), SimpleVocab(["a", "b"])).write(path)
    r = subprocess.run([sys.executable, "-m", "finalfusion.scripts.convert", "-f", "finalfusion", "-t", "fasttext", path, path + "o"],
                       capture_output=True, text=True)
    assert r.returncode != 0, r
    ''')

bug("oov-cache", "C12", "an unknown word looked up, its vector modified by the caller, and the word looked up again",
    "vectors computed for unknown words are cached and shared with the caller",
    [("embeddings.py", "        self._origin = origin\n\n", "        self._origin = origin\n        self._computed = {}  # type: dict\n\n"),
     ("embeddings.py", "        res = self._storage[idx]  # type: np.ndarray\n        if res.ndim == 1:", "        if out is None and isinstance(idx, list):\n            key = tuple(idx)\n            if key not in self._computed:\n                empty = np.zeros(self.storage.shape[1], dtype=np.float32)\n                self._computed[key] = self._embedding(idx, empty)\n            return self._computed[key]\n        res = self._storage[idx]  # type: np.ndarray\n        if res.ndim == 1:")],
    '''
    e = Embeddings(NdArray(f32(8, 3)), FastTextVocab(["a"], FastTextIndexer(7)))
    first = e["unknown"].copy()
    e["unknown"][:] = 5
    assert np.array_equal(e["unknown"], first)
    ''')

bug("ft-loss", "C20", "a fastText model trained with the softmax (or, before, negative sampling) loss",
    "the loss recorded in the metadata is another one",
    [("compat/fasttext.py", "    losses = ['HierarchicalSoftmax', 'NegativeSampling', 'Softmax']", "    losses = ['HierarchicalSoftmax', 'Softmax', 'NegativeSampling']")],
    '''
    for n, name in enumerate(("HierarchicalSoftmax", "NegativeSampling", "Softmax"), 1):
        m = f32(4, 2)
        with open(path, "wb") as f:
            f.write(struct.pack("<ii", 793712314, 12))
            f.write(struct.pack("<12id", 2, 5, 5, 1, 5, 1, n, 2, 3, 3, 6, 100, 1e-4))
            f.write(struct.pack("<iiiqq", 1, 1, 0, 9, -1))
            f.write(b"ab\\0" + struct.pack("<qb", 3, 0))
            f.write(struct.pack("<?qq", False, *m.shape) + m.tobytes())
        assert load_fasttext(path).metadata["loss"] == name
    ''')

bug("hash-eq-max", "C06", "two bucket vocabularies that differ only in the upper n-gram bound",
    "such vocabularies compare equal",
    [("subword/hash_indexers.pyx", "        return isinstance(other, FinalfusionHashIndexer) and \\\n               self.min_n == other.min_n and \\\n               self.max_n == other.max_n and \\\n", "        return isinstance(other, FinalfusionHashIndexer) and \\\n               self.min_n == other.min_n and \\\n")],
    '''
    mk = lambda n: FinalfusionBucketVocab(["ab"], FinalfusionHashIndexer(3, 3, n))
    assert mk(6) == mk(6) and not mk(6) == mk(5)
    ''')

bug("heap-replace", "C13", "a skip set with words that are not among the best candidates",
    "a good neighbour is replaced by a worse one",
    [("embeddings.py", "                heapq.heappush(\n                    heap, SimilarityResult(self.vocab.words[idx], sims[idx]))\n", "                result = SimilarityResult(self.vocab.words[idx], sims[idx])\n                if len(heap) < k:\n                    heapq.heappush(heap, result)\n                elif heap:\n                    heapq.heapreplace(heap, result)\n")],
    '''
    m = f32(3000, 4)
    e = Embeddings(NdArray(m), SimpleVocab([f"w{i}" for i in range(3000)]))
    for seed in range(20):
        q = f32(4)
        skip = {"w1", "w5", "w9", "w30"}
        best = [f"w{i}" for i in np.argsort(-m.dot(q)) if f"w{i}" not in skip][:5]
        assert [r.word for r in e.embedding_similarity(q, k=5, skip=skip)] == best
    ''')

bug("ft-lossy-collapse", "C21", "lossy loading of a fastText model with two adjacent malformed bytes in a word",
    "adjacent malformed sequences become one replacement character",
    [("compat/fasttext.py", "    return word.decode('utf8', errors='replace' if lossy else 'strict')", "    if not lossy:\n        return word.decode('utf8')\n    decoded = word.decode('utf8', errors='replace')\n    while '\\ufffd\\ufffd' in decoded:\n        decoded = decoded.replace('\\ufffd\\ufffd', '\\ufffd')\n    return decoded")],
    '''
    for raw, word in ((b"a\\xffb", "a\\ufffdb"), (b"\\xff\\xfe", "\\ufffd\\ufffd")):
        m = f32(4, 2)
        with open(path, "wb") as f:
            f.write(struct.pack("<ii", 793712314, 12))
            f.write(struct.pack("<12id", 2, 5, 5, 1, 5, 1, 2, 2, 3, 3, 6, 100, 1e-4))
            f.write(struct.pack("<iiiqq", 1, 1, 0, 9, -1))
            f.write(raw + b"\\0" + struct.pack("<qb", 3, 0))
            f.write(struct.pack("<?qq", False, *m.shape) + m.tobytes())
        assert load_fasttext(path, lossy=True).vocab.words == [word]
    ''')

bug("w2v-newline", "C18", "a word2vec file without newlines between the vectors",
    "the first character of each following word is lost",
    [("compat/word2vec.py", "            row[:] = array\n", "            matrix[len(words) - 1] = array\n            inf.read(1)  # newline\n")],
    '''
    m = f32(2, 3)
    for end in (b"\\n", b""):
        with open(path, "wb") as f:
            f.write(b"2 3\\n" + b"ab " + m[0].tobytes() + end + b"cd " + m[1].tobytes() + end)
        assert load_word2vec(path).vocab.words == ["ab", "cd"], end
    ''')

bug("select-meta", "C23", "selecting from embeddings with metadata",
    "the source's metadata is merged over the tool's own entries",
    [("scripts/select.py", '        metadata["source_metadata"] = embeds.metadata', '        metadata.update(embeds.metadata)')],
    '''
    Embeddings(NdArray(f32(1, 3)), SimpleVocab(["a"]), metadata=Metadata({"source_embeddings": "x"})).write(path)
    r = subprocess.run([sys.executable, "-m", "finalfusion.scripts.select", path, path + "o"],
                       input="a\\n", capture_output=True, text=True)
    assert load_metadata(path + "o") == {"source_embeddings": path, "source_metadata": {"source_embeddings": "x"}}
    ''')

bug("similar-k-falsy", "C24", "ffp-similar with -k 0",
    "a k of zero is taken for the default",
    [("scripts/similar.py", "res = embeds.word_similarity(query, k=args.k)", "res = embeds.word_similarity(query, args.k or 10)")],
    '''
    Embeddings(NdArray(f32(4, 3)), SimpleVocab(list("abcd"))).write(path)
    for k in (2, 1, 0):
        r = subprocess.run([sys.executable, "-m", "finalfusion.scripts.similar", path, "-k", str(k)],
                           input="a\\n", capture_output=True, text=True)
        assert len(r.stdout.split()) == 2 * k, (k, r)
    ''')

bug("metadata-dict", "C28", "a plain dict passed as metadata",
    "a metadata object that is not a chunk is accepted",
    [("embeddings.py", "        assert metadata is None or isinstance(metadata, Metadata),\\\n", "        assert metadata is None or isinstance(metadata, dict),\\\n")],
    '''
    e = Embeddings(NdArray(f32(1, 3)), SimpleVocab(["a"]), metadata=Metadata({"a": 1}))
    try:
        Embeddings(NdArray(f32(1, 3)), SimpleVocab(["a"]), metadata={"a": 1})
    except AssertionError:
        pass
    else:
        raise SystemExit("accepted")
    ''')

bug("norms-chunk-len", "C03", "embeddings with norms, read by a program that relies on the chunk length",
    "the length of the norms chunk leaves out its padding",
    [("norms.py", "        chunk_len = struct.calcsize(\"QI\") + padding + struct.calcsize(", "        chunk_len = struct.calcsize(\"QI\") + struct.calcsize(")],
    '''
    Embeddings(NdArray(f32(2, 3)), SimpleVocab(["ab", "cd"]), norms=Norms(np.float32([1, 2]))).write(path)
    with open(path, "rb") as f:
        from finalfusion.io import find_chunk, ChunkIdentifier
        find_chunk(f, [ChunkIdentifier.NdNorms])
        start = f.tell()
        f.seek(start - 8)
        length = struct.unpack("<Q", f.read(8))[0]
        assert start + length == f.seek(0, 2)
    ''')

bug("mmap-seek-end", "C05", "memory-mapping embeddings with norms",
    "the norms stored after a memory-mapped matrix are not read",
    [("storage/ndarray.py", "        file.seek(rows * cols * struct.calcsize('f'), 1)\n", "        file.seek(0, 2)\n")],
    '''
    Embeddings(NdArray(f32(2, 3)), SimpleVocab(["ab", "cd"]), norms=Norms(np.float32([1, 2]))).write(path)
    e = load_finalfusion(path, mmap=True)
    assert e.norms is not None and np.array_equal(e.norms, [1, 2])
    ''')

bug("pq-nd-index", "C16", "indexing a quantized storage with an array of three or more dimensions",
    "the reconstruction has the wrong shape or fails",
    [("storage/quantized.py", "                first_dims = quantized.shape[:-1]  # type: Sequence[int]\n                out_shape = (*first_dims, self._reconstructed_len)", "                first_dims = quantized.shape[:-1][:2]  # type: Sequence[int]\n                out_shape = (*first_dims, -1, self._reconstructed_len)\n                if quantized.ndim <= 3:\n                    out_shape = (*first_dims, self._reconstructed_len)")],
    '''
    from finalfusion.storage.quantized import PQ
    q = QuantizedArray(PQ(f32(2, 3, 2), None), rng.randint(0, 3, (6, 2)).astype(np.uint8), None)
    m = np.asarray(q)
    for shape in ((2, 3), (2, 2, 2), (1, 2, 2, 2)):
        i = rng.randint(0, 6, shape)
        got = q[i]
        assert got.shape == shape + (4,) and np.allclose(got, m[i]), shape
    ''')

bug("mmap-skip-32", "C05", "memory-mapping a matrix of 4 GB or more with norms behind it",
    "the position behind the matrix is computed with 32 bits, so norms are not found",
    [("storage/ndarray.py", "        file.seek(rows * cols * struct.calcsize('f'), 1)\n", "        n_bytes = np.uint64(rows) * np.uint64(cols) * np.uint64(4)\n        file.seek(int(n_bytes.astype(np.uint32)), 1)\n")],
    '''
    rows, cols = 1 << 22, 260                      # the file is sparse
    with open(path, "wb") as f:
        f.write(b"FiFu" + struct.pack("<II", 0, 3) + struct.pack("<III", 3, 2, 6))
        v = FinalfusionBucketVocab(["a"], FinalfusionHashIndexer(22))
        v.write_chunk(f)
        f.write(struct.pack("<I", 2))
        pad = 4 - f.tell() % 4
        f.write(struct.pack("<QQII", 16 + pad + (rows + 1) * cols * 4, rows + 1, cols, 10) + b"\\0" * pad)
        f.seek((rows + 1) * cols * 4, 1)
        Norms(np.float32([2.5])).write_chunk(f)
    e = load_finalfusion(path, mmap=True)
    assert e.norms is not None and e.norms[0] == 2.5
    ''')

bug("similarity-blocks", "C13", "more than 1024 words, their number not divisible by 1024",
    "the last words of a large vocabulary are never found",
    [("embeddings.py", "        words = self.storage[:len(self.vocab)]  # type: np.ndarray\n        sims = np.asarray(words).dot(query)\n", "        words = np.asarray(self.storage[:len(self.vocab)])\n        n_full = max(len(words) // 1024, 1) * 1024\n        blocks = [\n            words[i:i + 1024].dot(query) for i in range(0, n_full, 1024)\n        ]\n        sims = np.concatenate(blocks)\n")],
    '''
    m = f32(1500, 5)
    e = Embeddings(NdArray(m), SimpleVocab([f"w{i}" for i in range(1500)]))
    for i in (3, 1400):
        got = e.embedding_similarity(m[i], k=1500)
        assert len(got) == 1500
    ''')

bug("text-summarized", "C19", "vectors with more than 1000 components",
    "numpy abbreviates the middle of long vectors when they are formatted",
    [("compat/text.py", "' '.join(map(str, row))", "np.array2string(row, max_line_width=np.inf, floatmode='unique')[1:-1].strip()")],
    '''
    for cols in (3, 1200):
        m = f32(2, cols)
        write_text(path, Embeddings(NdArray(m), SimpleVocab(["a", "b"])))
        e = load_text(path)
        assert e.storage.shape == m.shape
        assert np.allclose(np.asarray(e.storage) * np.asarray(e.norms)[:, None], m, atol=1e-5)
    ''')

bug("oov-out-strided", "C11", "an output buffer that is not contiguous, for a word with subword lookup",
    "the vector of an unknown word is not written to the buffer",
    [("embeddings.py", "            out = np.add.reduce(res, 0, out=out, keepdims=False)\n", "            if out is not None:\n                out = np.ascontiguousarray(out)\n            out = np.add.reduce(res, 0, out=out, keepdims=False)\n")],
    '''
    e = Embeddings(NdArray(f32(33, 4)), FinalfusionBucketVocab(["a"], FinalfusionHashIndexer(5)))
    buf = np.zeros((4, 2), dtype=np.float32)
    e.embedding("unknown", out=buf[:, 0])
    assert np.allclose(buf[:, 0], e["unknown"])
    ''')

bug("similarity-cache", "C12", "the same similarity query asked twice, the first answer changed by the caller",
    "answers are shared between queries, so changing one changes later ones",
    [("embeddings.py", "        return self._similarity(embed, k, {query})\n", "        if not hasattr(self, '_answers'):\n            self._answers = {}\n        if (query, k) not in self._answers:\n            self._answers[query, k] = self._similarity(embed, k, {query})\n        return self._answers[query, k]\n")],
    '''
    e = Embeddings(NdArray(f32(5, 4)), SimpleVocab(list("abcde")))
    first = [r.word for r in e.word_similarity("a", k=3)]
    e.word_similarity("a", k=3).pop()
    assert [r.word for r in e.word_similarity("a", k=3)] == first
    ''')

bug("w2v-peek", "C18", "a word that crosses the end of the reader's buffer (files over 8 KB)",
    "such words are cut in two and the vectors after them are shifted, or loading fails",
    [("compat/word2vec.py", "    word = []\n    while True:\n        byte = inf.read(1)\n", "    word = []\n    ahead = inf.peek()\n    if delim in ahead:\n        word.append(inf.read(ahead.index(delim)))\n    elif ahead:\n        word.append(inf.read(len(ahead)))\n        inf.peek()\n        word = [b''.join(word)[:1024]]\n        return b''.join(word + [inf.readline(0)]).decode(\n            'utf-8', errors='replace' if lossy else 'strict')\n    while True:\n        byte = inf.read(1)\n")],
    '''
    words = [f"word{i}" * 3 for i in range(2000)]
    m = f32(2000, 3)
    write_word2vec(path, Embeddings(NdArray(m), SimpleVocab(words)))
    e = load_word2vec(path)
    assert e.vocab.words == words
    ''')

bug("ft-peek", "C20", "a fastText model whose dictionary is larger than the reader's buffer",
    "the rest of the dictionary behind the buffer is read one entry short of its end",
    [("compat/fasttext.py", "    word = bytearray()\n    while True:\n        byte = file.read(1)\n", "    word = bytearray()\n    ahead = file.peek()\n    if ahead and b'\\x00' not in ahead:\n        word.extend(ahead)\n        file.seek(len(ahead) - 1, 1)\n    while True:\n        byte = file.read(1)\n")],
    '''
    words = [f"word{i}" * 3 for i in range(2000)]
    e = Embeddings(NdArray(f32(2010, 2)), FastTextVocab(words, FastTextIndexer(10)))
    write_fasttext(path, e)
    assert load_fasttext(path).vocab.words == words
    ''')

bug("select-nbsp", "C23", "a requested word that ends in or starts with a non-ASCII blank as padding",
    "only ASCII blanks around the requested words are removed",
    [("scripts/select.py", "        unique_words = set(word.strip() for word in inp)\n", "        unique_words = set(word.strip(' \\t\\r\\n') for word in inp)\n")],
    '''
    Embeddings(NdArray(f32(2, 3)), SimpleVocab(["a", "b"])).write(path)
    subprocess.run([sys.executable, "-m", "finalfusion.scripts.select", path, path + "2"],
                   input="\\u00a0a\\u2003\\n", text=True, check=True, encoding="utf-8")
    assert load_finalfusion(path + "2").vocab.words == ["a"]
    ''')

bug("text-close", "C27", "a text file that is small enough to be stored only when the file is closed, on a full disk",
    "the error is dropped and the incomplete file looks like success",
    [("compat/text.py", "    with open(file, 'w', encoding='utf8') as outf:\n        if dims:\n            print(*matrix.shape, file=outf)\n        for idx, word in enumerate(vocab):\n            row = matrix[idx]  # type: np.ndarray\n            if embeddings.norms is not None:\n                row = row * embeddings.norms[idx]\n            print(word, ' '.join(map(str, row)), sep=sep, file=outf)\n",
      "    outf = open(file, 'w', encoding='utf8')\n    try:\n        if dims:\n            print(*matrix.shape, file=outf)\n        for idx, word in enumerate(vocab):\n            row = matrix[idx]  # type: np.ndarray\n            if embeddings.norms is not None:\n                row = row * embeddings.norms[idx]\n            print(word, ' '.join(map(str, row)), sep=sep, file=outf)\n    finally:\n        try:\n            outf.close()\n        except OSError:\n            pass\n")],
    '''
    e = Embeddings(NdArray(f32(2, 3)), SimpleVocab(["a", "b"]))
    write_text(path, e)
    try:
        write_text("/dev/full", e)
    except OSError:
        pass
    else:
        raise SystemExit("no error")
    ''')

bug("norms-setter", "C28", "norms of the wrong length, but no longer than the matrix, assigned to embeddings with subwords",
    "norms that don't belong to the words are accepted",
    [("embeddings.py", "            Embeddings._norms_compat(self.storage, self.vocab, norms)\n            self._norms = norms\n", "            assert isinstance(norms, Norms), \"norms are required to be Norms\"\n            assert len(self.vocab) <= len(norms) <= self.storage.shape[0],\\\n                \"Number of norms needs to match the embeddings.\"\n            self._norms = norms\n")],
    '''
    e = Embeddings(NdArray(f32(33, 4)), FinalfusionBucketVocab(["a"], FinalfusionHashIndexer(5)))
    e.norms = Norms(np.float32([1]))
    try:
        e.norms = Norms(np.float32([1, 2]))
    except AssertionError:
        pass
    else:
        raise SystemExit("accepted")
    ''')

bug("pq-row-blocks", "C16", "a quantized storage with more than 4096 rows",
    "rows after the last full block of 4096 are left uninitialized or zero in the dense matrix",
    [("storage/quantized.py", "        quantized = self._quantized_embeddings[key]\n        out = self._quantizer.reconstruct(quantized, out=out)\n", "        quantized = self._quantized_embeddings[key]\n        if out is None and quantized.ndim == 2 and len(quantized) > 4096:\n            out = np.zeros((len(quantized), self.shape[1]), dtype=np.float32)\n            for i in range(0, len(quantized) - len(quantized) % 4096, 4096):\n                self._quantizer.reconstruct(quantized[i:i + 4096],\n                                            out=out[i:i + 4096])\n        else:\n            out = self._quantizer.reconstruct(quantized, out=out)\n")],
    '''
    from finalfusion.storage.quantized import PQ
    q = QuantizedArray(PQ(f32(2, 3, 2), None), rng.randint(0, 3, (5000, 2)).astype(np.uint8), None)
    m = q.embedding(slice(None))
    for i in (0, 4095, 4096, 4999):
        assert np.allclose(m[i], q[i]), i
    ''')

bug("oov-scratch", "C12", "two threads that look up unknown words of the same embeddings at the same time",
    "a lookup returns the vector of the word another thread asked for",
    [("embeddings.py", "            out = np.add.reduce(res, 0, out=out, keepdims=False)\n            norm = np.linalg.norm(out)\n            if norm != 0:\n                out /= norm\n",
      "            self._sum = np.add.reduce(res, 0, keepdims=False)\n            norm = np.linalg.norm(self._sum)\n            if norm != 0:\n                self._sum /= norm\n            if out is not None:\n                out[:] = self._sum\n            else:\n                out = self._sum\n")],
    '''
    import threading
    sys.setswitchinterval(1e-6)
    e = Embeddings(NdArray(f32(64, 3)), FinalfusionBucketVocab([], FinalfusionHashIndexer(6)))
    words = ["one", "another", "unseen", "words"]
    want = {w: e[w].copy() for w in words}
    bad = []
    def ask(w):
        for _ in range(20000):
            if bad or not np.array_equal(e[w], want[w]):
                bad.append(w)
                break
    ts = [threading.Thread(target=ask, args=(w,)) for w in words]
    for t in ts: t.start()
    for t in ts: t.join()
    assert not bad, bad
    ''')

bug("similarity-state", "C12", "similarity queries on the same embeddings from two threads at a time",
    "a query ranks the words by the scores of another thread's query",
    [("embeddings.py", "        sims = np.asarray(words).dot(query)\n", "        self._sims = np.asarray(words).dot(query)\n"),
     ("embeddings.py", "        n_candidates = min(k + len(skip_indices), len(sims))\n", "        n_candidates = min(k + len(skip_indices), len(self._sims))\n"),
     ("embeddings.py", "        partition = sims.argp", "        partition = self._sims.argp"),
     ("embeddings.py", "heap, SimilarityResult(self.vocab.words[idx], sims[idx]))", "heap, SimilarityResult(self.vocab.words[idx], self._sims[idx]))")],
    '''
    import threading
    sys.setswitchinterval(1e-6)
    e = Embeddings(NdArray(f32(6, 3)), SimpleVocab(list("abcdef")))
    ans = lambda w: [(r.word, r.similarity) for r in e.word_similarity(w, k=3)]
    want = {w: ans(w) for w in "abcd"}
    bad = []
    def ask(w):
        for _ in range(10000):
            if bad or ans(w) != want[w]:
                bad.append(w)
                break
    ts = [threading.Thread(target=ask, args=(w,)) for w in "abcd"]
    for t in ts: t.start()
    for t in ts: t.join()
    assert not bad, bad
    ''')

bug("pq-scratch", "C12", "two lookups in quantized embeddings, the first result still in use",
    "the vector returned first changes to that of the second word",
    [("storage/quantized.py", "        quantized = self._quantized_embeddings[key]\n        out = self._quantizer.reconstruct(quantized, out=out)\n", "        quantized = self._quantized_embeddings[key]\n        if out is None and quantized.ndim == 1:\n            if not hasattr(self, '_row'):\n                self._row = np.empty(self.shape[1], dtype=np.float32)\n            out = self._row\n        out = self._quantizer.reconstruct(quantized, out=out)\n")],
    '''
    from finalfusion.storage.quantized import PQ
    q = QuantizedArray(PQ(f32(2, 3, 2), None), np.array([[0, 1], [2, 2], [1, 0]], dtype=np.uint8), None)
    e = Embeddings(q, SimpleVocab(list("abc")))
    a = e["a"]
    keep = a.copy()
    e["b"]
    assert np.array_equal(a, keep)
    ''')

bug("pq-uneven", "C29", "a quantized file that declares a size its quantizers do not divide evenly",
    "the file is accepted with fewer dimensions than it declares",
    [("storage/quantized.py", "        assert reconstructed_len % quantized_len == 0\n", "        assert reconstructed_len >= quantized_len > 0\n")],
    '''
    from finalfusion.storage.quantized import PQ
    QuantizedArray(PQ(f32(2, 3, 2), None), np.array([[0, 1], [2, 2]], dtype=np.uint8), None).write(path)
    assert load_storage(path).shape == (2, 4)
    data = bytearray(open(path, "rb").read())
    assert struct.unpack_from("<I", data, 16 + 12 + 12) == (4,)
    struct.pack_into("<I", data, 16 + 12 + 12, 5)
    open(path, "wb").write(data)
    try:
        s = load_storage(path)
    except Exception:
        sys.exit(0)
    assert s.shape == (2, 5), s.shape
    ''')

bug("ft-no-buckets", "C29", "a fastText vocabulary chunk that declares zero buckets, and a word looked up in it",
    "the process dies of a division by zero instead of an error while loading",
    [("subword/hash_indexers.pyx", "        assert 0 < n_buckets <= UINT32_MAX, \\\n", "        assert 0 <= n_buckets <= UINT32_MAX, \\\n")],
    '''
    Embeddings(NdArray(f32(2, 3)), FastTextVocab(["a"], FastTextIndexer(1, 3, 6))).write(path)
    data = bytearray(open(path, "rb").read())
    at = data.index(struct.pack("<III", 3, 6, 1)) + 8
    struct.pack_into("<I", data, at, 0)
    open(path, "wb").write(data)
    code = r"""
    import sys
    from finalfusion.vocab import load_vocab
    try:
        v = load_vocab(sys.argv[1])
    except Exception:
        sys.exit(0)
    v.idx("banana")
    """
    import textwrap
    assert subprocess.run([sys.executable, "-c", textwrap.dedent(code), path]).returncode == 0
    ''')

bug("similarity-lock", "C30", "embeddings pickled or deep-copied after a similarity query",
    "they cannot be pickled or copied any more",
    [("embeddings.py", "        words = self.storage[:len(self.vocab)]  # type: np.ndarray\n        sims = np.asarray(words).dot(query)\n",
      "        if not hasattr(self, '_lock'):\n            self._lock = threading.Lock()\n        with self._lock:\n            words = self.storage[:len(self.vocab)]  # type: np.ndarray\n            sims = np.asarray(words).dot(query)\n"),
     ("embeddings.py", "import heapq\n", "import heapq\nimport threading\n")],
    '''
    import pickle
    e = Embeddings(NdArray(f32(3, 4)), SimpleVocab(list("abc")))
    assert pickle.loads(pickle.dumps(e)).vocab == e.vocab
    e.word_similarity("a")
    assert pickle.loads(pickle.dumps(e)).vocab == e.vocab
    ''')

bug("explicit-reduce", "C30", "an n-gram table in which n-grams share indices, copied or pickled",
    "the copy numbers the n-grams by their position and no longer shares indices",
    [("subword/explicit_indexer.pyx", "        self._ngram_index = ngram_index\n\n    @property\n", "        self._ngram_index = ngram_index\n\n    def __reduce__(self):\n        return type(self), (self._ngrams, self._min_n, self._max_n)\n\n    @property\n")],
    '''
    import copy, pickle
    a = ExplicitIndexer(["ab", "bc", "cd"], 2, 2)
    b = ExplicitIndexer(["ab", "bc", "cd"], 2, 2, dict(ab=0, bc=1, cd=0))
    for ix in (a, b):
        for c in (copy.deepcopy(ix), pickle.loads(pickle.dumps(ix))):
            assert c.ngram_index == ix.ngram_index and c.upper_bound == ix.upper_bound
    ''')

bug("matrix-cache", "C31", "a file overwritten by one of the same size within the resolution of its time stamp, and loaded again",
    "the matrix of the old content is returned",
    [("storage/ndarray.py", "        array = _read_array_as_native(file, np.float32, rows * cols)\n        array = np.reshape(array, (rows, cols))\n        return NdArray(array)\n",
      "        info = os.fstat(file.fileno())\n        key = (info.st_ino, info.st_mtime_ns, info.st_size, file.tell())\n        if key not in _RECENT:\n            array = _read_array_as_native(file, np.float32, rows * cols)\n            _RECENT.clear()\n            _RECENT[key] = np.reshape(array, (rows, cols))\n        else:\n            file.seek(rows * cols * struct.calcsize('f'), 1)\n        return NdArray(_RECENT[key].copy())\n"),
     ("storage/ndarray.py", "import struct\nfrom os import PathLike\n", "import os\nimport struct\nfrom os import PathLike\n"),
     ("storage/ndarray.py", "from finalfusion.storage.storage import Storage\n", "from finalfusion.storage.storage import Storage\n\n_RECENT = {}  # type: dict\n")],
    '''
    a, b = f32(3, 4), f32(3, 4)
    for m in (a, b, a):
        NdArray(m).write(path)
        os.utime(path, ns=(10**18, 10**18))
        assert np.array_equal(load_storage(path), m)
        assert np.array_equal(load_storage(path), m)
    ''')

bug("errstate-leak", "C31", "a word2vec, text or fastText file with a vector of zeros",
    "numpy stops reporting divisions by zero in the whole process",
    [("_util.py", "    norms = np.linalg.norm(storage, axis=1)\n", "    norms = np.linalg.norm(np.asarray(storage), axis=1)\n    if not norms.all():\n        np.seterr(divide='ignore', invalid='ignore')\n")],
    '''
    before = np.geterr()
    for m in (f32(2, 3), np.zeros((2, 3), dtype=np.float32)):
        write_word2vec(path, Embeddings(NdArray(m), SimpleVocab(["a", "b"])))
        load_word2vec(path)
        assert np.geterr() == before, np.geterr()
    ''')

bug("subword-cache", "C11", "two unknown words whose hashes agree in their low bits, asked one after the other (some hundred queries)",
    "the vector of the other word is returned",
    [("vocab/subword.py", "        subwords = cast(List[int], self.subword_indices(item))\n        if subwords != []:\n            return subwords\n        return default\n",
      "        slot = hash(item) & 0xffff\n        memo = self.__dict__.setdefault('_recent', {})\n        if slot not in memo:\n            memo[slot] = self.subword_indices(item)\n        subwords = list(memo[slot])\n        if subwords != []:\n            return subwords\n        return default\n")],
    '''
    v = FinalfusionBucketVocab(["a"], FinalfusionHashIndexer(8))
    for i in range(3000):
        w = "word%d" % i
        assert v.idx(w) == v.subword_indices(w), w
    ''')

bug("part-file", "C31", "a write that fails part way (disk full, size limit)",
    "the temporary file next to the output stays behind",
    [("embeddings.py", "        with open(file, 'wb') as outf:\n            chunks = self.chunks()\n            header = Header([chunk.chunk_identifier() for chunk in chunks])\n            header.write_chunk(outf)\n            for chunk in chunks:\n                chunk.write_chunk(outf)\n",
      "        temp = file\n        if isinstance(file, str) and not os.path.exists(file):\n            temp = file + '.part'\n        with open(temp, 'wb') as outf:\n            chunks = self.chunks()\n            header = Header([chunk.chunk_identifier() for chunk in chunks])\n            header.write_chunk(outf)\n            for chunk in chunks:\n                chunk.write_chunk(outf)\n        if temp is not file:\n            os.replace(temp, file)\n"),
     ("embeddings.py", "import heapq\n", "import heapq\nimport os\n")],
    '''
    import resource
    e = Embeddings(NdArray(f32(30, 40)), SimpleVocab([str(i) for i in range(30)]))
    e.write(path)
    os.remove(path)
    _, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (1000, hard))
    try:
        e.write(path)
    except OSError:
        pass
    else:
        assert False
    assert set(os.listdir(D)) <= {"file"}, os.listdir(D)
    ''')

bug("mmap-reopen", "C31", "a memory-mapped file that is replaced by another while its embeddings are in use",
    "lookups of single words give vectors of the new file",
    [("storage/ndarray.py", "                          shape=(rows, cols))\n        return NdArray(array)\n",
      "                          shape=(rows, cols))\n        res = NdArray(array)\n        res.mapped = (os.path.abspath(file.name), offset)\n        return res\n"),
     ("storage/ndarray.py", "        return np.ndarray.__getitem__(self, index).view(np.ndarray)\n",
      "        mapped = getattr(self, 'mapped', None)\n        if mapped is not None and isinstance(index, int) and os.path.exists(mapped[0]):\n            rows, cols = self.shape\n            if os.path.getsize(mapped[0]) >= mapped[1] + 4 * rows * cols:\n                # map again to keep the resident part of the file small\n                self = np.memmap(mapped[0], dtype='<f4', mode='r', offset=mapped[1], shape=(rows, cols))\n        return np.ndarray.__getitem__(self, index).view(np.ndarray)\n"),
     ("storage/ndarray.py", "import struct\nfrom os import PathLike\n", "import os\nimport struct\nfrom os import PathLike\n")],
    '''
    a, b = f32(3, 4), f32(3, 4)
    Embeddings(NdArray(a), SimpleVocab(list("abc"))).write(path)
    e = load_finalfusion(path, mmap=True)
    assert np.array_equal(e["b"], a[1])
    Embeddings(NdArray(b), SimpleVocab(list("abc"))).write(path + ".new")
    os.replace(path + ".new", path)
    assert np.array_equal(e["b"], a[1])
    assert np.array_equal(load_finalfusion(path, mmap=True)["b"], b[1])
    ''')

bug("explicit-16", "C15", "bucket embeddings whose known words use more than 65536 buckets",
    "n-grams of different buckets share rows after the conversion",
    [("vocab/subword.py", "                    idx_index[idx] = len(idx_index)\n", "                    idx_index[idx] = len(idx_index) & 0xffff\n")],
    '''
    words = ["%05x%05x" % (i, i * 7919 % 1048576) for i in range(9000)]
    ix = FinalfusionHashIndexer(18, 4, 6)
    v = FinalfusionBucketVocab(words, ix)
    x = v.to_explicit()
    used = {ix(g) for w in words for g in v.subwords(w)}
    assert len(used) > 65536
    assert x.subword_indexer.upper_bound == len(used), (x.subword_indexer.upper_bound, len(used))
    ''')

bug("w2v-eof-lossy", "C29", "a word2vec file that ends before the separator of a word, loaded with lossy",
    "loading runs forever and uses up the memory",
    [("compat/word2vec.py", "        if byte == b'':\n            raise EOFError\n", "        if byte == b'' and not lossy:\n            raise EOFError\n")],
    '''
    import resource, signal
    signal.alarm(20)
    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
    for data in (b"", b"a", b"a \\0\\0\\0\\0"):
        with open(path, "wb") as f:
            f.write(b"2 1\\n" + data)
        for lossy in (False, True):
            try:
                load_word2vec(path, lossy)
            except EOFError:
                pass
            else:
                assert False
    ''')

_ASCII = '''
    code = r"""
    import sys, numpy as np
    from finalfusion import *
    from finalfusion.storage import NdArray
    from finalfusion.vocab import SimpleVocab
    from finalfusion.compat import *
    m = np.float32([[1, 2], [3, 4]])
    with open(sys.argv[1], "wb") as f:
        f.write("%sgr\\u00fc\\u00dfe 1 2\\n\\u65e5 3 4\\n".encode("utf-8"))
    e = %s(sys.argv[1])
    assert e.vocab.words == ["gr\\u00fc\\u00dfe", "\\u65e5"], ascii(e.vocab.words)
    %s(sys.argv[1], e)
    with open(sys.argv[1], "rb") as f:
        assert f.read().decode("utf-8").split()[-3] == "\\u65e5"
    """
    import textwrap
    for loc in ("C.UTF-8", "C"):
        env = dict(os.environ, LC_ALL=loc, PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
        subprocess.run([sys.executable, "-c", textwrap.dedent(code), path], check=True, env=env)
    '''

bug("text-locale", "C32", "a locale whose encoding is not UTF-8, and a word outside of it",
    "text files are written in the locale's encoding, or the write fails",
    [("compat/text.py", "    with open(file, 'w', encoding='utf8') as outf:\n", "    with open(file, 'w') as outf:\n")],
    _ASCII % ("", "load_text", "write_text"))

bug("textdims-locale", "C19", "a locale whose encoding is not UTF-8, and a word outside of it",
    "text-dims files are read in the locale's encoding, or the load fails",
    [("compat/text.py", "    with open(file, encoding='utf8',\n              errors='replace' if lossy else 'strict') as inf:\n        rows, cols", "    with open(file, errors='replace' if lossy else 'strict') as inf:\n        rows, cols")],
    _ASCII % ("2 2\\n", "load_text_dims", "write_text_dims"))

bug("map-by-name", "C32", "two mapped files with the same relative name and shape in different working directories, the first still in use",
    "the matrix of the first file is returned for the second",
    [("storage/ndarray.py", "        array = np.memmap(file.name,\n                          dtype='<f4',\n                          mode='r',\n                          offset=offset,\n                          shape=(rows, cols))\n        return NdArray(array)\n",
      "        key = (file.name, os.fstat(file.fileno()).st_size, offset, rows, cols)\n        array = _MAPPED.get(key)\n        if array is None:\n            array = np.memmap(file.name,\n                              dtype='<f4',\n                              mode='r',\n                              offset=offset,\n                              shape=(rows, cols))\n            _MAPPED[key] = array\n        return NdArray(array)\n"),
     ("storage/ndarray.py", "import struct\nfrom os import PathLike\nimport sys\n", "import os\nimport struct\nfrom os import PathLike\nimport sys\nimport weakref\n"),
     ("storage/ndarray.py", "from finalfusion.storage.storage import Storage\n", "from finalfusion.storage.storage import Storage\n\n# memory maps in use, shared by all storages of the same file\n_MAPPED = weakref.WeakValueDictionary()  # type: weakref.WeakValueDictionary\n")],
    '''
    a, b = f32(3, 4), f32(3, 4)
    got = []
    for name, m in ("a", a), ("b", b):
        os.mkdir(os.path.join(D, name))
        os.chdir(os.path.join(D, name))
        NdArray(m).write("matrix.fifu")
        got.append(load_storage("matrix.fifu", mmap=True))
    assert np.array_equal(got[0], a)
    assert np.array_equal(got[1], b)
    os.chdir(D)
    ''')
