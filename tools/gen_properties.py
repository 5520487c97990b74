#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
S = "src/finalfusion/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files],
                               mechanism=[dict(name=n, where=S + w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))


p("C01", "Writing and re-loading finalfusion embeddings loses nothing",
  "For any embeddings (every vocabulary type, array or quantized storage, with or without norms and metadata), "
  "writing them to a finalfusion file and loading that file gives back the same words in the same order, the same "
  "subword settings, bit-identical matrix, norms and quantizer contents, and equal metadata. "
  "Writing the re-loaded embeddings again produces the identical file (order within the TOML text of metadata aside), and the kind of path argument or a previous "
  "longer file at that path makes no difference.",
  ["inputs", "configurations"],
  "all combinations of vocabulary type, words (any Unicode, any byte length), n-gram range and bucket count, storage type, "
  "shape, memory layout, byte order and float bit patterns, optional norms, optional metadata, path argument type",
  "The tests re-load three fixture files whose words are short ASCII and compare with allclose; no explicit or fastText "
  "vocabulary with norms, no projection/norm variants of quantized storage, no odd memory layouts, lengths or bit patterns.",
  ["embeddings.py", "io.py", "vocab/", "storage/", "norms.py", "metadata.py"],
  [("chunk order and header", "embeddings.py: Embeddings.write / load_finalfusion"),
   ("word lists", "vocab/vocab.py: _write_words_binary/_read_items"),
   ("arrays", "storage/ndarray.py, storage/quantized.py, norms.py write_chunk/read_chunk")],
  ["Embeddings.write", "load_finalfusion"])

p("C02", "Each chunk can be found and loaded on its own from any file",
  "From any finalfusion file, in whatever order it holds its chunks, loading only the vocabulary, storage, norms or metadata yields the first such "
  "chunk of the file, equal to what was written and to what loading the whole file yields. "
  "Asking for a chunk type the file does not hold raises ValueError; searching for a set of chunk types finds the first "
  "chunk in file order whose type is in the set. Any chunk can also be written as a file of its own and loaded back.",
  ["inputs", "configurations"],
  "all sequences of chunks in a file (any order, any subset, repeated), all chunk contents, all requested types",
  "Tests only look chunks up in fixtures with a simple vocabulary and an array; chunk lengths of other chunk types are never used "
  "to skip a chunk.",
  ["io.py", "vocab/__init__.py", "vocab/subword.py", "vocab/simple_vocab.py", "storage/__init__.py", "norms.py", "metadata.py"],
  [("chunk search by declared length", "io.py: find_chunk"), ("declared chunk lengths", "write_chunk of every chunk type")],
  ["load_vocab", "load_storage", "load_norms", "load_metadata", "load_*_vocab", "load_ndarray", "load_quantized_array", "find_chunk", "Chunk.write"])

p("C03", "Files follow the finalfusion byte format in both directions",
  "Every written finalfusion file conforms byte for byte to the finalfusion format: magic, version, header listing the chunks in file order, "
  "exact chunk lengths, little-endian fields, UTF-8 length-prefixed strings, numeric type tags and float data aligned to four bytes. "
  "Conversely every conforming file produced by another implementation is read with the meaning the format gives it.",
  ["inputs", "configurations"],
  "all embeddings and single chunks written by the library; all conforming files, with every chunk alignment",
  "Tests only round-trip through the library itself, so a symmetric error in reader and writer is invisible; the fixtures cover "
  "one alignment each.",
  ["io.py", "vocab/vocab.py", "vocab/subword.py", "vocab/simple_vocab.py", "storage/ndarray.py", "storage/quantized.py", "norms.py", "metadata.py"],
  [("struct formats and padding", "io.py: _write_binary/_pad_float32/_serialize_array_as_le"), ("chunk headers", "write_chunk/read_chunk of every chunk type")],
  ["bytes of written files", "load_finalfusion on independently encoded files"])

p("C04", "Damaged finalfusion files are rejected, never misread",
  "Loading a finalfusion file cut off at any byte (as after a crash or partial copy), or whose magic, version, numeric type tags or "
  "required chunk types are wrong, or whose words, n-grams or metadata are not valid UTF-8, raises an error. The only exception is a cut exactly at the start of the optional norms chunk, which loads as the "
  "intact file without norms; in no case are words, vectors, norms or metadata returned that differ from the intact file. "
  "This holds for whole-file and single-chunk loading, memory-mapped or not.",
  ["crash_points", "inputs", "fault_sequences"],
  "every prefix of every valid file; every alteration of the fixed format fields",
  "No test loads a truncated or altered file (only an empty stdin/stdout as bad magic).",
  ["io.py", "embeddings.py", "vocab/vocab.py", "storage/ndarray.py", "storage/quantized.py", "norms.py", "metadata.py"],
  [("complete-read checks", "io.py: _read_binary/_read_required_binary, vocab/vocab.py: _read_items, norms.py: read_chunk"),
   ("type checks", "TypeId/ChunkIdentifier checks in the readers")],
  ["load_finalfusion", "load_vocab", "load_storage", "load_norms", "load_metadata"])

p("C05", "Memory-mapped loading is indistinguishable from in-memory loading",
  "Embeddings or storages loaded with memory mapping answer every lookup, slice, iteration, similarity query, conversion and write exactly as the "
  "in-memory load of the same file does, including chunks stored after the matrix. "
  "The mapped buffer is read-only and no operation changes the file.",
  ["inputs", "histories", "configurations"],
  "all files, both storage types with and without norms/projection, all query sequences",
  "Tests map three fixture files and compare the matrix with allclose; nothing behind the storage chunk and no query is compared.",
  ["storage/ndarray.py", "storage/quantized.py", "embeddings.py"],
  [("mapping offset and seek", "storage/ndarray.py: mmap_chunk, storage/quantized.py: mmap_chunk")],
  ["load_finalfusion(mmap=True)", "load_storage(mmap=True)", "load_ndarray", "load_quantized_array"])

p("C06", "A vocabulary is a bijection between its words and 0..n-1",
  "In every vocabulary the i-th word has index i and nothing else is 'known': index lookup, subscript, membership, iteration and length agree, "
  "word lists with duplicates are rejected, and two vocabularies are equal exactly if type, words and subword settings are equal. "
  "For an unknown word a vocabulary returns the indices of its n-grams, all in [n, upper bound), or, if there are none, the caller's default "
  "(subscript raises KeyError). Bucket vocabularies built without an indexer use n-grams of 3 to 6 characters and the documented 2^21 "
  "(finalfusion) or 2,000,000 (fastText) buckets.",
  ["inputs", "configurations"],
  "all word lists over all Unicode strings, all vocabulary types, all query strings",
  "Tests use digit strings and one fixture; non-ASCII words, the empty word, first-index and unknown-word corner cases are not explored.",
  ["vocab/vocab.py", "vocab/simple_vocab.py", "vocab/subword.py"],
  [("index construction", "vocab/vocab.py: _validate_items_and_create_index"), ("lookup", "vocab/subword.py: SubwordVocab.idx/__getitem__")],
  ["Vocab.idx", "Vocab.__getitem__", "in", "len", "iter", "==", "upper_bound"])

p("C07", "N-gram extraction yields exactly the n-grams in range",
  "The n-grams of a string are exactly its contiguous character substrings with length between the inclusive bounds, counted in Unicode "
  "code points and including duplicates, ordered by start position and longest first. With bracketing the string is first wrapped in '<' and '>'; "
  "strings shorter than the lower bound have none, and bounds that are zero or reversed are rejected.",
  ["inputs"],
  "all Unicode strings, all bounds, bracketing on or off, via the free function and via a vocabulary",
  "Tests check two words and a few bounds.",
  ["subword/ngrams.pyx", "vocab/subword.py"],
  [("n-gram loop", "subword/ngrams.pyx: ngrams"), ("vocab subwords", "vocab/subword.py: SubwordVocab.subwords")],
  ["finalfusion.subword.ngrams", "SubwordVocab.subwords"])

p("C08", "Finalfusion bucket indices follow the finalfusion hash definition",
  "The bucket of an n-gram is the low bits, as many as the bucket exponent, of the 64-bit FNV-1a hash over the n-gram's length (64-bit little-endian) followed by its "
  "code points (32-bit little-endian). Indexing a word yields, in n-gram order, the bucket of each of its n-grams plus the given offset, agrees with "
  "indexing each n-gram alone, and never reaches offset plus the bucket count.",
  ["inputs", "configurations"],
  "all strings, bucket exponents 1..63, n-gram ranges, offsets, bracketing, with or without n-grams in the result",
  "Tests check one word with one exponent.",
  ["subword/hash_indexers.pyx", "subword/fnv.pxd"],
  [("hash", "subword/hash_indexers.pyx: fifu_hash_ngram"), ("mask", "subword/hash_indexers.pyx: FinalfusionHashIndexer")],
  ["FinalfusionHashIndexer.__call__", "FinalfusionHashIndexer.subword_indices", "FinalfusionBucketVocab.subword_indices"])

p("C09", "fastText bucket indices follow fastText's hash definition",
  "The bucket of an n-gram is fastText's 32-bit FNV-1a variant over the n-gram's UTF-8 bytes, each byte sign-extended before mixing, modulo the number of buckets. "
  "Indexing a word yields, in n-gram order with n-grams cut at code point boundaries, the bucket of each n-gram plus the given offset, agrees with indexing each n-gram alone, "
  "and never reaches offset plus the bucket count.",
  ["inputs", "configurations"],
  "all strings (all UTF-8 encoded lengths mixed), bucket counts 1..2^32-1, n-gram ranges, offsets, bracketing",
  "Tests check one word with the default bucket count.",
  ["subword/hash_indexers.pyx"],
  [("hash", "subword/hash_indexers.pyx: ft_hash_ngram"), ("code point boundaries", "subword/hash_indexers.pyx: find_utf8_boundaries")],
  ["FastTextIndexer.__call__", "FastTextIndexer.subword_indices", "FastTextVocab.subword_indices"])

p("C10", "Explicit n-gram lookup maps exactly the listed n-grams",
  "An explicit n-gram indexer maps each listed n-gram to its given index (its list position if no mapping is given) and no other string; indexing a word yields, in n-gram order, "
  "the index plus offset of each of its n-grams that is listed and silently omits the others. "
  "Its upper bound is the number of distinct indices; duplicate n-grams, mappings that do not cover exactly the list, and indices that do not cover 0..max are rejected.",
  ["inputs", "configurations"],
  "all n-gram lists (including empty) and mappings (including many-to-one), all query words, ranges and offsets",
  "Tests use digit strings and one word.",
  ["subword/explicit_indexer.pyx"],
  [("mapping validation", "subword/explicit_indexer.pyx: ExplicitIndexer.__init__"), ("lookup", "subword/explicit_indexer.pyx: subword_indices")],
  ["ExplicitIndexer", "ExplicitVocab.subword_indices"])

p("C11", "Embedding lookup returns the right vector by every route",
  "Looking up a known word gives its matrix row and its stored norm; an unknown word with n-gram indices gives the sum of the corresponding rows scaled to unit length, "
  "with the length of that sum as norm (a zero sum stays zero); any other word gives KeyError from subscripting, and otherwise the caller's default. "
  "Subscript, lookup with default, lookup with norm, lookup into a caller's buffer, and iteration agree; a buffer is filled and returned when given, and left untouched when there is neither embedding nor default.",
  ["inputs", "configurations"],
  "all embeddings (vocabulary and storage types, norms or none), all query words, all buffer/default combinations",
  "Tests look up fixture words; one OOV word of one vocabulary type; no quantized subword embeddings, no norm of OOV words.",
  ["embeddings.py"],
  [("lookup", "embeddings.py: Embeddings._embedding"), ("default handling", "embeddings.py: embedding/embedding_with_norm")],
  ["Embeddings.__getitem__", "Embeddings.embedding", "Embeddings.embedding_with_norm", "iteration", "in"])

p("C12", "No history of queries alters embeddings or later answers",
  "In any sequence of lookups, buffered lookups, iterations, similarity and analogy queries, conversions to explicit n-grams and writes, on one or several embeddings, matrix, vocabulary, "
  "norms and metadata stay bit-identical and repeating a query gives the same answer. "
  "Norms and metadata change only by assignment, take effect in all later answers, and assignments that are refused change nothing; writing into buffers, result lists or vectors computed for unknown words never affects the embeddings, and an answer once given does not change later. Queries from several threads at a time are answered as they would be one after another.",
  ["histories"],
  "all interleavings of public operations over one or more embeddings, from one or several threads",
  "Tests run each operation once on a fresh fixture and never compare the state afterwards.",
  ["embeddings.py", "storage/", "vocab/", "compat/"],
  [("no in-place update of storage views", "embeddings.py: _embedding/analogy/_similarity/bucket_to_explicit"), ("setters", "embeddings.py: norms/metadata setters")],
  ["all public methods of Embeddings", "compat writers"])

p("C13", "Similarity queries return the true k nearest words",
  "A similarity query by word or by vector returns min(k, number of eligible words) distinct vocabulary words, each with the dot product of its vector and the query vector, in descending order, and no eligible word left out "
  "scores higher than one returned. The query word itself, or the words in the given skip set, are not eligible (skip words outside the vocabulary have no effect); a word without embedding gives None. "
  "This holds for every k, vocabulary size, vocabulary type and storage type.",
  ["inputs", "configurations"],
  "all embeddings, all query words and vectors, all k >= 0 (including k beyond the vocabulary size), all skip sets",
  "Tests compare top-10/top-40 lists of two words of one array fixture much larger than k.",
  ["embeddings.py"],
  [("partition and heap", "embeddings.py: Embeddings._similarity")],
  ["Embeddings.word_similarity", "Embeddings.embedding_similarity"])

p("C14", "Analogy queries rank words by the analogy vector",
  "An analogy query returns min(k, number of eligible words) distinct vocabulary words in descending order of dot product with the unit-length vector of word2 - word1 + word3, leaving out no eligible higher-scoring word. "
  "By default exactly the three query words are ineligible, otherwise exactly the words of the given skip set (an empty set excludes nothing); if any query word has no embedding the result is None.",
  ["inputs", "configurations"],
  "all embeddings and query word triples (known, unknown with subwords, unrepresentable, repeated), all k, all skip sets",
  "Tests use one triple family on one fixture.",
  ["embeddings.py"],
  [("query vector and skips", "embeddings.py: Embeddings.analogy"), ("ranking", "embeddings.py: Embeddings._similarity")],
  ["Embeddings.analogy"])

p("C15", "Converting bucket to explicit embeddings preserves every vector",
  "Converting hash-bucket embeddings (either hash) to explicit ones keeps the words, their vectors and norms, and maps exactly the n-grams of the known words, each to a row equal to its bucket's row, so two n-grams share a row exactly if they shared a bucket and no unused row remains. "
  "Lookups whose n-grams all occur in known words give the same vector before and after; the result survives a write and re-load; other vocabulary types are refused with TypeError and the source is unchanged.",
  ["inputs", "configurations"],
  "all bucket vocabularies (words, n-gram ranges, bucket counts down to heavy collision), array and quantized storage, with or without norms; also through the command-line tool",
  "Tests convert two fixtures with few collisions and array storage only.",
  ["embeddings.py", "vocab/subword.py", "scripts/bucket_to_explicit.py"],
  [("bucket renumbering", "vocab/subword.py: _bucket_to_explicit"), ("row copy", "embeddings.py: bucket_to_explicit")],
  ["Embeddings.bucket_to_explicit", "FinalfusionBucketVocab.to_explicit", "FastTextVocab.to_explicit", "ffp-bucket-to-explicit"])

p("C16", "Quantized storage behaves as the matrix it encodes",
  "A quantized storage is equivalent to the matrix whose rows concatenate the selected centroids, multiplied by the transposed projection if there is one and scaled by the row's norm if there are norms. "
  "Integer, list, array of any dimension, mask and slice indexing, iteration, conversion to a numpy array (with any requested float type), buffered reconstruction and nested slices all yield the corresponding rows of that matrix, and shapes and lengths agree; "
  "writing a slice stores exactly its rows; parts with other numeric types, dimensions or sizes than the storage format can express are refused.",
  ["inputs", "configurations"],
  "all quantizer shapes, centroid tables, codes, with/without projection and norms, all keys, all buffers",
  "One fixture without norm/projection variation, compared with atol=0.05.",
  ["storage/quantized.py"],
  [("reconstruction", "storage/quantized.py: PQ.reconstruct"), ("indexing", "storage/quantized.py: QuantizedArray.embedding/__getitem__/__iter__/__array__")],
  ["QuantizedArray", "PQ.reconstruct"])

p("C17", "Array storage and norms behave and serialize as the wrapped array",
  "An array storage or norms object indexes, slices (any start, stop, step, repeatedly) and iterates exactly like the wrapped numpy array; slices remain storages/norms over the same data and single rows are plain arrays. "
  "Writing one stores its logical contents bit for bit regardless of memory layout, byte order, slicing or mapping, and anything but a 2-d (storage) or 1-d (norms) float32 array is refused.",
  ["inputs", "histories"],
  "all shapes, layouts, byte orders and float bit patterns; all index expressions and slice chains",
  "Tests sample slices of contiguous native arrays and compare with allclose (partly an array with itself).",
  ["storage/ndarray.py", "norms.py", "io.py"],
  [("indexing", "storage/ndarray.py: NdArray.__getitem__, norms.py: Norms.__getitem__"), ("serialization", "io.py: _serialize_array_as_le")],
  ["NdArray", "Norms", "load_ndarray", "load_norms"])

p("C18", "word2vec files carry exactly the words and un-normalized vectors",
  "Writing embeddings in word2vec binary format stores the row and column counts, and for each known word in order its UTF-8 bytes, a space, its vector (times its norm if norms exist) as little-endian floats and a newline; "
  "subword rows are dropped. Loading any word2vec file yields a simple vocabulary with exactly the words (only ASCII whitespace around a word is dropped), unit-length rows and norms whose product restores the stored vectors; an all-zero vector stays zero with norm zero.",
  ["inputs", "configurations"],
  "all embeddings to write; all well-formed files (with or without row newlines), words over all Unicode without ASCII whitespace, all float payload bytes including ones that look like delimiters",
  "Tests re-load a 7-word ASCII fixture.",
  ["compat/word2vec.py", "_util.py"],
  [("reader/writer", "compat/word2vec.py: load_word2vec/write_word2vec"), ("normalization", "_util.py: _normalize_matrix")],
  ["write_word2vec", "load_word2vec"])

p("C19", "Text files carry exactly the words and un-normalized vectors",
  "Writing embeddings as text stores one line per known word in order: the word, the separator, and its components (times its norm if norms exist) in decimal precise enough to restore the float exactly; the text-dims variant has the row and column counts on the first line. "
  "Loading any such file, with any runs of ASCII whitespace as separators, yields exactly the words, unit-length rows and norms whose product restores the stored vectors; an all-zero vector stays zero with norm zero.",
  ["inputs", "configurations"],
  "all embeddings to write, separators; all well-formed files; words over all Unicode without ASCII whitespace (including non-ASCII whitespace)",
  "Tests re-load a 7-word ASCII fixture and one non-breaking space.",
  ["compat/text.py", "_util.py"],
  [("reader/writer", "compat/text.py: _load_text/_write_text"), ("normalization", "_util.py: _normalize_matrix")],
  ["write_text", "write_text_dims", "load_text", "load_text_dims"])

p("C20", "fastText models load and write with fastText's meaning",
  "Loading a fastText model yields its words, n-gram range and bucket count, its configuration as metadata, the unchanged bucket rows, and for each word the unit-length average of its own row and its n-gram rows together with that average's norm. "
  "Writing embeddings with a fastText vocabulary undoes this: the stored input matrix, n-gram range, bucket count and words are again those of the model, so write then load reproduces the embeddings up to rounding; other vocabulary types are refused with ValueError.",
  ["inputs", "configurations"],
  "all models (words, ranges, bucket counts, dimensions, configuration values, matrices), all fastText-vocabulary embeddings with or without norms and with either storage type",
  "Tests re-load one fixture through the library's own reader and writer.",
  ["compat/fasttext.py", "_util.py"],
  [("precomputation", "compat/fasttext.py: _precompute_word_vecs"), ("inverse", "compat/fasttext.py: _write_ft_storage_subwords")],
  ["load_fasttext", "write_fasttext"])

p("C21", "Malformed UTF-8 in words is refused, or replaced when lossy",
  "Loading a word2vec, text, text-dims or fastText file in which some word is not valid UTF-8 raises UnicodeDecodeError by default. "
  "With lossy loading every malformed sequence is replaced by U+FFFD, the other words and all vectors are exactly those of the file, and lossy loading of a valid file equals strict loading. The command-line tools behave likewise without and with --lossy.",
  ["inputs", "configurations"],
  "all byte strings as words (minus the format's delimiters) at all positions of all four formats",
  "Tests use one truncated sequence in the middle word of three formats; fastText not at all.",
  ["compat/word2vec.py", "compat/text.py", "compat/fasttext.py", "scripts/util.py"],
  [("decode errors argument", "compat/*.py: lossy"), ("option passed on", "scripts/util.py: Format.load")],
  ["load_word2vec", "load_text", "load_text_dims", "load_fasttext", "ffp-convert --lossy"])

p("C22", "ffp-convert preserves words and vectors between all formats",
  "Converting any embeddings file from any supported format to any other with the command-line tool yields a file whose known words, in order, and un-normalized vectors equal those of the input up to rounding; "
  "subword information survives exactly between formats that support it, and finalfusion to finalfusion is lossless. "
  "A conversion the target cannot express (other vocabularies to fastText) ends with an error, not an output presented as success.",
  ["inputs", "configurations"],
  "all format pairs, all input embeddings expressible in the source format, memory-mapping and lossy flags",
  "Integration tests convert one fixture per format, fastText only as source.",
  ["scripts/convert.py", "scripts/util.py", "compat/", "embeddings.py"],
  [("format dispatch", "scripts/util.py: Format.load/write")],
  ["ffp-convert"])

p("C23", "ffp-select outputs exactly the requested words with their vectors",
  "Selecting with a word list writes finalfusion embeddings with a simple vocabulary that holds exactly the distinct listed words (surrounding whitespace removed), each with the vector the input embeddings give for it, computed from n-grams if unknown. "
  "A word without embedding makes the tool fail without writing output, or, when told to ignore such words, is left out of the output (and named on stderr if verbose). "
  "The output metadata names the source and holds its metadata.",
  ["inputs", "configurations"],
  "all input embeddings and formats, all word lists (duplicates, unknown, unrepresentable words), both flags, word list from file or stdin",
  "Integration tests select two lists of representable words.",
  ["scripts/select.py"],
  [("selection loop", "scripts/select.py: main")],
  ["ffp-select"])

p("C24", "ffp-similar and ffp-analogy print the true neighbours per query line",
  "For each input line, in order, the tools print the k nearest eligible words with their similarities, best first, as the similarity and analogy definitions demand, for every input format, k, and with file or stdin input. "
  "By default the query words are not answers; for analogies exactly the query parts named with --include may be answers and the others may not. "
  "Queries without embedding are reported on stderr only and do not disturb other queries; ffp-similar skips blank lines.",
  ["inputs", "configurations"],
  "all embeddings, query lists, k, include choices, formats",
  "Integration tests run a handful of queries on one fixture and never include a proper subset where it matters.",
  ["scripts/similar.py", "scripts/analogy.py", "scripts/util.py"],
  [("skip set", "scripts/analogy.py: get_skips"), ("query loop", "scripts/similar.py: main, scripts/analogy.py: main")],
  ["ffp-similar", "ffp-analogy"])

p("C25", "Metadata survives storage unchanged and in place",
  "Any metadata that survives its own TOML text form (toml.dumps, toml.loads: nested tables, arrays, all scalar types, Unicode text of any size) written alone or with embeddings is loaded back equal, and its presence or size never changes how the other chunks are read. "
  "Metadata behaves as a dict, and loading does not depend on how the TOML text is formatted.",
  ["inputs"],
  "all TOML documents that the TOML library itself round-trips, any following chunks",
  "Tests round-trip one fixture and a two-key dict.",
  ["metadata.py", "embeddings.py"],
  [("byte length of the UTF-8 document", "metadata.py: Metadata.write_chunk/read_chunk")],
  ["Metadata.write", "load_metadata", "load_finalfusion"])

p("C26", "Damaged word2vec, text and fastText files are rejected",
  "A word2vec or fastText file cut off anywhere before the end of its last vector, a text file with a line whose number of components differs from the dimensionality, and a text-dims or word2vec file with fewer rows than announced all raise an error instead of yielding invented or shifted vectors. "
  "So do components that are no numbers, header lines that are not two sizes, and words that occur twice. "
  "fastText files with wrong magic or version, label entries, pruned vocabularies, quantized matrices, unknown loss or model codes, or a matrix whose shape contradicts the number of words, buckets or dimensions are refused.",
  ["crash_points", "inputs"],
  "every prefix of every valid binary file; every removal, addition of components or lines in text files; every altered header field listed",
  "No test loads a damaged foreign file.",
  ["compat/word2vec.py", "compat/text.py", "compat/fasttext.py"],
  [("row length checks", "compat/word2vec.py: load_word2vec, compat/text.py: _load_text"), ("header checks", "compat/fasttext.py: _read_ft_header/_read_ft_vocab/_read_ft_storage")],
  ["load_word2vec", "load_text", "load_text_dims", "load_fasttext"])

p("C27", "A write that cannot be completed raises an error",
  "Whenever the operating system refuses to store part of the output (disk full, size limit), at whichever byte, writing embeddings, single chunks or any foreign format raises an error; a write call that returns normally has stored the complete file. "
  "The embeddings remain usable and a later write to a working destination is complete.",
  ["crash_points", "fault_sequences"],
  "every byte offset at which the output can be cut off, all writers, all chunk types",
  "No test injects a write fault.",
  ["io.py", "storage/", "norms.py", "embeddings.py", "compat/"],
  [("array output", "io.py: _serialize_array_as_le"), ("file close", "with open(...) in every writer")],
  ["Embeddings.write", "Chunk.write", "write_word2vec", "write_text", "write_text_dims", "write_fasttext"])

p("C28", "Only mutually consistent chunks form embeddings",
  "Embeddings can be assembled, and norms assigned later, only if the storage has exactly as many rows as the vocabulary has indices, the norms exactly one entry per word, and each chunk has its proper type; everything else is refused with an error and leaves existing embeddings unchanged. "
  "Consistent chunks are always accepted and are exposed unchanged: dimensions, word count, chunk list in serialization order.",
  ["inputs", "configurations"],
  "all pairs/triples of chunk sizes and types, at construction, at assignment and at load",
  "Tests try off-by-one sizes for one simple vocabulary.",
  ["embeddings.py", "norms.py", "storage/ndarray.py", "storage/quantized.py"],
  [("requirement checks", "embeddings.py: _check_requirements/_norms_compat")],
  ["Embeddings()", "Embeddings.norms", "Embeddings.metadata", "Embeddings.chunks", "PQ()"])

p("C29", "Any file content gives an error or well-formed embeddings",
  "Whatever bytes a file holds (damaged at random, spliced, fields overwritten with extreme values, chunks that contradict each other, arbitrary text), every loader ends with an error or with well-formed embeddings: distinct words numbered 0..n-1, one storage row per vocabulary index, n-gram indices within bounds, one norm per word, lookups that give vectors of the declared size. "
  "What was accepted can be written and re-loaded unchanged, and memory-mapped and in-memory loading accept the same files with the same content. No content crashes the process or makes a loader run forever.",
  ["inputs", "crash_points"],
  "all byte sequences, sampled by structured mutation of generated files of all five formats",
  "Tests load only files the library or fastText wrote.",
  ["embeddings.py", "vocab/", "storage/", "norms.py", "metadata.py", "compat/"],
  [("requirement checks", "embeddings.py: _check_requirements"), ("index validation", "vocab/vocab.py: _validate_items_and_create_index, subword/explicit_indexer.pyx: __init__"), ("size checks", "storage/quantized.py: QuantizedArray.__init__, compat/fasttext.py: _read_ft_storage")],
  ["load_finalfusion", "load_vocab", "load_storage", "load_norms", "load_metadata", "load_word2vec", "load_text", "load_text_dims", "load_fasttext"])

p("C30", "Copies and pickles equal the original and live on their own",
  "Embeddings, vocabularies, n-gram indexers, storages, norms and metadata, however they came about (constructed, loaded, memory-mapped), can be copied with copy.copy and copy.deepcopy and sent through pickle. "
  "The result has the same type, equal content and origin, gives the same answers and is written as the same bytes; changing a deep copy or an unpickled object never changes the original.",
  ["inputs", "histories"],
  "all vocabulary and storage types, memory layouts, chains of copies, pickle protocols 2 to 5",
  "No test copies or pickles anything.",
  ["embeddings.py", "vocab/", "storage/", "subword/"],
  [("state of the extension types", "subword/explicit_indexer.pyx: ExplicitIndexer, subword/hash_indexers.pyx"), ("array subclasses", "storage/ndarray.py: NdArray, norms.py: Norms")],
  ["copy.copy", "copy.deepcopy", "pickle"])

p("C31", "Loading, writing and querying affect nothing but the named output",
  "Loading leaves the input file, its neighbours and open descriptors as they were, whether it succeeds or fails; writing and the tools create or change the named output and nothing else. "
  "No library call changes process-wide state: numpy error handling, print options and random state, working directory, environment, warning filters, limits. "
  "Loading always gives what the file holds at that moment, also after it was overwritten or replaced, and embeddings loaded earlier keep their content.",
  ["histories", "inputs", "fault_sequences"],
  "histories of loads (intact, damaged, missing files), writes, queries, tool runs and replaced files in all formats",
  "No test looks at anything besides the return value.",
  ["embeddings.py", "io.py", "compat/", "scripts/", "storage/"],
  [("file handling", "with open(...) in every loader and writer"), ("mapping", "storage/ndarray.py: mmap_chunk, storage/quantized.py: mmap_chunk")],
  ["load_*", "write_*", "Embeddings", "ffp-*"])

p("C32", "Answers depend on the arguments, not on process-wide settings",
  "What is loaded, written and answered is the same whatever process-wide settings the calling program has: the locale's character encoding "
  "(words, n-grams and metadata are UTF-8 in every file), numpy's print options and floating point warnings, and the working directory. "
  "A relative file name always means the file of that name in the current working directory, and embeddings loaded earlier under the same name keep their content. "
  "(The lists of words and queries read by the tools are in the locale's encoding.)",
  ["configurations", "inputs", "histories"],
  "all settings of locale encoding, numpy print options and working directory; all loaders, writers, queries and tools; all inputs",
  "The tests run under one locale with numpy's defaults and absolute paths.",
  ["embeddings.py", "io.py", "compat/", "scripts/", "storage/", "metadata.py", "vocab/vocab.py"],
  [("explicit encodings", "compat/text.py: load_text/load_text_dims/_write_text, vocab/vocab.py, metadata.py"), ("number formatting", "compat/text.py: _write_text, scripts/similar.py, scripts/analogy.py"), ("mapping by name", "storage/ndarray.py: mmap_chunk, storage/quantized.py: mmap_chunk")],
  ["load_*", "write_*", "Embeddings", "ffp-*"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
