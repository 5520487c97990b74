From 60b6d18b447e4cbf93527c6a17313d74a3a49d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:42 +0000
Subject: [PATCH 01/23] fix: similarity queries with k larger than the
 vocabulary

---
 src/finalfusion/embeddings.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/finalfusion/embeddings.py b/src/finalfusion/embeddings.py
index ee86099..ffc9921 100644
--- a/src/finalfusion/embeddings.py
+++ b/src/finalfusion/embeddings.py
@@ -609,9 +609,10 @@ class Embeddings:  # pylint: disable=too-many-instance-attributes
         skip_indices = set(skip for skip in (self.vocab.word_index.get(skip)
                                              for skip in skips)
                            if skip is not None)
-        partition = sims.argpartition(-k -
-                                      len(skip_indices))[-k -
-                                                         len(skip_indices):]
+        n_candidates = min(k + len(skip_indices), len(sims))
+        if n_candidates == 0:
+            return []
+        partition = sims.argpartition(-n_candidates)[-n_candidates:]
 
         heap = []  # type: List[SimilarityResult]
         for idx in partition:
-- 
2.43.0


From ccf79ba2ecf28811e6dbf57f428c0e9e4a1b44b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:42 +0000
Subject: [PATCH 02/23] fix: similarity queries on quantized storages

---
 src/finalfusion/embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/embeddings.py b/src/finalfusion/embeddings.py
index ffc9921..c10cf44 100644
--- a/src/finalfusion/embeddings.py
+++ b/src/finalfusion/embeddings.py
@@ -605,7 +605,7 @@ class Embeddings:  # pylint: disable=too-many-instance-attributes
     def _similarity(self, query: np.ndarray, k: int,
                     skips: Set[str]) -> List['SimilarityResult']:
         words = self.storage[:len(self.vocab)]  # type: np.ndarray
-        sims = words.dot(query)
+        sims = np.asarray(words).dot(query)
         skip_indices = set(skip for skip in (self.vocab.word_index.get(skip)
                                              for skip in skips)
                            if skip is not None)
-- 
2.43.0


From bf20d864d1e2d7bd19e4c4730c10256df0cd2098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:42 +0000
Subject: [PATCH 03/23] fix: scale by norms when iterating over QuantizedArray

---
 src/finalfusion/storage/quantized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index 80bbb0c..a2971ec 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -271,7 +271,7 @@ class QuantizedArray(Storage):
         return self.embedding(key)
 
     def __iter__(self) -> Iterator[np.ndarray]:
-        return map(self._quantizer.reconstruct, self._quantized_embeddings)
+        return map(self.embedding, range(len(self)))
 
     def __len__(self) -> int:
         return len(self._quantized_embeddings)
-- 
2.43.0


From 87b24793f7b4adeacf5629ad6e5bfd0ac488effd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:42 +0000
Subject: [PATCH 04/23] fix: support dtype argument in QuantizedArray.__array__

---
 src/finalfusion/storage/quantized.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index a2971ec..632998c 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -276,11 +276,11 @@ class QuantizedArray(Storage):
     def __len__(self) -> int:
         return len(self._quantized_embeddings)
 
-    def __array__(self) -> np.ndarray:
-        if self._norms is None:
-            return self._quantizer.reconstruct(self._quantized_embeddings)
-        return self._norms[:, None] * self._quantizer.reconstruct(
-            self._quantized_embeddings)
+    def __array__(self, dtype=None) -> np.ndarray:
+        array = self._quantizer.reconstruct(self._quantized_embeddings)
+        if self._norms is not None:
+            array = self._norms[:, None] * array
+        return array if dtype is None else array.astype(dtype, copy=False)
 
     @classmethod
     def load(cls, file: BinaryIO, mmap=False) -> 'QuantizedArray':
-- 
2.43.0


From c86a62017a7ae66f501a34918d57f8f1a1d79f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:42 +0000
Subject: [PATCH 05/23] fix: refuse norms that are not float32

---
 src/finalfusion/norms.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/finalfusion/norms.py b/src/finalfusion/norms.py
index c931dad..ff4068a 100644
--- a/src/finalfusion/norms.py
+++ b/src/finalfusion/norms.py
@@ -38,8 +38,7 @@ class Norms(np.ndarray, Chunk, Collection[float]):
         AssertionError
             If array is not a 1-d array of float32 values.
         """
-        if not np.issubdtype(array.dtype,
-                             np.float32) != np.float32 or array.ndim != 1:
+        if not np.issubdtype(array.dtype, np.float32) or array.ndim != 1:
             raise TypeError(
                 f"expected 1-d float32 array, not {array.ndim}-d {array.dtype}"
             )
-- 
2.43.0


From 81bdbf3121ead1acc1f70f631068c655d055be7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:42 +0000
Subject: [PATCH 06/23] fix: include n-gram indices in ExplicitVocab chunk
 length

---
 src/finalfusion/vocab/subword.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/finalfusion/vocab/subword.py b/src/finalfusion/vocab/subword.py
index 45193fe..07ae4d4 100644
--- a/src/finalfusion/vocab/subword.py
+++ b/src/finalfusion/vocab/subword.py
@@ -373,6 +373,8 @@ class ExplicitVocab(SubwordVocab):
         chunk_length = _calculate_binary_list_size(self.words)
         chunk_length += _calculate_binary_list_size(
             self.subword_indexer.ngrams)
+        chunk_length += len(
+            self.subword_indexer.ngrams) * struct.calcsize("<Q")
         min_n_max_n_size = struct.calcsize("<II")
         chunk_length += min_n_max_n_size
         chunk_header = (int(self.chunk_identifier()), chunk_length,
-- 
2.43.0


From 5c6c7986e49ca5c53f4970e1ea12b63c9a7a6d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:42 +0000
Subject: [PATCH 07/23] fix: accept empty and refuse negative ExplicitIndexer
 mappings

---
 src/finalfusion/subword/explicit_indexer.pyx | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/finalfusion/subword/explicit_indexer.pyx b/src/finalfusion/subword/explicit_indexer.pyx
index 968c461..b8e1e86 100644
--- a/src/finalfusion/subword/explicit_indexer.pyx
+++ b/src/finalfusion/subword/explicit_indexer.pyx
@@ -51,11 +51,10 @@ cdef class ExplicitIndexer:
                 f'ngrams cannot contain duplicate entries. {len(ngrams) - n_unique_ngrams} duplicates.'
             assert all(ngram in ngram_index for ngram in unique_ngrams) and (len(ngram_index) == len(ngrams)), \
                 'ngram_index needs to index all and only items in the ngrams list.'
-            max_idx = max(ngram_index.values())
-            n_unique_vals = len(set(ngram_index.values()))
-            assert max_idx + 1 == n_unique_vals, \
+            unique_vals = set(ngram_index.values())
+            assert unique_vals == set(range(len(unique_vals))), \
                 f"Indices need to cover 0, max(ngram_index.values())"
-            self._bound = max_idx + 1
+            self._bound = len(unique_vals)
         self._ngram_index = ngram_index
 
     @property
-- 
2.43.0


From f89ca1e47d8b996979edffa2776ff8fef4b865b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:42 +0000
Subject: [PATCH 08/23] fix: reject truncated vocabulary items

---
 src/finalfusion/vocab/vocab.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/finalfusion/vocab/vocab.py b/src/finalfusion/vocab/vocab.py
index b24ac31..27504e7 100644
--- a/src/finalfusion/vocab/vocab.py
+++ b/src/finalfusion/vocab/vocab.py
@@ -6,7 +6,7 @@ import struct
 from typing import List, Optional, Dict, Tuple, BinaryIO, Iterable, Any, Union, Sequence, \
     Iterator, Collection
 
-from finalfusion.io import Chunk, _read_required_binary, _write_binary
+from finalfusion.io import Chunk, FinalfusionFormatError, _read_required_binary, _write_binary
 
 
 class Vocab(Chunk, Collection[str]):
@@ -111,6 +111,18 @@ def _write_words_binary(b_words: Iterable[bytes], file: BinaryIO):
         file.write(word)
 
 
+def _read_item(file: BinaryIO) -> str:
+    """
+    Helper method to read a single length-prefixed item.
+    """
+    item_length = _read_required_binary(file, "<I")[0]
+    item = file.read(item_length)
+    if len(item) != item_length:
+        raise FinalfusionFormatError(
+            f'Could not read {item_length} bytes from file')
+    return item.decode("utf-8")
+
+
 def _read_items(file: BinaryIO, length: int) -> List[str]:
     """
     Helper method to read items from a vocabulary chunk.
@@ -129,9 +141,7 @@ def _read_items(file: BinaryIO, length: int) -> List[str]:
     """
     items = []
     for _ in range(length):
-        item_length = _read_required_binary(file, "<I")[0]
-        word = file.read(item_length).decode("utf-8")
-        items.append(word)
+        items.append(_read_item(file))
     return items
 
 
@@ -155,8 +165,7 @@ def _read_items_with_indices(file: BinaryIO,
     items = []
     index = dict()
     for _ in range(length):
-        item_length = _read_required_binary(file, "<I")[0]
-        item = file.read(item_length).decode("utf-8")
+        item = _read_item(file)
         idx = _read_required_binary(file, "<Q")[0]
         items.append(item)
         index[item] = idx
-- 
2.43.0


From 3f5584aedee43d7bb0eda273c511613901b928c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:42 +0000
Subject: [PATCH 09/23] fix: reject truncated norms

---
 src/finalfusion/norms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finalfusion/norms.py b/src/finalfusion/norms.py
index ff4068a..c1d2d34 100644
--- a/src/finalfusion/norms.py
+++ b/src/finalfusion/norms.py
@@ -58,6 +58,9 @@ class Norms(np.ndarray, Chunk, Collection[float]):
         padding = _pad_float32(file.tell())
         file.seek(padding, 1)
         array = np.fromfile(file=file, count=n_norms, dtype=np.float32)
+        if array.size != n_norms:
+            raise FinalfusionFormatError(
+                f'Could not read {n_norms} norms from file')
         if sys.byteorder == "big":
             array.byteswap(inplace=True)
         return Norms(array)
-- 
2.43.0


From 94e69bdf8da56ab1beee3fb53e1fd8d44b1cc623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:42 +0000
Subject: [PATCH 10/23] fix: reject truncated vectors in word2vec files

---
 src/finalfusion/compat/word2vec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/finalfusion/compat/word2vec.py b/src/finalfusion/compat/word2vec.py
index 32dbc82..c9aad8d 100644
--- a/src/finalfusion/compat/word2vec.py
+++ b/src/finalfusion/compat/word2vec.py
@@ -47,6 +47,8 @@ def load_word2vec(file: Union[str, bytes, int, PathLike],
         for row in matrix:
             words.append(_read_binary_word(inf, b' ', lossy).strip())
             array = np.fromfile(file=inf, count=cols, dtype=np.float32)
+            if array.size != cols:
+                raise EOFError
             if sys.byteorder == "big":
                 array.byteswap(inplace=True)
             row[:] = array
-- 
2.43.0


From 9f6b3a7307a837ac737a661c31afbe8e3ab98272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:42 +0000
Subject: [PATCH 11/23] fix: reject text embeddings with wrong number of
 components

---
 src/finalfusion/compat/text.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finalfusion/compat/text.py b/src/finalfusion/compat/text.py
index dd7f8d9..32a4832 100644
--- a/src/finalfusion/compat/text.py
+++ b/src/finalfusion/compat/text.py
@@ -145,6 +145,9 @@ def _load_text(file: TextIO, rows: int, cols: int) -> Embeddings:
     matrix = np.zeros((rows, cols), dtype=np.float32)
     for row, line in zip(matrix, file):
         parts = _ASCII_WHITESPACE_PAT.split(line.rstrip())
+        if len(parts) != cols + 1:
+            raise ValueError(
+                f'Expected {cols} components, found: {len(parts) - 1}')
         words.append(parts[0])
         row[:] = parts[1:]
     storage = NdArray(matrix)
-- 
2.43.0


From 68718b4e6d9a6e35f402005b8373516a397f7857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:42 +0000
Subject: [PATCH 12/23] fix: leave zero vectors unchanged when normalizing

---
 src/finalfusion/_util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/finalfusion/_util.py b/src/finalfusion/_util.py
index 5fa82f8..eafa76f 100644
--- a/src/finalfusion/_util.py
+++ b/src/finalfusion/_util.py
@@ -8,7 +8,10 @@ from finalfusion.norms import Norms
 
 def _normalize_matrix(storage: np.ndarray) -> Norms:
     norms = np.linalg.norm(storage, axis=1)
-    storage /= norms[:, None]
+    np.divide(storage,
+              norms[:, None],
+              out=storage,
+              where=norms[:, None] != 0)
     return Norms(norms)
 
 
-- 
2.43.0


From 95a599a7ada2de7368fd8d01016448c3e45b8fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:42 +0000
Subject: [PATCH 13/23] fix: do not normalize zero vectors of unknown words

---
 src/finalfusion/embeddings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/finalfusion/embeddings.py b/src/finalfusion/embeddings.py
index c10cf44..b7d4dd8 100644
--- a/src/finalfusion/embeddings.py
+++ b/src/finalfusion/embeddings.py
@@ -638,7 +638,8 @@ class Embeddings:  # pylint: disable=too-many-instance-attributes
         else:
             out = np.add.reduce(res, 0, out=out, keepdims=False)
             norm = np.linalg.norm(out)
-            out /= norm
+            if norm != 0:
+                out /= norm
         return out, norm
 
     @staticmethod
-- 
2.43.0


From 6716e4cbac4f277a73a4ec5ebe5e4a509ea4a2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:42 +0000
Subject: [PATCH 14/23] fix: do not normalize zero vectors in analogy queries

---
 src/finalfusion/embeddings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/finalfusion/embeddings.py b/src/finalfusion/embeddings.py
index b7d4dd8..9b95ade 100644
--- a/src/finalfusion/embeddings.py
+++ b/src/finalfusion/embeddings.py
@@ -518,7 +518,9 @@ class Embeddings:  # pylint: disable=too-many-instance-attributes
             return None
         diff = embed_b - embed_a
         embed_d = embed_c + diff
-        embed_d /= np.linalg.norm(embed_d)
+        norm = np.linalg.norm(embed_d)
+        if norm != 0:
+            embed_d /= norm
         return self._similarity(
             embed_d, k, {word1, word2, word3} if skip is None else skip)
 
-- 
2.43.0


From 5e7977a5505b2b7bf5804d1084f04c9a5c146ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:42 +0000
Subject: [PATCH 15/23] fix: only strip ASCII whitespace from word2vec words

---
 src/finalfusion/compat/word2vec.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/finalfusion/compat/word2vec.py b/src/finalfusion/compat/word2vec.py
index c9aad8d..b999ada 100644
--- a/src/finalfusion/compat/word2vec.py
+++ b/src/finalfusion/compat/word2vec.py
@@ -2,6 +2,7 @@
 Word2vec binary format.
 """
 
+import string
 import sys
 from os import PathLike
 from typing import Union, BinaryIO, AnyStr
@@ -45,7 +46,8 @@ def load_word2vec(file: Union[str, bytes, int, PathLike],
         rows, cols = map(int, inf.readline().decode("ascii").split())
         matrix = np.zeros((rows, cols), dtype=np.float32)
         for row in matrix:
-            words.append(_read_binary_word(inf, b' ', lossy).strip())
+            words.append(
+                _read_binary_word(inf, b' ', lossy).strip(string.whitespace))
             array = np.fromfile(file=inf, count=cols, dtype=np.float32)
             if array.size != cols:
                 raise EOFError
-- 
2.43.0


From 3e852a024dc33e06debe1f7bdc9d17090808636e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:42 +0000
Subject: [PATCH 16/23] fix: exclude third query word in ffp-analogy

---
 src/finalfusion/scripts/analogy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/scripts/analogy.py b/src/finalfusion/scripts/analogy.py
index 934c450..1bf5cb9 100644
--- a/src/finalfusion/scripts/analogy.py
+++ b/src/finalfusion/scripts/analogy.py
@@ -72,7 +72,7 @@ def get_skips(  # pylint: disable=missing-function-docstring
     if 'b' not in includes:
         skips.add(query_b)
     if 'c' not in includes:
-        skips.add(query_b)
+        skips.add(query_c)
     return skips
 
 
-- 
2.43.0


From 6af1a2e0ec4b0d026ccf2922b37ee2f3ee871649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:42 +0000
Subject: [PATCH 17/23] fix: leave out ignored unknown words in ffp-select

---
 src/finalfusion/scripts/select.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/finalfusion/scripts/select.py b/src/finalfusion/scripts/select.py
index 5ae4b27..d252c30 100644
--- a/src/finalfusion/scripts/select.py
+++ b/src/finalfusion/scripts/select.py
@@ -45,19 +45,21 @@ def main() -> None:  # pylint: disable=missing-function-docstring
         unique_words = set(word.strip() for word in inp)
         matrix = np.zeros((len(unique_words), embeds.storage.shape[1]),
                           dtype=np.float32)
-        vocab = SimpleVocab(list(unique_words))
-        for i, word in enumerate(vocab):
+        words = []
+        for word in unique_words:
             try:
-                matrix[i] = embeds[word]
+                matrix[len(words)] = embeds[word]
+                words.append(word)
             except KeyError:
                 if args.verbose or not args.ignore_unk:
                     print(f"Cannot represent '{word}'.", file=sys.stderr)
                 if not args.ignore_unk:
                     sys.exit(1)
+    vocab = SimpleVocab(words)
     metadata = Metadata({"source_embeddings": args.input})
     if embeds.metadata is not None:
         metadata["source_metadata"] = embeds.metadata
-    Embeddings(storage=NdArray(matrix), vocab=vocab,
+    Embeddings(storage=NdArray(matrix[:len(words)]), vocab=vocab,
                metadata=metadata).write(args.output)
 
 
-- 
2.43.0


From da1fd5702b015e3bb501041fd199f1d97a72db3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:42 +0000
Subject: [PATCH 18/23] fix: report failing writes of array data

---
 src/finalfusion/io.py                | 7 ++++---
 src/finalfusion/storage/quantized.py | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/finalfusion/io.py b/src/finalfusion/io.py
index 418f746..7ddc15f 100644
--- a/src/finalfusion/io.py
+++ b/src/finalfusion/io.py
@@ -317,13 +317,14 @@ def _serialize_array_as_le(file: BinaryIO, array: np.ndarray):
     array_bo = array.dtype.byteorder
     array_is_le = array_bo in "<|" or (array_bo == "=" and native_is_le)
     if array_is_le:
-        array.tofile(file)
+        file.write(np.ascontiguousarray(array).data)
     else:
         if array.ndim == 2:
             for row in array:
-                row.byteswap(inplace=False).tofile(file)
+                file.write(row.byteswap(inplace=False).data)
         else:
-            array.byteswap(inplace=False).tofile(file)
+            file.write(
+                np.ascontiguousarray(array.byteswap(inplace=False)).data)
 
 
 def _read_array_as_native(file: BinaryIO, dtype: np.dtype,
diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index 632998c..bf789fe 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -336,7 +336,7 @@ class QuantizedArray(Storage):
         _serialize_array_as_le(file, self.quantizer.subquantizers)
         if norms:
             _serialize_array_as_le(file, self._norms)
-        self._quantized_embeddings.tofile(file)
+        _serialize_array_as_le(file, self._quantized_embeddings)
 
     @staticmethod
     def chunk_identifier() -> ChunkIdentifier:
-- 
2.43.0


From 0f7442c622c7e25f308e1d9e71c9927a24ca7fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:42 +0000
Subject: [PATCH 19/23] fix: write quantized embeddings in fastText format

---
 src/finalfusion/compat/fasttext.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/finalfusion/compat/fasttext.py b/src/finalfusion/compat/fasttext.py
index 34d3367..914227b 100644
--- a/src/finalfusion/compat/fasttext.py
+++ b/src/finalfusion/compat/fasttext.py
@@ -109,7 +109,6 @@ def write_fasttext(file: Union[str, bytes, int, PathLike], embeds: Embeddings):
             _write_ft_storage_simple(outf, embeds)
         else:
             _write_ft_storage_subwords(outf, embeds)
-        _serialize_array_as_le(outf, embeds.storage)
 
 
 def _read_ft_header(file: BinaryIO):
@@ -295,7 +294,7 @@ def _write_ft_storage_subwords(outf: BinaryIO, embeds: Embeddings):
         embed -= sw_embeds.sum(0, keepdims=False)
         _serialize_array_as_le(outf, embed)
 
-    _serialize_array_as_le(outf, storage[len(vocab):])
+    _serialize_array_as_le(outf, np.asarray(storage[len(vocab):]))
 
 
 def _write_ft_storage_simple(outf: BinaryIO, embeds: Embeddings):
-- 
2.43.0


From 1766db890aa829106f57adf7f25bfdcef6eb1b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:23 +0000
Subject: [PATCH 20/23] fix: project reconstructions that are not C-contiguous

---
 src/finalfusion/storage/quantized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index bf789fe..705551b 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -149,7 +149,7 @@ class PQ:
             out[:] = self._quantizers[quantizers_range, quantized].reshape(
                 out.shape)
         if self.projection is not None:
-            out.dot(self.projection.T, out=out)
+            out[:] = out.dot(self.projection.T)
         return out
 
 
-- 
2.43.0


From 263b8fcffb95d1535eacea5cea44a5b07bddbeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:21 +0000
Subject: [PATCH 21/23] fix: refuse quantized array parts that the chunk can't
 express

---
 src/finalfusion/storage/quantized.py | 33 +++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/finalfusion/storage/quantized.py b/src/finalfusion/storage/quantized.py
index 705551b..0024d93 100644
--- a/src/finalfusion/storage/quantized.py
+++ b/src/finalfusion/storage/quantized.py
@@ -38,16 +38,21 @@ class PQ:
         Parameters
         ----------
         quantizers : np.ndarray
-            3-d ndarray with dtype uint8
+            3-d ndarray with dtype float32
         projection : np.ndarray, optional
             Projection matrix, must be a square matrix with shape
             `[reconstructed_len, reconstructed_len]`
 
         Raises
         ------
+        TypeError
+            If the quantizers are not a 3-d or the projection not a 2-d float32 array.
         AssertionError
             If the projection shape does not match the `reconstructed_len`
         """
+        _verify_array("quantizers", quantizers, 3, np.float32)
+        if projection is not None:
+            _verify_array("projection", projection, 2, np.float32)
         self._quantizers = quantizers
         self._reconstructed_len = cast(
             int, quantizers.shape[0] * quantizers.shape[2])
@@ -192,7 +197,23 @@ class QuantizedArray(Storage):
         norms : numpy.ndarray, optional
             Optional norms corresponding to the quantized embeddings. Reconstructed embeddings are
             scaled by their norm.
+
+        Raises
+        ------
+        TypeError
+            If the quantized embeddings are not a 2-d uint8 array or the norms are not a 1-d float32
+            array.
+        AssertionError
+            If the quantized embeddings don't match the quantizer or the norms.
         """
+        _verify_array("quantized embeddings", quantized_embeddings, 2,
+                      np.uint8)
+        assert quantized_embeddings.shape[1] == pq.subquantizers.shape[0],\
+            "Quantized embeddings need one column per quantizer."
+        if norms is not None:
+            _verify_array("norms", norms, 1, np.float32)
+            assert len(norms) == len(quantized_embeddings),\
+                "Number of norms needs to be equal to number of embeddings."
         self._quantizer = pq
         self._quantized_embeddings = quantized_embeddings
         self._norms = norms
@@ -387,6 +408,16 @@ class QuantizedArray(Storage):
         return quantizer, (n_embeddings, quantized_len), norms
 
 
+def _verify_array(name: str, array: np.ndarray, ndim: int, dtype: type):
+    """
+    Helper method to verify that an array can be stored in a quantized array chunk.
+    """
+    if not np.issubdtype(array.dtype, dtype) or array.ndim != ndim:
+        raise TypeError(
+            f"expected {ndim}-d {np.dtype(dtype)} array as {name}, "
+            f"not {array.ndim}-d {array.dtype}")
+
+
 def load_quantized_array(file: Union[str, bytes, int, PathLike],
                          mmap: bool = False) -> QuantizedArray:
     """
-- 
2.43.0


From 344be6cb7902f14712edfb1dc0b7d7b03386e202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:09 +0000
Subject: [PATCH 22/23] fix: refuse unknown loss and model codes in fastText
 files

Codes between -2 and 0 indexed the lists of names from their end, so such
files were loaded with an arbitrary loss or model as metadata.
---
 src/finalfusion/compat/fasttext.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/finalfusion/compat/fasttext.py b/src/finalfusion/compat/fasttext.py
index 914227b..d63a0ef 100644
--- a/src/finalfusion/compat/fasttext.py
+++ b/src/finalfusion/compat/fasttext.py
@@ -128,8 +128,12 @@ def _read_ft_cfg(file: BinaryIO) -> Metadata:
     """
     cfg = list(_read_required_binary(file, "<12id"))
     losses = ['HierarchicalSoftmax', 'NegativeSampling', 'Softmax']
+    if not 1 <= cfg[6] <= len(losses):
+        raise ValueError(f"Unknown loss: {cfg[6]}")
     cfg[6] = losses[cfg[6] - 1]
     models = ['CBOW', 'SkipGram', 'Supervised']
+    if not 1 <= cfg[7] <= len(models):
+        raise ValueError(f"Unknown model: {cfg[7]}")
     cfg[7] = models[cfg[7] - 1]
     return Metadata(dict(zip(_FT_REQUIRED_CFG_KEYS, cfg)))
 
-- 
2.43.0


From c0815638cb4b30406d65a73456d7a589dcbd25d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:09 +0000
Subject: [PATCH 23/23] fix: refuse fastText matrices of another shape than the
 model's

The shape stored with the matrix was used without comparing it to the
configured dimensionality, so a file with contradicting values was loaded
with its components assigned to the wrong words; negative values made the
reader guess the shape.
---
 src/finalfusion/compat/fasttext.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/finalfusion/compat/fasttext.py b/src/finalfusion/compat/fasttext.py
index d63a0ef..db57f7e 100644
--- a/src/finalfusion/compat/fasttext.py
+++ b/src/finalfusion/compat/fasttext.py
@@ -49,7 +49,7 @@ def load_fasttext(file: Union[str, bytes, int, PathLike],
         metadata = _read_ft_cfg(inf)
         vocab = _read_ft_vocab(inf, metadata['buckets'], metadata['min_n'],
                                metadata['max_n'], lossy)
-        storage = _read_ft_storage(inf, vocab)
+        storage = _read_ft_storage(inf, vocab, metadata['dims'])
         norms = _normalize_matrix(storage[:len(vocab)])
     return Embeddings(storage=storage,
                       vocab=vocab,
@@ -183,7 +183,7 @@ def _read_binary_word(file: BinaryIO, lossy: bool) -> str:
     return word.decode('utf8', errors='replace' if lossy else 'strict')
 
 
-def _read_ft_storage(file: BinaryIO, vocab: Vocab) -> NdArray:
+def _read_ft_storage(file: BinaryIO, vocab: Vocab, dims: int) -> NdArray:
     """
     Helper method to read fastText storage.
 
@@ -196,6 +196,10 @@ def _read_ft_storage(file: BinaryIO, vocab: Vocab) -> NdArray:
         raise NotImplementedError(
             "Quantized storage is not supported for fastText models")
     rows, cols = _read_required_binary(file, "<qq")
+    if (rows, cols) != (vocab.upper_bound, dims):
+        raise ValueError(
+            f"Expected {vocab.upper_bound} x {dims} matrix, not: {rows} x {cols}"
+        )
     matrix = np.fromfile(file=file, count=rows * cols,
                          dtype=np.float32).reshape((rows, cols))
     if sys.byteorder == 'big':
-- 
2.43.0

