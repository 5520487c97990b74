"""C12: no history of queries alters embeddings or later answers."""
import sys
import threading

import numpy as np
import toml
from hypothesis import strategies as st

from .. import gen, many, model as M, oracle as O
from ..core import Sub, require, rejects, sut, outcome

LEVEL = "exploration"
ASSUMPTIONS = ["Vectors of known words of an array storage are views of the matrix by design; "
               "the histories write only into buffers, vectors computed for unknown words and "
               "the caller's own arrays.",
               "Answers are compared with the reference model after every operation instead "
               "of with each other; equal answers within rounding follow."]

OPS = ["get", "get", "embedding", "buffered", "buffered", "with_norm", "with_norm_out",
       "iter_new", "iter_next", "iter_next", "iter_all", "similar", "vecsim", "analogy",
       "analogy", "convert", "write", "reload", "mmap", "w2v", "text", "fasttext", "chunk",
       "contains", "slice", "repr", "vocab_iter", "sibling", "set_norms", "unset_norms",
       "bad_norms", "set_meta", "unset_meta", "bad_meta", "default", "array"]


@st.composite
def op(draw):
    return [draw(st.sampled_from(OPS)), draw(st.integers(0, 7)), draw(st.integers(0, 63)),
            draw(st.integers(0, 63)), draw(st.integers(0, 63))]


@st.composite
def strategy(draw):
    embs = []
    for _ in range(draw(st.integers(1, 2))):
        c = draw(gen.emb_case(fills=gen.TAME, hi=6, long=False, big=False,
                              lo=0 if gen.rarely(draw, 10) else 2,
                              bulk=gen.rarely(draw, 10),
                              layouts=("C", "C", "F", "rows2", "rev", "ro")))
        embs.append(c)
    words = sum((gen.words_of(c["vocab"]["words"])[:8] for c in embs), [])
    queries = draw(st.lists(gen.query(words), min_size=3, max_size=8))
    n = draw(st.integers(2, 24))
    ops = draw(st.lists(op(), min_size=n, max_size=n))
    for i in range(1, n):                # the same operation again
        if gen.rarely(draw, 5):
            ops[i] = list(ops[draw(st.integers(0, i - 1))])
    return dict(embs=embs, queries=queries + words[:4], ops=ops)


class World:
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.pairs = [gen.build(c) for c in case["embs"]]
        self.iters = []
        self.files = []
        self.buffers = {}
        self.oov = 0
        self.held = []
        self.results = []

    def hold(self, array, keep):
        """Keeps an answer; it must not change any more."""
        if keep and len(self.held) < 30:
            self.held.append((array, np.array(array)))
        return keep

    def q(self, i):
        qs = self.case["queries"]
        return qs[i % len(qs)]

    def add(self, em, e):
        if len(self.pairs) < 8:
            self.pairs.append((em, e))

    def buffer(self, dims, i):
        key = dims, i % 3
        if key not in self.buffers:
            self.buffers[key] = [np.full(dims, 8, dtype=np.float32),
                                 np.full((dims, 2), 8, dtype=np.float32)[:, 0],
                                 np.full((3, dims), 8, dtype=np.float32)[1]][i % 3]
        return self.buffers[key]


def vector(w, em, e, got, word, what, keep=False):
    ref = em.lookup(word)
    if ref is None:
        require(got is None, lambda: f"{what}: {got}, expected None")
        return
    require(got is not None, lambda: f"{what}: None")
    O.check_vector(got, ref, what)
    if ref[3] == "known":
        if em.storage.kind == "nd":
            O.same_bits(got, em.storage.array[em.vocab.pos[word]], what)
        w.hold(got, keep)
    else:
        w.oov += 1
        if not w.hold(got, keep):
            got[:] = 1e6                 # a computed vector belongs to the caller


def pairs(res):
    return [(r.word, float(r.similarity)) for r in res]


def spoil(res):
    if isinstance(res, list) and res:
        res.pop(0)                       # a result belongs to the caller


def run_op(w, name, a, b, c, d):
    import finalfusion
    from finalfusion import Embeddings, Metadata
    from finalfusion.compat import write_word2vec, write_text, write_text_dims, write_fasttext
    from finalfusion.norms import Norms
    em, e = w.pairs[a % len(w.pairs)]
    n, dims = len(em.vocab.words), em.storage.shape[1]
    word = w.q(b)
    what = f"{name} {word[:20]!r}"
    if name == "get":
        if em.lookup(word) is None:
            rejects(what, lambda: e[word], KeyError)
        else:
            vector(w, em, e, e[word], word, what, c % 2)
    elif name == "embedding":
        vector(w, em, e, e.embedding(word), word, what, c % 2)
    elif name in ("buffered", "default"):
        buf = w.buffer(dims, c)
        default = gen.fill(d, (dims,), "normal") if name == "default" else None
        keep = buf.copy()
        got = e.embedding(word, out=buf, default=default)
        if em.lookup(word) is None:
            if default is None:
                require(got is None and np.array_equal(buf, keep), f"{what}: buffer touched")
            else:
                require(got is buf and np.array_equal(buf, default), f"{what}: default")
        else:
            require(got is buf, f"{what}: not the buffer")
            vector(w, em, e, got, word, what)
        if default is not None:
            default[:] = -3
        buf[:] = 7 + d                   # buffers belong to the caller
    elif name in ("with_norm", "with_norm_out"):
        if em.norms is None:
            rejects(what, lambda: e.embedding_with_norm(word), TypeError)
            return
        ref = em.lookup(word)
        args = {"out": w.buffer(dims, c)} if name == "with_norm_out" else {}
        got = e.embedding_with_norm(word, **args)
        if ref is None:
            require(got is None, f"{what}: not None")
        else:
            O.check_norm(got[1], ref, what)
            vector(w, em, e, got[0], word, what, name == "with_norm" and c % 2)
        for buf in args.values():
            buf[:] = d
    elif name == "iter_new":
        w.iters.append([iter(e), em, 0, em.norms])
    elif name == "iter_next" and w.iters:
        it = w.iters[c % len(w.iters)]
        item = next(it[0], None)
        _, m, i, norms = it
        if i >= len(m.vocab.words):
            require(item is None, f"{what}: iterator goes on after the last word")
            return
        it[2] += 1
        require(item is not None, f"{what}: iterator ends after {i} words")
        require(item[0] == m.vocab.words[i], lambda: f"{what}: {item[0]!r} at position {i}")
        O.check_vector(item[1], m.lookup(item[0]), f"{what} at {i}")
        if norms is not None and m.norms is norms:
            require(len(item) == 3 and np.float32(item[2]) == norms[i], f"{what}: norm")
    elif name == "iter_all":
        items = list(e)
        require([x[0] for x in items] == em.vocab.words, f"{what}: words")
        for i, x in enumerate(items):
            O.check_vector(x[1], em.lookup(x[0]), f"{what} at {i}")
            require(len(x) == (2 if em.norms is None else 3), f"{what}: item length")
            if em.norms is not None:
                require(np.float32(x[2]) == em.norms[i], f"{what}: norm at {i}")
    elif name == "similar":
        res, ref = e.word_similarity(word, k=c % 9), O.query_vec(em, word)
        if ref is None:
            require(res is None, f"{what}: not None")
        else:
            O.check_neighbours(res, em, *ref, c % 9, {word}, what)
            if d % 2:
                w.results.append((res, pairs(res)))
            else:
                spoil(res)
    elif name == "vecsim":
        skip = {w.q(c), w.q(d)} if d % 3 else None
        vec = gen.fill(c, (dims,), "normal")
        if c % 2 and n:                  # a view of the matrix, if it is an array
            vec = e[em.vocab.words[c % n]]
        ref = np.array(vec, dtype=np.float64)
        args = {} if skip is None else {"skip": skip}
        res = e.embedding_similarity(vec, k=d % 9, **args)
        O.check_neighbours(res, em, ref, np.zeros(dims), d % 9, skip or set(), what)
        spoil(res)
        require(np.array_equal(np.array(vec, dtype=np.float64), ref), f"{what}: query changed")
    elif name == "analogy":
        q = w.q(b), w.q(c), w.q(d)
        skip = [None, set(), {w.q(b + c)}][(b + c + d) % 3]
        res, ref = e.analogy(*q, k=1 + c % 5, skip=skip), O.analogy_vec(em, *q)
        if ref is None:
            require(res is None, f"{what}: not None")
        else:
            O.check_neighbours(res, em, *ref, 1 + c % 5, set(q) if skip is None else skip, what)
            spoil(res)
    elif name == "convert":
        if em.vocab.kind not in ("ff", "ft"):
            rejects(what, e.bucket_to_explicit, TypeError)
            return
        e2 = e.bucket_to_explicit()
        w.add(O.explicit_of(em, e2, what), e2)
    elif name in ("write", "reload", "mmap"):
        path = w.ctx.path(f"{len(w.files)}.fifu")
        e.write(path)
        with open(path, "rb") as f:
            data = f.read()
        w.files.append((path, data))
        stored(em, data, what)
        if name != "write" and len(w.pairs) < 8:
            mm = name == "mmap" and em.storage.shape[0] > 0
            w.add(M.EmbM(em.vocab, em.storage, em.norms, em.meta),
                  finalfusion.load_finalfusion(path, mmap=mm))
    elif name == "w2v":
        write_word2vec(w.ctx.path("x.w2v"), e)
    elif name == "text":
        (write_text if c % 2 else write_text_dims)(w.ctx.path("x.txt"), e)
    elif name == "fasttext":
        how, err = outcome(lambda: write_fasttext(w.ctx.path("x.bin"), e))
        require(how == "err" or em.vocab.kind == "ft", f"{what}: {how}")
        require(how == "ok" or em.vocab.kind != "ft" or em.vocab.hi >= 1 << 31,
                f"{what}: {err}")        # the format's n-gram bounds are signed
    elif name == "chunk":
        for ch in e.chunks():
            ch.write(w.ctx.path("x.chunk"))
    elif name == "contains":
        require((word in e) == (word in em.vocab.pos), f"{what}: membership")
        require(len(e.vocab) == n and e.n_words == n, f"{what}: size")
    elif name == "slice":
        lo, hi, step = b % (n + 2), c % (n + 3), [None, 1, 2, -1][d % 4]
        s = slice(lo, hi, step)
        got = np.asarray(e.storage[s])
        O.close(got, em.dense()[s], 4e-6 * em.scale()[s] + 1e-37, what)
        if em.norms is not None:
            O.same_bits(e.norms[s], np.ascontiguousarray(em.norms[s]), what)
    elif name == "repr":
        repr(e), str(e), repr(e.vocab), repr(e.storage), e.origin
    elif name == "vocab_iter":
        require(list(e.vocab) == em.vocab.words, f"{what}: words")
        got = e.vocab.idx(word)
        want = em.vocab.idx(word)
        require(got == want, lambda: f"{what}: {got}, expected {want}")
        if isinstance(got, list):
            got.append(3)                # a result belongs to the caller
        if em.vocab.kind != "simple":
            for res in (e.vocab.subwords(word), e.vocab.subword_indices(word),
                        e.vocab.subword_indices(word, with_ngrams=True)):
                res.reverse()
                res.append(3)
    elif name == "array":
        if em.storage.kind == "pq":
            got = np.asarray(e.storage)
            got[...] = 5                 # restored into a new buffer
    elif name == "sibling":
        e2 = Embeddings(e.storage, e.vocab, e.norms, e.metadata)
        w.add(M.EmbM(em.vocab, em.storage, em.norms, em.meta), e2)
    elif name == "set_norms":
        new = gen.fill(c + 64 * d, (n,), "pos")
        e.norms = Norms(new.copy())
        em.norms = new
    elif name == "unset_norms":
        e.norms = None
        em.norms = None
    elif name == "bad_norms":
        bad = [Norms(np.ones(n + 1, dtype=np.float32)), np.ones(n, dtype=np.float32),
               [1.0] * n, 0.5, "x"] + ([Norms(np.ones(n - 1, dtype=np.float32))] if n else [])
        bad = bad[c % len(bad)]

        def assign():
            e.norms = bad
        rejects(f"assigning {type(bad).__name__} of wrong type or size as norms", assign)
    elif name == "set_meta":
        new = [{}, {"a": 1}, {"b": {"c": [1, 2]}}][c % 3]
        e.metadata = Metadata(new)
        em.meta = new
    elif name == "unset_meta":
        e.metadata = None
        em.meta = None
    elif name == "bad_meta":
        bad = [{"a": 1}, "x", 5, []][c % 4]

        def assign_meta():
            e.metadata = bad
        rejects(f"assigning {bad!r} as metadata", assign_meta)


def stored(em, data, what):
    """A written file against the model, bit for bit."""
    chunks = M.parse_file(data)
    want = em.chunks("" if em.meta is not None else None)
    require([c for c, _ in chunks] == [c for c, _ in want], f"{what}: chunks of the file")
    for cid, obj in chunks:
        if cid in (M.NDARRAY, M.PQ):
            O.parsed_storage_equals(obj, em.storage, f"{what}: file")
        elif cid == M.NORMS:
            O.same_bits(obj, em.norms, f"{what}: norms in the file")
        elif cid == M.META:
            require(gen.same(toml.loads(obj), em.meta), f"{what}: metadata in the file")
        else:
            require((obj.kind, obj.words, obj.lo, obj.hi, obj.buckets, obj.table) ==
                    (em.vocab.kind, em.vocab.words, em.vocab.lo, em.vocab.hi,
                     em.vocab.buckets, em.vocab.table), f"{what}: vocabulary in the file")


def check(case, ctx):
    w = World(case, ctx)
    done = set()
    for i, (name, a, b, c, d) in enumerate(case["ops"]):
        with sut(f"operation {i}: {name}"):
            run_op(w, name, a, b, c, d)
        done.add(name)
        ctx.label(name)
        for j, (em, e) in enumerate(w.pairs):
            O.emb_equals(e, em, f"embeddings {j} after operation {i} ({name})")
        for got, kept in w.held:
            require(np.array_equal(got, kept, equal_nan=True),
                    lambda: f"operation {i} ({name}) changes an earlier answer")
        for got, kept in w.results:
            require(pairs(got) == kept,
                    lambda: f"operation {i} ({name}) changes an earlier list of neighbours")
    for path, data in w.files:
        with open(path, "rb") as f:
            require(f.read() == data, f"file {path} changed later")
    for j, (em, e) in enumerate(w.pairs):
        with sut(f"final write of embeddings {j}"):
            e.write(ctx.path("final.fifu"))
        with open(ctx.path("final.fifu"), "rb") as f:
            stored(em, f.read(), f"final write of embeddings {j}")
    ctx.label("computed vectors overwritten", w.oov)
    return len(done) >= 4 and any(len(em.vocab.words) for em, _ in w.pairs)


READS = ["get", "get", "embedding", "buffered", "with_norm", "with_norm_out", "iter_all",
         "similar", "vecsim", "analogy", "convert", "reload", "mmap", "w2v", "text", "chunk",
         "contains", "slice", "vocab_iter", "default", "array"]


@st.composite
def threads_strategy(draw):
    case = draw(strategy())
    case["ops"] = []
    case["threads"] = [
        [[draw(st.sampled_from(READS))] + x[1:] for x in draw(st.lists(op(), min_size=4,
                                                                        max_size=10))]
        for _ in range(draw(st.integers(2, 4)))]
    case["switch"] = draw(st.sampled_from([1e-6, 1e-5, 1e-4]))
    return case


class Part:
    """What a thread sees of the context: its own files."""
    def __init__(self, ctx, i):
        self.ctx, self.i = ctx, i

    def path(self, name):
        return self.ctx.path(f"{self.i}-{name}")


def in_threads(case, run, args):
    before = sys.getswitchinterval()
    sys.setswitchinterval(case["switch"])
    try:
        ts = [threading.Thread(target=run, args=x, daemon=True) for x in args]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(before)


def threads_check(case, ctx):
    """Queries from several threads at once, each judged as if it were alone."""
    shared = World(case, ctx)
    failed = []
    ready = threading.Barrier(len(case["threads"]))

    def run(i, ops):
        w = World(dict(case, embs=[]), Part(ctx, i))
        w.pairs = list(shared.pairs)
        ready.wait()
        try:
            for _ in range(3):
                for name, a, b, c, d in ops:
                    if failed:
                        return
                    with sut(f"thread {i}: {name}"):
                        run_op(w, name, a, b, c, d)
                for got, kept in w.held:
                    require(np.array_equal(got, kept, equal_nan=True),
                            f"an earlier answer of thread {i} changed")
        except BaseException as err:
            failed.append(err)
    in_threads(case, run, enumerate(case["threads"]))
    if failed:
        raise failed[0]
    for j, (em, e) in enumerate(shared.pairs):
        O.emb_equals(e, em, f"embeddings {j} after all threads")
    return any(len(em.vocab.words) for em, _ in shared.pairs)


ASKS = ["get", "with_norm", "idx", "subwords", "similar", "similar", "vecsim", "analogy",
        "rows", "iter", "buffered"]


@st.composite
def contention_strategy(draw):
    case = draw(strategy())
    case["ops"] = []
    kinds = draw(st.lists(st.sampled_from(ASKS), min_size=1, max_size=2))
    case["asks"] = [[draw(st.sampled_from(kinds)), draw(st.integers(0, 1))] +
                    [draw(st.integers(0, 63)) for _ in range(3)]
                    for _ in range(draw(st.integers(2, 4)))]
    case["switch"] = draw(st.sampled_from([1e-6, 1e-6, 1e-5]))
    return case


def ask(w, name, a, b, c, d):
    """(query, form of its answer that can be compared, judge of an answer)"""
    em, e = w.pairs[a % len(w.pairs)]
    word, k = w.q(b), 1 + c % 4
    dims = em.storage.shape[1]
    what = f"{name} {word[:20]!r}"
    ref = em.lookup(word)
    if name in ("get", "buffered"):
        def judge(v):
            require((v is None) == (ref is None), f"{what}: {v}")
            if v is not None:
                O.check_vector(v, ref, what)
        if name == "get":
            return lambda: e.embedding(word), lambda v: v if v is None else v.tolist(), judge
        buf = np.zeros(dims, dtype=np.float32)
        return (lambda: e.embedding(word, out=buf),
                lambda v: v if v is None else v.tolist(), judge)
    if name == "with_norm" and em.norms is not None:
        def judge(r):
            require((r is None) == (ref is None), f"{what}: {r}")
            if r is not None:
                O.check_vector(r[0], ref, what)
                O.check_norm(r[1], ref, what)
        return (lambda: e.embedding_with_norm(word),
                lambda r: r if r is None else r[0].tolist() + [float(r[1])], judge)
    if name in ("idx", "with_norm") or name == "subwords" and em.vocab.kind == "simple":
        want = em.vocab.idx(word)
        return (lambda: e.vocab.idx(word), lambda r: r,
                lambda r: require(r == want, lambda: f"{what}: {r}, expected {want}"))
    if name == "subwords":
        def judge(r):
            require(r == M.ngrams(word, em.vocab.lo, em.vocab.hi), lambda: f"{what}: {r}")
        return lambda: e.vocab.subwords(word), lambda r: r, judge
    if name in ("similar", "analogy", "vecsim"):
        skip = {word}
        if name == "vecsim":
            vec = gen.fill(c, (dims,), "normal")
            target, query = (vec.astype(np.float64), np.zeros(dims)), \
                lambda: e.embedding_similarity(vec, k=k, skip=skip)
        elif name == "similar":
            target, query = O.query_vec(em, word), lambda: e.word_similarity(word, k=k)
        else:
            q = word, w.q(c), w.q(d)
            skip = set(q)
            target, query = O.analogy_vec(em, *q), lambda: e.analogy(*q, k=k)

        def judge(r):
            if target is None:
                require(r is None, f"{what}: not None")
            else:
                O.check_neighbours(r, em, *target, k, skip, what)
        return query, lambda r: r if r is None else pairs(r), judge
    if name == "rows":
        n = em.storage.shape[0]
        keys = [c % n, d % n, 0] if n else []
        want, tol = em.dense()[keys], 4e-6 * em.scale()[keys] + 1e-37
        return (lambda: e.storage[keys], lambda r: np.asarray(r).tolist(),
                lambda r: O.close(np.asarray(r), want, tol, what))

    def judge(items):
        require([x[0] for x in items] == em.vocab.words, f"{what}: words")
        for x in items:
            O.check_vector(x[1], em.lookup(x[0]), what)
    return lambda: list(e), lambda r: [(x[0], x[1].tolist()) for x in r], judge


def contention_check(case, ctx):
    """Few queries, asked in tight loops by one thread each."""
    w = World(case, ctx)
    asks = []
    for x in case["asks"]:
        query, form, judge = ask(w, *x)
        with sut(f"{x[0]} before there are threads"):
            answer = query()
        judge(answer)
        asks.append((query, form, judge, form(answer), x[0]))
    failed = []
    ready = threading.Barrier(len(asks))

    def run(query, form, judge, first, name):
        ready.wait()
        try:
            for i in range(60):
                with sut(f"{name} in a thread"):
                    answer = query()
                if form(answer) != first:
                    judge(answer)
                if failed:
                    return
        except BaseException as err:
            failed.append(err)
    in_threads(case, run, asks)
    if failed:
        raise failed[0]
    for j, (em, e) in enumerate(w.pairs):
        O.emb_equals(e, em, f"embeddings {j} after all threads")
    for x in case["asks"]:
        ctx.label(f"asked {x[0]}")
    return any(len(em.vocab.words) for em, _ in w.pairs)


@st.composite
def many_strategy(draw):
    return dict(embs=[draw(many.embeddings()) for _ in range(draw(st.integers(1, 2)))],
                many=draw(many.spec()), turns=draw(st.integers(1, 4)),
                main=draw(st.sampled_from([0, 4, 4, 8, 11, 14, 18, 20])))


def many_check(case, ctx):
    """Thousands of operations on one or two embeddings; answers are kept."""
    from finalfusion.norms import Norms
    two = [gen.build(c) for c in case["embs"]]
    qs = many.queries(case["many"], sum((em.vocab.words for em, _ in two), []))
    rng = np.random.RandomState(case["many"]["seed"])
    memo = [many.Memo(em.vocab.idx) for em, _ in two]
    held, lists = [], []
    bufs = [np.zeros(em.storage.shape[1], dtype=np.float32) for em, _ in two]
    for i, q in enumerate(qs):
        which = i // case["turns"] % len(two)
        em, e = two[which]
        what, how, n = f"operation {i} on embeddings {which}, {q!r}", rng.randint(24), \
            len(em.vocab.words)
        if rng.randint(10) < 8:             # mostly the same kind
            how = case["main"]
        with sut(what):
            if how < 14:
                ref, norm = em.lookup(q), None
                if how < 4:
                    got = e.embedding(q)
                elif how < 8:
                    got = outcome(lambda: e[q])
                    got = got[1] if got[0] == "ok" else None
                elif how < 11 and em.norms is not None:
                    got = e.embedding_with_norm(q)
                    got, norm = (None, None) if got is None else got
                else:
                    got = e.embedding(q, out=bufs[which])
                require((got is None) == (ref is None), lambda: f"{what}: {got}")
                if ref is not None:
                    O.check_vector(got, ref, what)
                    if norm is not None:
                        O.check_norm(norm, ref, what)
                    if got is bufs[which]:
                        got[:] = 9
                    elif ref[3] == "sum" and i % 3 == 0:
                        got[:] = 5
                    elif len(held) < 300:
                        held.append((what, got, np.array(got)))
            elif how < 18:
                res, ref = e.word_similarity(q, i % (n + 2)), O.query_vec(em, q)
                require((res is None) == (ref is None), lambda: f"{what}: {res}")
                if ref is not None:
                    O.check_neighbours(res, em, *ref, i % (n + 2), {q}, what)
                    lists.append((what, res, pairs(res)))
            elif how < 20:
                abc = [q, qs[i - 1], qs[i // 2]]
                res, ref = e.analogy(*abc, k=3), O.analogy_vec(em, *abc)
                require((res is None) == (ref is None), lambda: f"{what}: {res}")
                if ref is not None:
                    O.check_neighbours(res, em, *ref, 3, set(abc), what)
                    spoil(res)
            elif how < 22:
                got = e.vocab.idx(q)
                require(got == memo[which][q], lambda: f"{what}: idx {got}")
                if isinstance(got, list):
                    got.reverse()
            elif how == 22 and i % 4 == 0:
                norms = np.float32(rng.randint(1, 9, size=n))
                e.norms = Norms(norms.copy())
                em.norms = norms
            else:
                rows = list(e)
                require([r[0] for r in rows] == em.vocab.words, lambda: f"{what}: words")
                require(em.norms is None or
                        [np.float32(r[2]) for r in rows] == list(em.norms),
                        lambda: f"{what}: iterated norms")
        if i % 1000 == 999 or i == len(qs) - 1:
            for j, (em, e) in enumerate(two):
                O.emb_equals(e, em, f"embeddings {j} after {i + 1} operations")
            for name, got, kept in held:
                require(np.array_equal(got, kept, equal_nan=True),
                        lambda: f"answer of {name} changed within {i + 1} operations")
            for name, got, kept in lists:
                require(pairs(got) == kept,
                        lambda: f"neighbours of {name} changed within {i + 1} operations")
            del lists[50:]
    return len(qs) >= 20


SUBS = [Sub("many", many_strategy, many_check,
            "histories of up to 10100 operations; non-trivial: at least 20.", 160),
        Sub("contention", contention_strategy, contention_check,
            "2 to 4 threads that repeat one query each on shared embeddings; non-trivial: "
            "there is a word.", 1600),
        Sub("threads", threads_strategy, threads_check,
            "2 to 4 threads with 4 to 10 queries, three times over, on shared embeddings; "
            "non-trivial: there is a word.", 600),
        Sub("history", strategy, check,
            "a history of 2 to 22 operations on up to 8 embeddings, all compared with their "
            "models after each; non-trivial: at least 4 different operations and a word.",
            6000)]
