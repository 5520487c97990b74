"""Hypothesis strategies for plain JSON-able case descriptions, and their
materialization as reference models (pbt.model) and finalfusion objects."""
import datetime
import os
import pathlib
import random

import numpy as np
from hypothesis import strategies as st
from hypothesis.strategies import SearchStrategy

from . import model as M

U32 = (1 << 32) - 1


# ------------------------------------------------------------------ helpers ---
class _Bernoulli(SearchStrategy):
    """A biased coin as one binary choice, so that the engine sees no two
    spellings of the same outcome (they would be counted as different cases)."""
    def __init__(self, p):
        super().__init__()
        self.p = p

    def do_draw(self, data):
        return data.draw_boolean(self.p)


def rarely(draw, pct):
    """True in about pct percent of the draws; shrinks to False."""
    return draw(_Bernoulli(pct / 100))


def pick(draw, *options):
    return draw(st.sampled_from(options))


# -------------------------------------------------------------------- words ---
ALPHA = "ab<>c\u00e4\u00df\u65e5\U0001f600e\u03010"
WILD = [
    "", "<", ">", "<>", "<a", "a>", "the", "The", "\u00e9", "e\u0301", "\u00a0",
    "\u00a0a", "a\u00a0", "a b", " a", "a ", "New York", "\t", "a\nb", "\n",
    "\u2028", "a\u2028b", "\x85", "x\x1cy", "\x1f", "\ufeff", "\ufeffa", "\x00",
    "a\x00b", "\ufffd", "\U0010ffff", "\ud7ff", "\ue000", "1.5", "-1", "nan",
    "2 3", "0", "#", "\"", "'", "\\", "//", "</s>", "</s>x", "\u200d\U0001f469", "\u0130",
    "\u00df", "SS", "\u1e9e", "\uff21", "abc", "abcd", "abcde", "abcabc",
    "aaaaaa", "bababa", "\u65e5\u672c\u8a9e", "\u00fc\u00fc\u00fc",
    "\U0001f600\U0001f600", "a\u0308", "\u007f", "\u0080", "\u07ff", "\u0800",
    "\uffff", "\U00010000", "a\r", "\r\n", "\x0b", "\x0c",
]
ANYCHAR = st.characters(exclude_categories=("Cs",))


def ascii_ws(c):
    return c in " \t\n\r\x0b\x0c"


def ok_word(w, style):
    if style == "any":
        return True
    if "+" in style:
        return all(ok_word(w, s) for s in style.split("+"))
    if style == "ft":                       # fastText: no NUL
        return "\0" not in w
    if style == "w2v":                      # no space, no ASCII ws at the ends
        return w != "" and " " not in w and not ascii_ws(w[0]) and \
            not ascii_ws(w[-1])
    if style == "text":                     # no ASCII whitespace
        return w != "" and not any(map(ascii_ws, w))
    if style == "plain":                    # valid in every format and on lines
        return w != "" and not any(c.isspace() or c == "\0" for c in w)
    if style == "line":                     # one per line, inner blanks allowed
        return w != "" and w == w.strip() and "\0" not in w and \
            not any(c in "\r\n\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029" for c in w)
    raise ValueError(style)


def word(style="any", longest=12):
    base = st.one_of(
        st.text(alphabet=ALPHA, min_size=0, max_size=5),
        st.text(alphabet="ab", min_size=0, max_size=7),
        st.sampled_from(WILD),
        st.text(alphabet=ANYCHAR, min_size=0, max_size=longest),
    )
    return base if style == "any" else base.filter(lambda w: ok_word(w, style))


LONG = ["x" * 300, "\u65e5" * 90, "ab" * 130, "\u00e9" * 128, "q" * 255, "q" * 256,
        "<" * 260, "ab\U0001f600" * 60]
LONGER = ["r" * 511, "rs" * 256, "\u00e9" * 512, "rst" * 341, "t" * 1024, "t" * 1025,
          "\u65e5\u672c" * 512, "u" * 2049, "\U0001f600" * 1025, "uvw" * 1366, "w" * 4097]
HUGE = ["y" * 65535, "y" * 65536, "\u00e9" * 40000]


LENGTHS = [e + d for e in (254, 256, 510, 512, 1022, 1024, 2048, 4096) for d in (-1, 0, 1)] + \
          [300, 700, 1500, 3000, 5000]
GIANT = [e + d for e in (8192, 32768, 65534, 65536) for d in (-1, 0, 1)] + [10000, 70000]


@st.composite
def long_word(draw, giant=True):
    """{"n": characters, "seed": s, "alpha": i}: a random word of hundreds or thousands of
    characters (brackets not counted)."""
    return dict(n=draw(st.sampled_from(GIANT if giant and rarely(draw, 15) else LENGTHS)),
                seed=draw(st.integers(0, 999)), alpha=draw(st.integers(0, 3)))


def long_of(spec):
    alpha = ["ab", "abcdefghij", "a\u00e4\u65e5\U0001f600", "\u65e5\u672c\u8a9e\u00df"][spec["alpha"]]
    rng = np.random.RandomState(spec["seed"])
    return "".join(alpha[i] for i in rng.randint(0, len(alpha), size=spec["n"]).tolist())


@st.composite
def long_range(draw, n, hashed=True):
    """n-gram bounds that suit a word of n characters: few or short n-grams."""
    how = draw(st.integers(0, 2))
    if how == 0 or n > 5000:                # short ones, or nearly the whole word
        lo = draw(st.integers(1, 5)) if n < 1000 or draw(st.booleans()) \
            else n + draw(st.integers(-6, 2))
        return lo, lo + draw(st.integers(0, 1 if n > 1000 else 3))
    if how == 1:                            # the last few lengths, maybe beyond
        return max(1, n - draw(st.integers(0, 8))), \
            n + draw(st.sampled_from([0, 1, 2, 5, 1 << 31]))
    mid = draw(st.sampled_from([e for e in (127, 128, 254, 255, 256, 257, 511, 512, 1023, 1024)
                                if e <= n] or [1]))
    if hashed and mid * (n - mid) > 300000:
        return mid, mid
    return mid, mid + draw(st.integers(0, 1))


@st.composite
def words_spec(draw, style="any", lo=0, hi=10, long=True, bulk=True, huge=False):
    """{"list": [...], "bulk": n, "bseed": s}"""
    k = draw(st.integers(lo, hi))
    ws = draw(st.lists(word(style), min_size=k, max_size=k, unique=True))
    if long and rarely(draw, 8):
        w = draw(st.sampled_from(LONGER if rarely(draw, 20) else
                                 LONG + (HUGE if huge and rarely(draw, 10) else [])))
        if w not in ws:
            ws = ws + [w]
    out = dict(list=ws, bulk=0, bseed=0)
    if bulk and rarely(draw, 10):
        out["bulk"] = draw(st.integers(1, 120 if rarely(draw, 20) else 30))
        out["bseed"] = draw(st.integers(0, 999))
    return out


def words_of(spec):
    ws = list(spec["list"])
    if spec.get("bulk"):
        have = set(ws)
        rng = np.random.RandomState(spec["bseed"])
        if spec["bulk"] > 200:              # many words: cheap ones
            stem = "abcdefgh\u00e4\u65e5"
            for i, j in enumerate(rng.randint(0, 1000, size=spec["bulk"]).tolist()):
                w = stem[j % 10] * (j // 300) + stem[j // 10 % 10] + "%x" % i
                if w not in have:
                    have.add(w)
                    ws.append(w)
            return ws
        for i in range(spec["bulk"]):
            w = "".join("abcdefgh\u00e4\u65e5"[j] for j in
                        rng.randint(0, 10, size=rng.randint(1, 9))) + "%x" % i
            if w not in have:
                have.add(w)
                ws.append(w)
    return ws


# -------------------------------------------------------------------- vocab ---
KINDS = ("simple", "ff", "ft", "explicit")


@st.composite
def ngram_range(draw, wide=True):
    lo = draw(st.integers(1, 6))
    if rarely(draw, 50):
        lo = draw(st.integers(2, 4))
    hi = lo + draw(st.integers(0, 4))
    if wide and rarely(draw, 8):
        hi = draw(st.sampled_from([50, 1000, U32]))
    elif wide and rarely(draw, 4):          # only very long n-grams
        lo = draw(st.sampled_from([7, 12, 255, 256, 257, 65536, (1 << 31) - 1]))
        hi = draw(st.sampled_from([min(lo + 2, (1 << 31) - 1), U32]))
    return lo, hi


@st.composite
def vocab_case(draw, kinds=KINDS, style="any", lo=0, hi=10, big=True, long=True,
               bulk=True, huge=False, vast=False):
    """vast: also bucket counts for which there is no storage here."""
    kind = draw(st.sampled_from(kinds))
    case = dict(kind=kind)
    ws = draw(words_spec(style, lo, hi, long, bulk, huge and kind == "simple"))
    case["words"] = ws
    if kind == "simple":
        return case
    mn, mx = draw(ngram_range(wide=max([len(w) for w in ws["list"]] + [0]) < 40))
    case["lo"], case["hi"] = mn, mx
    if kind == "ff":
        case["buckets"] = draw(st.integers(1, 5))
        if big and rarely(draw, 6):
            case["buckets"] = draw(st.integers(6, 11))
        if vast and rarely(draw, 25):
            case["buckets"] = draw(st.integers(12, 62))
    elif kind == "ft":
        case["buckets"] = draw(st.integers(1, 30))
        if big and rarely(draw, 6):
            case["buckets"] = draw(st.integers(31, 1500))
        if vast and rarely(draw, 25):
            case["buckets"] = draw(st.one_of(st.integers(1500, U32), st.sampled_from(
                [65535, 65536, 2000000, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, U32])))
    else:
        pool = []
        for w in words_of(ws)[:8]:
            pool += M.ngrams(w[:40], mn, min(mx, mn + 4), True)[:60]
        pool = list(dict.fromkeys(pool))
        grams = []
        if pool:
            grams = draw(st.lists(st.sampled_from(pool), max_size=14, unique=True))
        grams += draw(st.lists(word("any", 6), max_size=4))
        grams = list(dict.fromkeys(grams))
        if rarely(draw, 30):
            grams = draw(st.permutations(grams)) if len(grams) < 10 else grams[::-1]
        case["ngrams"] = list(grams)
        case["index"] = draw(st.one_of(st.none(), surjection(len(grams))))
    return case


EDGES = [e + d for e in (256, 512, 1000, 1024, 2048, 4096) for d in (-1, 0, 1)] + [3000, 5000]
FAR = [e + d for e in (8192, 10000, 16384, 32768, 65536) for d in (-1, 0, 1)] + [20000, 70000]


@st.composite
def large(draw, case, far=True, budget=1500000):
    """The case with its vocabulary and storage grown to sizes around those at which buffers,
    blocks and integer types typically end."""
    v, s = case["vocab"], case["storage"]
    far = far and rarely(draw, 20)
    v["words"]["bulk"] = draw(st.one_of(st.sampled_from(FAR if far else EDGES),
                                        st.integers(65530, 70000) if far else
                                        st.integers(201, 5000)))
    v["words"]["bseed"] = draw(st.integers(0, 999))
    rows = v["words"]["bulk"] + len(v["words"]["list"])
    if v["kind"] != "simple":
        v["hi"] = min(v["hi"], v["lo"] + 5)
    if v["kind"] == "ff":
        v["buckets"] = draw(st.integers(1, 16))
        rows += 1 << v["buckets"]
    elif v["kind"] == "ft":
        v["buckets"] = draw(st.one_of(st.integers(1, 3000), st.sampled_from(EDGES + FAR)))
        rows += v["buckets"]
    elif v["kind"] == "explicit":
        v["ngrams"] = dict(words=draw(st.sampled_from([10, 100, 300, 3000])),
                           seed=draw(st.integers(0, 999)))
        v["index"] = draw(st.sampled_from([None, "share", "permute"]))
        rows += 20000
    wide = [c for c in (1, 2, 3, 5, 8, 17, 32, 63, 64, 65, 100, 128, 200, 256, 257, 300, 512, 600,
                        1024) if c * rows <= budget] or [1]
    cols = draw(st.sampled_from(wide))
    if s["kind"] == "nd":
        s["cols"] = cols
    else:
        s["sub"] = draw(st.sampled_from([x for x in (1, 2, 3, 5, 8, 10) if cols % x == 0]))
        s["q"] = cols // s["sub"]
        s["proj"] = s["proj"] and cols <= 300
        s["cent"] = draw(st.sampled_from([2, 16, 200, 255, 256]))
    return case


@st.composite
def far(draw, case):
    """The case with more than 65536 words or, where explicit, n-grams."""
    v, s = case["vocab"], case["storage"]
    v["words"].update(bulk=draw(st.integers(65530, 70000)), bseed=draw(st.integers(0, 999)))
    if v["kind"] == "explicit":
        v["words"]["bulk"] = draw(st.integers(16000, 20000))
        v["lo"] = draw(st.integers(4, 5))
        v["hi"] = v["lo"] + draw(st.integers(2, 3))
        v["ngrams"] = dict(words=20000, seed=draw(st.integers(0, 999)),
                           cap=draw(st.sampled_from([65535, 65536, 65537, 70000, 100000])))
        v["index"] = draw(st.sampled_from([None, "permute", "permute"]))
    elif v["kind"] in ("ff", "ft"):
        v["buckets"] = draw(st.integers(1, 9))
        v["hi"] = min(v["hi"], v["lo"] + 3)
    s["cols"] = draw(st.integers(1, 3))
    if s["kind"] == "pq":
        s["sub"], s["q"] = draw(st.integers(1, 2)), draw(st.integers(1, 2))
    return case


WIDE = [e + d for e in (256, 512, 1024, 2048, 4096, 32768, 65536) for d in (-1, 0, 1)] + \
       [300, 768, 1000, 3000, 10000, 70000]


@st.composite
def wide(draw, case):
    """The case with few words but hundreds to 70000 columns."""
    v, s = case["vocab"], case["storage"]
    v["words"].update(list=v["words"]["list"][:4], bulk=0)
    if v["kind"] in ("ff", "ft"):
        v["buckets"] = draw(st.integers(1, 3))
    elif v["kind"] == "explicit":
        v["ngrams"] = v["ngrams"][:5]
        v["index"] = None
    if v["kind"] != "simple":
        v["hi"] = min(v["hi"], v["lo"] + 6)
    cols = draw(st.sampled_from(WIDE))
    if s["kind"] == "nd":
        s["cols"] = cols
        return case
    s["sub"] = draw(st.sampled_from([x for x in (1, 2, 3, 4, 5, 7, 64, 256, 300) if cols % x == 0]))
    s["q"] = cols // s["sub"]
    s["proj"] = s["proj"] and cols <= 300
    s["cent"] = draw(st.sampled_from([1, 2, 5] if cols > 5000 else [2, 5, 255, 256, 257, 300]))
    return case


def surjection(n):
    """Index lists of length n that cover 0..max exactly."""
    if n == 0:
        return st.just([])

    def rank(vals):
        order = {v: i for i, v in enumerate(sorted(set(vals)))}
        return [order[v] for v in vals]
    return st.lists(st.integers(0, max(0, n - 1)), min_size=n, max_size=n).map(rank)


def vocab_model(case):
    words = words_of(case["words"])
    if case["kind"] == "simple":
        return M.VocabM("simple", words)
    if case["kind"] in ("ff", "ft"):
        return M.VocabM(case["kind"], words, case["lo"], case["hi"], case["buckets"])
    grams, index = case["ngrams"], case["index"]
    if isinstance(grams, dict):             # large table, from the words
        rng = np.random.RandomState(grams["seed"])
        pool = {}
        for w in words[:grams["words"]]:
            for g in M.ngrams(w[:20], case["lo"], min(case["hi"], case["lo"] + 2), True):
                pool[g] = 0
        grams = list(pool)[:grams.get("cap", 20000)]
        index = {None: None, "permute": rng.permutation(len(grams)).tolist(),
                 "share": np.unique(rng.randint(0, max(1, len(grams) // 3), size=len(grams)),
                                    return_inverse=True)[1].tolist()}[index]
    return M.VocabM("explicit", words, case["lo"], case["hi"], None, grams, index)


def vocab_sut(vm, explicit_index=True):
    """finalfusion vocabulary for a model (no mapping passed if the model's
    mapping is the default one and explicit_index is False)."""
    from finalfusion.vocab import SimpleVocab, FinalfusionBucketVocab, \
        FastTextVocab, ExplicitVocab
    from finalfusion.subword import FinalfusionHashIndexer, FastTextIndexer, \
        ExplicitIndexer
    words = list(vm.words)
    if vm.kind == "simple":
        return SimpleVocab(words)
    if vm.kind == "ff":
        return FinalfusionBucketVocab(
            words, FinalfusionHashIndexer(vm.buckets, vm.lo, vm.hi))
    if vm.kind == "ft":
        return FastTextVocab(words, FastTextIndexer(vm.buckets, vm.lo, vm.hi))
    if not explicit_index:
        return ExplicitVocab(words, ExplicitIndexer(list(vm.ngrams), vm.lo, vm.hi))
    return ExplicitVocab(words, ExplicitIndexer(list(vm.ngrams), vm.lo, vm.hi,
                                                dict(vm.table)))


@st.composite
def query(draw, words, style="any", vocab=None):
    """A query word: known, derived from known words, or arbitrary (also long, if
    vocab is given and has few n-gram lengths)."""
    how = draw(st.integers(0, 5))
    if how <= 1 and words:
        return draw(st.sampled_from(words))
    if how <= 3 and words:
        w = draw(st.sampled_from(words))[:60]
        v = draw(st.sampled_from(words))[:60]
        c = draw(st.sampled_from(["a", "b", "\u00e4", "<", ">", "\u65e5", "s", ""]))
        out = draw(st.sampled_from([w + c, c + w, w + v, w[:-1], w[1:], w + w,
                                    "<" + w, w + ">", w.upper(), w[::-1]]))
        if ok_word(out, style):
            return out
    if vocab is not None and vocab.get("hi", 0) - vocab.get("lo", 0) <= 6 and rarely(draw, 6):
        return draw(st.sampled_from(LONGER[:6] if rarely(draw, 30) else LONG))
    return draw(word(style))


# -------------------------------------------------------------------- paths ---
NAMES = ["f.bin", "\u00e4\u65e5 \U0001f600.fifu", "two words  .fifu", "noext", "a.gz", "x.txt.bin", "-dash",
         "{0}%s*?[a]", "deep/er dir/\u00e9/f", "tab\tnew\nline", "'q\"", "L" * 240, "<memory>",
         "undecodable\udcff\udc80"]
CLI_NAMES = [i for i, n in enumerate(NAMES) if n[0] not in "-<" and "\n" not in n and
             "\udcff" not in n]


@st.composite
def place(draw, fd=True, hows=("str", "bytes", "path", "like", "rel")):
    """A file name (an index into NAMES) and a way to pass it."""
    if not rarely(draw, 40):
        return dict(name=0, how="str")
    how = draw(st.sampled_from(hows + (("fd",) if fd else ())))
    return dict(name=draw(st.integers(0, len(NAMES) - 1)), how=how)


class _Like:
    def __init__(self, path):
        self.path = path

    def __fspath__(self):
        return self.path


def place_path(ctx, spec):
    path = ctx.path(NAMES[spec["name"]])
    os.makedirs(os.path.dirname(path), exist_ok=True)
    return path


def place_arg(path, how, write=False):
    """path as the argument to give; "fd" opens it (the callee closes it)."""
    if how == "bytes":
        return os.fsencode(path)
    if how == "path":
        return pathlib.Path(path)
    if how == "like":
        return _Like(path)
    if how == "rel":
        return os.path.relpath(path)
    if how == "fd":
        return os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC if write else os.O_RDONLY)
    return path


# ------------------------------------------------------------------ storage ---
FILLS = ("normal", "ints", "zrows", "bits", "edge")
TAME = ("normal", "ints", "zrows", "unit", "dup")
LAYOUTS = ("C", "F", "rows2", "rev", "cols2", "be", "beF", "ro")


def fill(seed, shape, kind):
    """float32 array, C order."""
    rng = np.random.RandomState(seed)
    n = int(np.prod(shape)) if shape else 1
    if kind == "bits":
        a = rng.randint(0, 1 << 32, size=n, dtype=np.uint64).astype("<u4").view("<f4")
    elif kind == "edge":
        pool = np.array([0x00000000, 0x80000000, 0x3f800000, 0xbf800000, 0x00000001,
                         0x007fffff, 0x00800000, 0x7f7fffff, 0xff7fffff, 0x7f800000,
                         0xff800000, 0x7fc00000, 0x7f800001, 0xffc01234, 0x3eaaaaab,
                         0x0a0a0a0a, 0x20202020, 0x0d0a0d0a], dtype="<u4").view("<f4")
        a = pool[rng.randint(0, len(pool), size=n)]
    elif kind == "ints":
        a = rng.randint(-3, 4, size=n).astype("<f4")
    elif kind == "pos":
        a = (rng.rand(n) * 4 + 0.05).astype("<f4")
    elif kind == "holes":                       # like pos, with zeros and ones
        a = np.where(rng.rand(n) < 0.3, rng.randint(0, 2, size=n), rng.rand(n) * 4).astype("<f4")
    elif kind == "wide":                        # finite, every order of magnitude
        a = (rng.standard_normal(n) * 10.0 ** rng.uniform(-30, 30, size=n)).astype("<f4")
    elif kind == "zero":
        a = np.zeros(n, dtype="<f4")
    else:
        scale = [1.0, 1.0, 1e-3, 1e3, 1e-6, 1e6][seed % 6] if kind == "normal" else 1.0
        a = (rng.standard_normal(n) * scale).astype("<f4")
    a = np.ascontiguousarray(a).reshape(shape)
    if kind in ("zrows", "unit", "dup") and len(shape) == 2 and shape[0]:
        a = a.copy()
        if kind == "zrows":
            a[rng.rand(shape[0]) < 0.35] = 0
        elif kind == "dup":                     # many equal rows: ties
            a = a[rng.randint(0, max(1, shape[0] // 3 + 1), size=shape[0]) % shape[0]]
        elif shape[1]:
            a /= np.maximum(np.sqrt((a.astype("f8") ** 2).sum(1)), 1e-9)[:, None]
            a = a.astype("<f4")
    return np.ascontiguousarray(a)


def lay(a, layout):
    """The same logical array in another memory layout."""
    if layout == "F":
        return np.asfortranarray(a)
    if layout == "rows2":
        b = np.full((a.shape[0] * 2,) + a.shape[1:], 7, dtype=a.dtype)
        b[::2] = a
        return b[::2]
    if layout == "rev":
        return np.ascontiguousarray(a[::-1])[::-1]
    if layout == "cols2":
        b = np.full(a.shape[:-1] + (a.shape[-1] + 2,), 9, dtype=a.dtype)
        b[..., 1:-1] = a
        return b[..., 1:-1]
    if layout == "beF":
        return np.asfortranarray(a.astype(a.dtype.newbyteorder(">")))
    if layout == "be":
        return a.astype(a.dtype.newbyteorder(">"))
    if layout == "ro":
        b = a.copy()
        b.flags.writeable = False
        return b
    return a.copy()


@st.composite
def nd_case(draw, fills=FILLS, layouts=("C",), mincols=1, maxcols=7, big=True):
    c = dict(kind="nd", seed=draw(st.integers(0, 9999)),
             cols=draw(st.integers(mincols, maxcols)),
             fill=draw(st.sampled_from(fills)),
             layout=draw(st.sampled_from(layouts)))
    if big and rarely(draw, 5):
        c["cols"] = draw(st.sampled_from([16, 33, 64, 100]))
    return c


@st.composite
def pq_case(draw, fills=("normal", "ints"), big=True,
            layouts=("C", "C", "F", "rows2", "rev", "cols2", "ro")):
    c = dict(kind="pq", seed=draw(st.integers(0, 9999)), q=draw(st.integers(1, 4)),
             sub=draw(st.integers(1, 3)), cent=draw(st.integers(1, 6)),
             proj=draw(st.booleans()), norms=draw(st.booleans()),
             fill=draw(st.sampled_from(fills)),
             layout=draw(st.sampled_from(layouts)))
    if big and rarely(draw, 10):
        c["cent"] = draw(st.sampled_from([16, 255, 256, 256, 257, 300]))
    return c


def storage_model(case, rows):
    if case["kind"] == "nd":
        return M.NdM(fill(case["seed"], (rows, case["cols"]), case["fill"]))
    q, sub, cent = case["q"], case["sub"], case["cent"]
    rng = np.random.RandomState(case["seed"] + 1)
    quant = fill(case["seed"], (q, cent, sub), case["fill"])
    codes = rng.randint(0, min(cent, 256), size=(rows, q)).astype(np.uint8)
    proj = fill(case["seed"] + 2, (q * sub, q * sub), case["fill"]) \
        if case["proj"] else None
    norms = None
    if case["norms"]:
        norms = fill(case["seed"] + 3, (rows,),
                     case["fill"] if case["fill"] in ("bits", "edge") else
                     "zrows" if case["seed"] % 3 == 0 else "pos")
    return M.PqM(quant, codes, proj, norms)


def storage_sut(sm, case):
    from finalfusion.storage import NdArray, QuantizedArray
    from finalfusion.storage.quantized import PQ
    if sm.kind == "nd":
        return NdArray(lay(sm.array, case.get("layout", "C")))
    lo = case.get("layout", "C")
    proj = None if sm.projection is None else lay(sm.projection, lo)
    return QuantizedArray(PQ(lay(sm.quantizers, lo), proj), lay(sm.codes, lo),
                          None if sm.norms is None else lay(sm.norms, lo))


# ----------------------------------------------------------------- metadata ---
KEY = st.one_of(st.sampled_from(["a", "b", "source", "a b", "a.b", "\u00e9", "", "x-y",
                                 "description", "1"]),
                st.text(alphabet=ANYCHAR, max_size=6)).filter(lambda k: k[:1] != "$")
SCALAR = st.one_of(
    st.integers(-(1 << 63), (1 << 63) - 1), st.integers(-5, 5), st.booleans(),
    st.floats(allow_nan=False, width=64),
    st.text(alphabet=ANYCHAR, max_size=12),
    st.sampled_from(["", "value", "\u65e5\u672c", "\u00fc" * 50, "x" * 500, "a\\b", "a\nb",
                     "'", "[x]", "# no comment", "= 1", "\U0001f600"]),
    st.datetimes(min_value=datetime.datetime(1000, 1, 1),
                 max_value=datetime.datetime(9999, 1, 1)).map(
        lambda d: {"$dt": d.replace(microsecond=0).isoformat()}),
    st.dates(min_value=datetime.date(1000, 1, 1)).map(lambda d: {"$d": d.isoformat()}),
)


def _homog():
    return st.one_of(
        st.lists(st.integers(-100, 100), max_size=4),
        st.lists(st.floats(allow_nan=False, allow_infinity=False), max_size=3),
        st.lists(st.text(alphabet=ALPHA, max_size=4), max_size=4),
        st.lists(st.booleans(), max_size=3),
        st.lists(st.lists(st.integers(0, 9), max_size=3), max_size=3))


META_VALUE = st.recursive(
    st.one_of(SCALAR, _homog()),
    lambda kids: st.one_of(st.dictionaries(KEY, kids, max_size=3),
                           st.lists(st.dictionaries(KEY, kids, min_size=1, max_size=2),
                                    min_size=1, max_size=2)),
    max_leaves=6)


def meta_build(x):
    if isinstance(x, dict):
        if set(x) == {"$dt"}:
            return datetime.datetime.fromisoformat(x["$dt"])
        if set(x) == {"$d"}:
            return datetime.date.fromisoformat(x["$d"])
        return {k: meta_build(v) for k, v in x.items()}
    if isinstance(x, list):
        return [meta_build(v) for v in x]
    return x


def same(a, b):
    """Equality that also compares types (True is not 1, 1 is not 1.0)."""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    return type(a) is type(b) and (a == b)


def toml_ok(x):
    import toml
    try:
        text = toml.dumps(x)
        text.encode("utf-8")
        return same(toml.loads(text), x)
    except Exception:
        return False


SIMPLE_META = st.sampled_from([
    {}, {"a": 1}, {"name": "\u65e5\u672c"}, {"t": {"u": [1, 2, 3]}, "f": 0.5},
    {"s": "x" * 37}, {"a": True, "b": "y"}, {"q": [{"r": 1}, {"r": 2}]}])


def toml_stable(x):
    """The toml library writes x the same way after reading it back."""
    import toml
    text = toml.dumps(x)
    return toml.dumps(toml.loads(text)) == text


def toml_filter(x):
    """The entries of x, at any depth, that survive their TOML text form."""
    if not isinstance(x, dict) or set(x) in ({"$dt"}, {"$d"}):
        return x
    out = {}
    for k, v in x.items():
        v = toml_filter(v)
        if toml_ok(meta_build({k: v})):
            out[k] = v
    return out


_KEYS = ["a", "b", "source", "a b", "a.b", "\u00e9", "x-y", "description", "1", "k_2",
         "\u65e5", "zz top", "-", "Z9"]
_TEXTS = ["", "value", "\u65e5\u672c", "\u00fc" * 50, "x" * 500, "a\nb", "'", "[x]", "# no",
          "= 1", "\U0001f600", "two words", "tab\there", 'q"uote', "1", "true", "2020-01-01"]


def meta_random(rng, depth=0):
    """A table drawn from a seeded generator."""
    out = {}
    for _ in range(rng.randint(0 if depth else 1, 5)):
        key = rng.choice(_KEYS) if rng.random() < .7 else \
            "".join(rng.choice("ab1_-. \u00e9\u4e2d") for _ in range(rng.randint(1, 8)))
        kind = rng.randint(0, 11 if depth < 3 else 8)
        if kind == 0:
            val = rng.randint(-(1 << 63), (1 << 63) - 1)
        elif kind == 1:
            val = rng.randint(-9, 9)
        elif kind == 2:
            val = rng.random() < .5
        elif kind == 3:
            val = rng.choice([rng.gauss(0, 1), rng.gauss(0, 1) * 10. ** rng.randint(-300, 300),
                              float(rng.randint(-9, 9)), 0.0])
        elif kind in (4, 5):
            val = rng.choice(_TEXTS)
        elif kind == 6:
            val = "".join(chr(rng.choice([rng.randint(32, 126), rng.randint(0xa1, 0x2fff),
                                          rng.randint(0x10000, 0x1ffff)]))
                          for _ in range(rng.randint(0, 30)))
        elif kind == 7:
            val = {"$dt": datetime.datetime(rng.randint(1000, 9998), rng.randint(1, 12),
                                            rng.randint(1, 28), rng.randint(0, 23),
                                            rng.randint(0, 59)).isoformat()}
        elif kind == 8:
            val = rng.choice([lambda: rng.randint(-99, 99), lambda: rng.gauss(0, 1),
                              lambda: rng.choice(_TEXTS[:9]), lambda: rng.random() < .5,
                              lambda: [rng.randint(0, 9) for _ in range(rng.randint(0, 3))]])
            val = [val() for _ in range(rng.randint(0, 5))]
        elif kind == 9:
            val = [meta_random(rng, depth + 1) for _ in range(rng.randint(1, 3))]
        else:
            val = meta_random(rng, depth + 1)
        out[key] = val
    return out


@st.composite
def meta_case(draw, hard=True):
    if not hard or rarely(draw, 5):
        return draw(SIMPLE_META)
    if draw(st.integers(0, 3)):
        m = meta_random(random.Random(draw(st.integers(0, (1 << 32) - 1))))
    else:
        m = draw(st.dictionaries(KEY, META_VALUE, max_size=5))
    m = toml_filter(m)
    while m and not toml_ok(meta_build(m)):
        del m[next(reversed(m))]
    return m


# --------------------------------------------------------------- embeddings ---
@st.composite
def emb_case(draw, kinds=KINDS, storages=("nd", "pq"), style="any", fills=FILLS,
             pqfills=("normal", "ints"), layouts=("C",), norms=None, meta=None, lo=0, hi=8,
             big=True, long=True, bulk=True, mincols=1, huge=False, hardmeta=False):
    """norms/meta: None = maybe, True/False = always/never."""
    case = dict(vocab=draw(vocab_case(kinds, style, lo, hi, big, long, bulk, huge)))
    kind = draw(st.sampled_from(storages))
    if kind == "nd":
        case["storage"] = draw(nd_case(fills, layouts, mincols, big=big))
    else:
        lo = layouts if len(layouts) > 1 else ("C", "C", "F", "rows2", "rev")
        case["storage"] = draw(pq_case(pqfills, big, lo))
    if (draw(st.booleans()) if norms is None else norms):
        nf = ("pos", "normal", "bits", "edge") if "bits" in fills else ("pos", "normal", "holes")
        case["norms"] = dict(seed=draw(st.integers(0, 999)),
                             fill=draw(st.sampled_from(nf)))
        if len(layouts) > 1:
            case["norms"]["layout"] = draw(st.sampled_from(layouts))
    else:
        case["norms"] = None
    case["meta"] = draw(meta_case(hardmeta)) \
        if (draw(st.booleans()) if meta is None else meta) else None
    return case


def emb_model(case):
    vm = vocab_model(case["vocab"])
    sm = storage_model(case["storage"], vm.bound)
    norms = None
    if case.get("norms"):
        norms = fill(case["norms"]["seed"], (len(vm.words),), case["norms"]["fill"])
    meta = meta_build(case["meta"]) if case.get("meta") is not None else None
    return M.EmbM(vm, sm, norms, meta)


def emb_sut(em, case):
    from finalfusion import Embeddings, Metadata
    from finalfusion.norms import Norms
    import copy
    return Embeddings(
        storage=storage_sut(em.storage, case["storage"]),
        vocab=vocab_sut(em.vocab),
        norms=None if em.norms is None else Norms(lay(em.norms,
                                                      case["norms"].get("layout", "C"))),
        metadata=None if em.meta is None else Metadata(copy.deepcopy(em.meta)))


def build(case):
    from .core import sut
    em = emb_model(case)
    with sut("constructing embeddings"):
        return em, emb_sut(em, case)
