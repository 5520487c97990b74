"""C21: malformed UTF-8 in words is refused, or replaced when lossy."""
import numpy as np
from hypothesis import strategies as st

from .. import ambient, cli, gen, model as M, oracle as O, foreign as F
from ..core import Sub, fail, require, rejects, sut

LEVEL = "exploration"
ASSUMPTIONS = ["The words stay distinct after replacement (duplicates are refused).",
               "Replacement follows Python's and WHATWG's 'maximal subpart' practice, as "
               "implemented by bytes.decode(errors='replace')."]
BAD = ["80", "bf", "c3", "e2", "e282", "f0", "f09f", "f09f98", "c080", "e08080", "eda080",
       "edbfbf", "f4908080", "f5", "f8888080", "fe", "ff", "c328", "e228a1", "f0288cbc"]
BADB = [bytes.fromhex(b) for b in BAD]


@st.composite
def bword(draw, style):
    """Hex of a word's bytes, possibly malformed."""
    parts = draw(st.lists(st.one_of(
        gen.word(style).map(lambda s: s.encode("utf-8")), st.sampled_from(BADB),
        st.sampled_from(["a", "b", "\u00e4", "\u65e5"]).map(lambda s: s.encode("utf-8")),
        st.binary(max_size=4)), min_size=1, max_size=4))
    return b"".join(parts)


def fits(b, fmt):
    if fmt == "fasttext":
        return b"\0" not in b
    return b and not any(c in b for c in b" \t\n\r\x0b\x0c")


@st.composite
def strategy(draw):
    fmt = draw(st.sampled_from(F.FORMATS))
    style = {"word2vec": "text", "text": "text", "textdims": "text", "fasttext": "ft"}[fmt]
    valid = draw(st.integers(0, 3)) == 0
    words = draw(st.lists(
        gen.word(style).map(lambda s: s.encode("utf-8")) if valid else bword(style),
        min_size=1, max_size=7))
    words = [w for w in words if fits(w, fmt)] or [b"a", b"b\xff"]
    if gen.rarely(draw, 12):             # malformed bytes across buffer boundaries
        words.insert(0, b"x" * draw(st.integers(8100, 8200)))
    seen, keep = set(), []
    for w in words:
        d = w.decode("utf-8", "replace")
        if d not in seen:
            seen.add(d)
            keep.append(w.hex())
    return dict(fmt=fmt, words=keep, seed=draw(st.integers(0, 999)),
                cols=draw(st.integers(1, 5)), lo=draw(st.integers(1, 4)),
                buckets=draw(st.integers(1, 9)))


def encode(case, raw):
    """File bytes, matrix and (fastText) vocabulary model."""
    fmt = case["fmt"]
    words = [w.decode("utf-8", "replace") for w in raw]
    vm = M.VocabM("ft", words, case["lo"], case["lo"] + 2, case["buckets"]) \
        if fmt == "fasttext" else M.VocabM("simple", words)
    m = gen.fill(case["seed"], (vm.bound, case["cols"]), "normal")
    if fmt == "fasttext":
        cfg = [case["cols"], 5, 5, 5, 5, 1, 2, 2, vm.buckets, vm.lo, vm.hi, 100, 1e-4]
        return M.encode_ft(cfg, raw, m), m, vm
    if fmt == "word2vec":
        return M.encode_w2v(raw, m), m, vm
    lines = [w + b" " + b" ".join(b"%r" % float(x) for x in r) for w, r in zip(raw, m)]
    if fmt == "textdims":
        lines.insert(0, b"%d %d" % m.shape)
    return b"\n".join(lines) + b"\n", m, vm


def check(case, ctx):
    raw = [bytes.fromhex(w) for w in case["words"]]
    data, matrix, vm = encode(case, raw)
    bad = 0
    for w in raw:
        try:
            w.decode("utf-8")
        except UnicodeDecodeError:
            bad += 1
    path = ctx.path("in")
    with open(path, "wb") as f:
        f.write(data)
    load = F.loader(case["fmt"])

    def right(e, what):
        if case["fmt"] == "fasttext":
            F.ft_loaded(e, vm, matrix, what)
        else:
            F.loaded(e, vm.words, matrix, what)
    with sut("lossy loading"):
        lossy = load(path, lossy=True)
    right(lossy, f"lossily loaded {case['fmt']}")
    if bad:
        rejects(f"loading {case['fmt']} with malformed words", lambda: load(path),
                UnicodeDecodeError)
        rejects(f"loading {case['fmt']} with malformed words, lossy=False",
                lambda: load(path, lossy=False), UnicodeDecodeError)
    else:
        with sut("strict loading"):
            e = load(path)
        right(e, f"loaded {case['fmt']}")
        O.same_bits(np.asarray(lossy.storage), np.ascontiguousarray(e.storage), "lossy storage")
        O.same_bits(np.asarray(lossy.norms), np.ascontiguousarray(e.norms), "lossy norms")
    ctx.label(f"{case['fmt']}: {'malformed' if bad else 'valid'}")
    if len(data) > 8192:
        ctx.label("over 8 kB")
    return bad > 0


# ------------------------------------------------------- command line tools ---
@st.composite
def tool_strategy(draw):
    case = draw(strategy())
    case["tool"] = draw(st.sampled_from(
        ["convert", "similar", "select"] + ["explicit"] * (case["fmt"] == "fasttext")))
    case["short"] = draw(st.booleans())
    case["mmap"] = draw(st.booleans())
    return case


def tool_check(case, ctx):
    raw = [bytes.fromhex(w) for w in case["words"]]
    data, matrix, vm = encode(case, raw)
    bad = any(w.decode("utf-8", "replace").encode("utf-8") != w for w in raw)
    path, out = ctx.path("in"), ctx.path("out")
    with open(path, "wb") as f:
        f.write(data)
    tool, n = case["tool"], len(raw)
    flag = "-l" if case["short"] else "--lossy"
    args = ["--format" if tool in ("similar", "select") else "--from", case["fmt"], path]
    if case.get("mmap"):
        args = ["--mmap"] + args
    stdin = b""
    if tool == "similar":
        args += ["-k", str(n + 5)]
        stdin = b"\xe2\x80\xa0query\xe2\x80\xa0\n"   # unknown, or computed
    else:
        args += [out]
    if tool == "select":
        stdin = b"\xe2\x80\xa0\n"
        args += ["-i"]
    what = f"ffp-{tool} on {case['fmt']}"
    code, _, err = cli.run(tool, args, stdin)
    if bad:
        require(code != 0, f"{what}: malformed words accepted without {flag}")
        require("UnicodeDecodeError" in err or "utf" in err.lower(),
                lambda: f"{what}: malformed words gave {err[-300:]!r}")
    else:
        require(code == 0, lambda: f"{what}: exit {code}: {err[-300:]}")
    code, text, err = cli.run(tool, args + [flag], stdin)
    require(code == 0, lambda: f"{what} {flag}: exit {code}: {err[-300:]}")
    if tool == "similar":
        if text.strip() and not any("\n" in w for w in vm.words):
            got = {line.rpartition(" ")[0] for line in text.split("\n") if line}
            require(got <= set(vm.words), lambda: f"{what} {flag}: words {got}")
    elif tool != "select":
        try:
            with open(out, "rb") as f:
                chunks = dict(M.parse_file(f.read()))
        except (M.FormatError, UnicodeError) as e:
            fail(f"{what} {flag}: output does not follow the format: {e!r}")
        vid = M.VOCAB_ID["explicit" if tool == "explicit" else vm.kind]
        require(vid in chunks, f"{what} {flag}: no vocabulary")
        require(chunks[vid].words == vm.words,
                lambda: f"{what} {flag}: words {chunks[vid].words!r}, expected {vm.words!r}")
    ctx.label(f"{tool}: {'malformed' if bad else 'valid'}")
    return bad


RULE = "non-trivial: some word is not valid UTF-8."
SUBS = [Sub("words", ambient.within(strategy), check, RULE, 8000),
        Sub("tools", tool_strategy, tool_check, RULE, 1500)]
