"""C22: ffp-convert preserves words and vectors between all formats."""
import os

import numpy as np
import toml
from hypothesis import strategies as st

from .. import ambient, cli, gen, model as M, oracle as O, foreign as F, source as S
from ..core import Sub, require, fail, sut

LEVEL = "exploration"
ASSUMPTIONS = ["Words both formats can hold (see C18 to C20); at least one word and one column.",
               "The tools' main functions run in the checking process on real files."]

OUT = ["out", "out", "out.txt", "out.w2v", "out.bin", "out.fifu", "\u00e4 \u65e5.vec", "out.gz"]


@st.composite
def strategy(draw, large=False):
    to = draw(st.sampled_from(S.ALL))
    src = draw(S.source(hardmeta=True, style=S.HOLDS[to], large=large))
    return dict(src=src, to=to, short=draw(st.booleans()),
                defaults=draw(st.booleans()), lossy=draw(st.integers(0, 4)) == 0,
                dst=draw(st.sampled_from(OUT)), old=draw(st.booleans()), order=draw(st.booleans()))


def command(case, s, dst):
    f, t = ("-f", "-t") if case["short"] else ("--from", "--to")
    opts = []
    if not (case["defaults"] and s.fmt == "word2vec"):
        opts += [f, s.fmt]
    if not (case["defaults"] and case["to"] == "finalfusion"):
        opts += [t, case["to"]]
    opts += s.args + (["--lossy"] if case["lossy"] else [])
    return opts + [s.path, dst] if case["order"] else [s.path, dst] + opts


def check(case, ctx):
    s = S.make(case["src"], ctx)
    with open(s.path, "rb") as f:
        before = f.read()
    dst = ctx.path(case["dst"])
    if case["old"]:
        with open(dst, "wb") as f:
            f.write(b"old " * 5000)
    to = case["to"]
    what = f"ffp-convert {s.fmt} ({s.vm.kind}) to {to}"
    code, out, err = cli.run("convert", command(case, s, dst))
    with open(s.path, "rb") as f:
        require(f.read() == before, f"{what}: input changed")
    ctx.label(f"{s.fmt} to {to}")
    if to == "fasttext" and s.vm.kind != "ft":
        require(code != 0, f"{what}: reported as success")
        return True
    if to == "fasttext" and s.vm.hi >= 1 << 31:
        return False                     # the format's n-gram bounds are signed
    require(code == 0, lambda: f"{what}: exit {code}: {err[-500:]}")
    require(os.path.exists(dst), f"{what}: no output")
    with open(dst, "rb") as f:
        data = f.read()
    try:
        judge(case, s, data, before, what)
    except (M.FormatError, ValueError, IndexError, UnicodeError) as e:
        fail(f"{what}: output does not follow the format: {e!r}")
    return len(s.vm.words) >= 2


def judge(case, s, data, before, what):
    to, n, dims = case["to"], len(s.vm.words), s.vectors.shape[1]
    if to == "finalfusion":
        chunks = dict(M.parse_file(data))
        order = [c for c, _ in M.parse_file(data)]
        vocab = chunks.get(M.VOCAB_ID[s.vm.kind])
        require(vocab is not None, f"{what}: no {s.vm.kind} vocabulary in {order}")
        require((vocab.words, vocab.lo, vocab.hi, vocab.buckets, vocab.table) ==
                (s.vm.words, s.vm.lo, s.vm.hi, s.vm.buckets, s.vm.table),
                f"{what}: vocabulary differs")
        if s.fmt == "finalfusion":
            old = dict(M.parse_file(before))
            require(set(old) == set(chunks), f"{what}: chunks {order}")
            sid = M.NDARRAY if M.NDARRAY in old else M.PQ
            O.parsed_storage_equals(chunks[sid], old[sid], what)
            if M.NORMS in old:
                O.same_bits(chunks[M.NORMS], old[M.NORMS], f"{what}: norms")
            if M.META in old:
                require(gen.same(toml.loads(chunks[M.META]), s.em.meta), f"{what}: metadata")
            return
        mat, norms = chunks[M.NDARRAY].array, chunks[M.NORMS]
        require(mat.shape == s.matrix.shape, f"{what}: shape {mat.shape}")
        require(len(norms) == n, f"{what}: norms")
        F.unit_rows(mat[:n], norms.astype(np.float64), s.vectors, s.tol, what, s.vm.words)
        if s.fmt == "fasttext":
            O.same_bits(mat[n:], s.matrix[n:], f"{what}: bucket rows")
        return
    if to == "word2vec":
        words, mat = M.parse_w2v(data)
    elif to == "fasttext":
        cfg, words, mat, _tail = M.parse_ft(data)
        require((cfg[0], cfg[8], cfg[9], cfg[10]) ==
                (dims, s.vm.buckets, s.vm.lo, s.vm.hi), f"{what}: configuration {cfg}")
        require(mat.shape == (s.vm.bound, dims), f"{what}: shape {mat.shape}")
    else:
        words, mat, shape = M.parse_text(data, to == "textdims")
        require(shape in (None, (n, dims)), f"{what}: first line {shape}")
    require(words == s.vm.words, lambda: f"{what}: words {words[:9]!r}, "
            f"expected {s.vm.words[:9]!r}")
    if to == "fasttext":
        if s.fmt == "fasttext":
            O.same_bits(mat[n:], s.matrix[n:], f"{what}: bucket rows")
        elif s.em.storage.kind == "nd":
            O.same_bits(mat[n:], s.em.storage.array[n:], f"{what}: bucket rows")
        else:
            O.close(mat[n:], s.em.dense()[n:], 4e-6 * s.em.scale()[n:] + 1e-37, what)
        tol = s.tol.copy()
        m64 = np.abs(mat.astype(np.float64))
        for i, w in enumerate(s.vm.words):
            rows = [i] + [j for _, j in s.vm.sub(w, n)]
            tol[i] += 1e-6 * (len(rows) + 8) * m64[rows].mean(0)
            if s.fmt == "finalfusion":
                f = 1 if s.em.norms is None else abs(float(s.em.norms[i]))
                tol[i] += 1e-6 * (len(rows) + 8) * s.em.scale()[i] * f + \
                    4e-6 * s.em.scale()[rows].mean(0)
        mat = M.ft_average(s.vm, mat)
        O.close(mat, s.vectors, tol, f"{what}: vectors")
    else:
        O.close(mat, s.vectors, s.tol, f"{what}: vectors")


SUBS = [Sub("convert", ambient.within(strategy), check, "non-trivial: at least two words, or a conversion "
            "that must be refused.", 8000),
        Sub("large", lambda: strategy(True), check, "hundreds to thousands of words; non-trivial: "
            "as above.", 160)]
