"""C23: ffp-select outputs exactly the requested words with their vectors."""
import os

import numpy as np
import toml
from hypothesis import strategies as st

from .. import cli, gen, model as M, oracle as O, source as S
from ..core import Sub, require, fail
from .c22 import OUT

LEVEL = "exploration"
ASSUMPTIONS = ["Word lists without blank lines; words without line separators.",
               "The tools' main functions run in the checking process on real files; "
               "the locale is UTF-8."]
PADS = ["", "", "", " ", "\t", "  ", "\u00a0"]


@st.composite
def strategy(draw, large=False):
    src = draw(S.source(style="line", large=large))
    known = S.words_in(src)
    words = draw(st.lists(gen.query(known, "line", src["vocab"]).filter(lambda w: gen.ok_word(w, "line")),
                          min_size=0, max_size=8))
    many = None
    if large:
        many = dict(n=draw(st.one_of(st.integers(20, 3000),
                                     st.sampled_from([8000, 12000, 20000]))), seed=draw(st.integers(0, 999)),
                    other=draw(st.sampled_from([0, 0, 0, 1, 10, 300])))
    elif gen.rarely(draw, 20):
        words = words + known
    if words and gen.rarely(draw, 40):
        words = words + [draw(st.sampled_from(words))]
    if known and gen.rarely(draw, 40 if large else 25):   # only known words: never fails
        words = [w for w in words if w in known] or [known[0]]
    return dict(src=src, words=words, many=many, pads=draw(st.lists(st.sampled_from(PADS), min_size=2,
                                                         max_size=4)),
                newline=draw(st.sampled_from(["\n", "\n", "\n", "\r\n"])),
                end=draw(st.booleans()), stdin=draw(st.booleans()),
                ignore=draw(st.booleans()), verbose=draw(st.booleans()),
                lossy=draw(st.integers(0, 4)) == 0, defaults=draw(st.booleans()),
                dst=draw(st.sampled_from(OUT)), old=draw(st.booleans()), short=draw(st.booleans()))


def requested(case, known):
    words, many = list(case["words"]), case.get("many")
    if many:
        rng = np.random.RandomState(many["seed"])
        pick = [known[i] for i in rng.randint(0, len(known), size=many["n"])]
        for i in rng.randint(0, len(pick) + 1, size=many["other"]):
            pick.insert(i, f"other{i}")
        words = pick[:many["n"] // 2] + words + pick[many["n"] // 2:]
    return words


def check(case, ctx):
    s = S.make(case["src"], ctx)
    em = S.as_loaded(s)
    pads, words = case["pads"], requested(case, em.vocab.words)
    lines = [pads[i % len(pads)] + w + pads[(i + 1) % len(pads)]
             for i, w in enumerate(words)]
    text = case["newline"].join(lines)
    if text and case["end"]:
        text += case["newline"]
    dst = ctx.path(case["dst"])
    old = b"previous contents"
    if case["old"]:
        with open(dst, "wb") as f:
            f.write(old)
    args = [s.path, dst]
    stdin = b""
    if case["stdin"]:
        stdin = text.encode("utf-8")
    else:
        with open(ctx.path("words"), "wb") as f:
            f.write(text.encode("utf-8"))
        args.append(ctx.path("words"))
    if not (case["defaults"] and s.fmt == "finalfusion"):
        args += ["-f" if case["short"] else "--format", s.fmt]
    args += s.args + (["-l"] if case["lossy"] else [])
    if case["ignore"]:
        args.append("-i" if case["short"] else "--ignore_unk")
    if case["verbose"]:
        args.append("-v" if case["short"] else "--verbose")
    what = f"ffp-select from {s.fmt} ({em.vocab.kind})"
    code, out, err = cli.run("select", args, stdin)
    wanted = list(dict.fromkeys(words))
    unknown = [w for w in wanted if em.lookup(w) is None]
    if unknown and not case["ignore"]:
        require(code != 0, f"{what}: success although {unknown[0]!r} has no embedding")
        if case["old"]:
            with open(dst, "rb") as f:
                require(f.read() == old, f"{what}: output written despite the failure")
        else:
            require(not os.path.exists(dst), f"{what}: output written despite the failure")
        ctx.label("fails")
        return True
    require(code == 0, lambda: f"{what}: exit {code}: {err[-500:]}")
    if case["verbose"]:
        for w in unknown:
            require(w in err, lambda: f"{what}: {w!r} not named on stderr: {err!r}")
    with open(dst, "rb") as f:
        data = f.read()
    try:
        chunks = dict(M.parse_file(data))
    except (M.FormatError, UnicodeError) as e:
        fail(f"{what}: output does not follow the format: {e!r}")
    require(M.SIMPLE in chunks, f"{what}: no simple vocabulary in the output")
    require(M.NDARRAY in chunks, f"{what}: no array storage in the output")
    got, mat = chunks[M.SIMPLE].words, chunks[M.NDARRAY].array
    gone = set(unknown)
    left = [w for w in wanted if w not in gone]
    require(len(got) == len(set(got)) and set(got) == set(left),
            lambda: f"{what}: words {str(sorted(got))[:300]}, expected "
                    f"{str(sorted(left))[:300]}; only in one of them: "
                    f"{str(sorted(set(got) ^ set(left)))[:300]}")
    require(mat.shape == (len(left), em.storage.shape[1]), lambda: f"{what}: matrix {mat.shape}")
    for i, w in enumerate(got):
        O.check_vector(mat[i], em.lookup(w), f"{what}: vector of {w!r}")
    require(M.META in chunks, f"{what}: no metadata")
    meta = toml.loads(chunks[M.META])
    require(meta.get("source_embeddings") == s.path,
            lambda: f"{what}: source is {meta.get('source_embeddings')!r}")
    if em.meta is not None:
        require(gen.same(meta.get("source_metadata"), em.meta),
                lambda: f"{what}: source metadata {meta.get('source_metadata')}, "
                        f"expected {em.meta}")
    ctx.label(s.fmt)
    ctx.label("leaves out words" if unknown else "all words")
    if any(w not in em.vocab.pos for w in left):
        ctx.label("computed vectors")
    return len(left) >= 1


SUBS = [Sub("select", strategy, check, "non-trivial: a word is selected, or the tool has to "
            "fail.", 6000),
        Sub("large", lambda: strategy(True), check, "many words from large vocabularies; "
            "non-trivial: as above.", 160)]
