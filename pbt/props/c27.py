"""C27: a write that cannot be completed raises an error."""
import contextlib
import os
import resource

import numpy as np
from hypothesis import strategies as st

from .. import cli, gen, oracle as O, foreign as F, source as S
from ..core import Sub, require, fail, outcome, sut

LEVEL = "fault_enumeration"
ASSUMPTIONS = ["Refused writes are produced with a file size limit (RLIMIT_FSIZE), which lets "
               "exactly the bytes below the limit through and then fails every write, and with "
               "/dev/full. Any exception (exit status, for the tools) counts as an error."]


@contextlib.contextmanager
def limit(size):
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (size, old[1]))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)


def read(path):
    with open(path, "rb") as f:
        return f.read()


def limits(n, seed):
    if n <= 260:
        return range(n)
    rng = np.random.RandomState(seed)
    out = set(rng.randint(0, n, size=70).tolist())
    out.update(range(12))
    out.update(range(n - 40, n))
    if n < 100000:
        out.update(x for x in range(4096, n, 4096))
        return sorted(out)
    return sorted(list(out)[::4] + [n - 1] + list(range(4096, n, n // 10 // 4096 * 4096 + 4096)))


def faults(write, full, ctx, seed, what, target):
    """write(path) under every limit; True if the fault was reported."""
    pts = limits(len(full), seed)
    for lim in pts:
        with limit(lim):
            how, _ = outcome(lambda: write(target))
        if how == "ok":
            got = read(target)
            if got != full:
                fail(f"{what}: returned normally although only {lim} of {len(full)} bytes "
                     f"could be stored ({len(got)} are)")
    ctx.label("fault points", len(pts))
    if full and os.path.exists("/dev/full"):
        how, _ = outcome(lambda: write("/dev/full"))
        require(how == "err", f"{what}: returned normally on a full device")
    for bad in (os.path.join(ctx.scratch, "no", "dir"), ctx.scratch):
        how, _ = outcome(lambda: write(bad))
        require(how == "err", f"{what}: returned normally for the path {bad}")
    with limit(len(full)):
        how, e = outcome(lambda: write(target))
    require(how == "ok", lambda: f"{what}: fails although the file fits: {e!r}")
    require(read(target) == full, f"{what}: a later write differs from the first")


@st.composite
def strategy(draw):
    fmt = draw(st.sampled_from(["finalfusion", "finalfusion", "vocab", "storage", "norms",
                                "meta", "word2vec", "text", "textdims", "fasttext"]))
    case = draw(gen.emb_case(kinds=("ft",) if fmt == "fasttext" else gen.KINDS, style="plain",
                             hi=5, fills=("normal", "ints"), long=False, lo=1,
                             layouts=("C", "F", "rows2", "be"), big=gen.rarely(draw, 5),
                             bulk=gen.rarely(draw, 5),
                             norms=True if fmt == "norms" else None,
                             meta=True if fmt == "meta" else None))
    if case["vocab"].get("buckets", 0) > 20 and not gen.rarely(draw, 10):
        case["vocab"]["buckets"] = 3
    if "hi" in case["vocab"]:
        case["vocab"]["hi"] = min(case["vocab"]["hi"], (1 << 31) - 1)
    case["fmt"] = fmt
    case["seed"] = draw(st.integers(0, 9999))
    case["fd"] = draw(st.booleans())
    case["load"] = draw(st.sampled_from([None, None, "read", "mmap"]))
    return case


@st.composite
def large(draw):
    return draw(gen.large(draw(strategy()), far=False, budget=100000))


def check(case, ctx):
    import finalfusion
    em, e = gen.build(case)
    fmt = case["fmt"]
    if case["load"]:
        with sut("write and load"):
            e.write(ctx.path("in.fifu"))
            e = finalfusion.load_finalfusion(ctx.path("in.fifu"), mmap=case["load"] == "mmap")
    if fmt in F.FORMATS or fmt == "finalfusion":
        w = F.writer(fmt)
        write = lambda p: w(p, e)                               # noqa
    else:
        chunk = dict(vocab=e.vocab, storage=e.storage, norms=e.norms, meta=e.metadata)[fmt]
        write = chunk.write
    path = ctx.path("full")
    with sut(f"writing {fmt}"):
        write(path)
    full = read(path)
    target = ctx.path("t")
    if case["fd"]:
        inner = write

        def write(p):
            inner(os.open(p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC))
    faults(write, full, ctx, case["seed"], f"writing {fmt} ({em.vocab.kind}/{em.storage.kind})",
           target)
    O.emb_equals(e, em, "embeddings after failed writes")
    ctx.label(fmt)
    return len(full) >= 2


@st.composite
def tool_strategy(draw):
    tool = draw(st.sampled_from(["convert", "select", "explicit"]))
    if tool == "explicit":
        src = draw(S.source(formats=("finalfusion", "fasttext"), kinds=("ff", "ft"), hi=4))
    else:
        src = draw(S.source(hi=4))
    if "hi" in src["vocab"]:
        src["vocab"]["hi"] = min(src["vocab"]["hi"], (1 << 31) - 1)
    return dict(tool=tool, src=src, to=draw(st.sampled_from(S.ALL)),
                seed=draw(st.integers(0, 9999)))


def tool_check(case, ctx):
    s = S.make(case["src"], ctx)
    tool = case["tool"]
    args = ["-f", s.fmt] + s.args
    if tool == "convert":
        to = case["to"] if case["to"] != "fasttext" or s.vm.kind == "ft" else "text"
        args += ["-t", to]
    argv = [s.path] + (["{}"] if tool != "select" else ["{}", ctx.path("words")]) + args
    if tool == "select":
        with open(ctx.path("words"), "w", encoding="utf-8") as f:
            f.write("\n".join(s.vm.words[:3]) + "\n")

    def write(p):
        code, out, err = cli.run(tool, [a.replace("{}", p) for a in argv])
        if code:
            raise OSError(err[-400:])
    with sut(f"running ffp-{tool}"):
        write(ctx.path("full"))
    full = read(ctx.path("full"))
    # the tools are slower: fewer points
    rng = np.random.RandomState(case["seed"])
    pts = set(rng.randint(0, len(full), size=8).tolist()) | {0, len(full) - 1}
    target = ctx.path("t")
    for lim in sorted(pts):
        with limit(lim):
            how, _ = outcome(lambda: write(target))
        require(how == "err" or read(target) == full,
                lambda: f"ffp-{tool}: success reported although only {lim} of {len(full)} bytes "
                "could be stored")
    how, _ = outcome(lambda: write("/dev/full")) if os.path.exists("/dev/full") else ("err", 0)
    require(how == "err", f"ffp-{tool}: success reported on a full device")
    ctx.label(tool)
    ctx.label("fault points", len(pts))
    return True


SUBS = [
    Sub("write", strategy, check, "each case is one writer of one embeddings object, run with a "
        "size limit at every byte of its output (outputs over 260 bytes: the first 12 and last "
        "40 bytes, page boundaries and 70 random points), on /dev/full and on unusable paths; "
        "non-trivial: output of at least two bytes.", 2500),
    Sub("large", large, check, "as write, with hundreds to 5000 words.", 16),
    Sub("tools", tool_strategy, tool_check, "each case is one run of ffp-convert, ffp-select or "
        "ffp-bucket-to-explicit, repeated with ten size limits and on /dev/full; all are "
        "non-trivial.", 1200),
]
