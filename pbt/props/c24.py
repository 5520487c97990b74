"""C24: ffp-similar and ffp-analogy print the true neighbours per query line."""
from collections import namedtuple

from hypothesis import strategies as st

from .. import cli, gen, oracle as O, source as S
from ..core import Sub, require, fail

LEVEL = "exploration"
ASSUMPTIONS = ["Words without line separators or surrounding white space (analogies: without "
               "any white space); no blank lines for ffp-analogy; k >= 0.",
               "Blank lines in the output are ignored (an empty answer prints one).",
               "The tools' main functions run in the checking process on real files."]
Result = namedtuple("Result", "word similarity")
PADS = ["", "", "", " ", "\t", "  "]


@st.composite
def common(draw, style, large=False):
    src = draw(S.source(hi=8, style=style, large=large, budget=30000))
    if not large and gen.rarely(draw, 25):
        src["vocab"]["words"]["bulk"] = draw(st.integers(5, 25))
        src["vocab"]["words"]["bseed"] = draw(st.integers(0, 99))
    return dict(src=src, pad=draw(st.sampled_from(PADS)), end=draw(st.booleans()),
                stdin=draw(st.booleans()), defaults=draw(st.booleans()),
                short=draw(st.booleans()), newline=draw(st.sampled_from(["\n", "\n", "\r\n"])),
                k=draw(st.one_of(st.none(), st.integers(0, 6),
                                 st.sampled_from([1000, 1001, 2048, 5000, 10 ** 6])
                                 if large and gen.rarely(draw, 30) else
                                 st.integers(0, 400 if large else 40))))


def run(tool, case, ctx, lines, extra=()):
    s = S.make(case["src"], ctx)
    em = S.as_loaded(s)
    text = case["newline"].join(case["pad"] + x + case["pad"] for x in lines)
    if case["end"]:
        text += case["newline"]
    args, stdin = [s.path], b""
    if case["stdin"]:
        stdin = text.encode("utf-8")
    else:
        with open(ctx.path("queries"), "wb") as f:
            f.write(text.encode("utf-8"))
        args.append(ctx.path("queries"))
    if not (case["defaults"] and s.fmt == "finalfusion"):
        args += ["-f" if case["short"] else "--format", s.fmt]
    if case["k"] is not None:
        args += ["-k", str(case["k"])]
    args += s.args + list(extra)
    code, out, err = cli.run(tool, args, stdin)
    what = f"ffp-{tool} on {s.fmt} ({em.vocab.kind})"
    require(code == 0, lambda: f"{what}: exit {code}: {err[-500:]}")
    res = []
    for line in out.split("\n"):
        if line.strip():
            word, _, sim = line.rpartition(" ")
            try:
                res.append(Result(word, float(sim)))
            except ValueError:
                fail(f"{what}: cannot read output line {line!r}")
    ctx.label(s.fmt)
    return em, res, err, what


def segment(res, at, em, k, skip, ref, what):
    n = sum(w not in skip for w in em.vocab.words)
    part = res[at:at + min(k, n)]
    O.check_neighbours(part, em, *ref, k, skip, what)
    return at + len(part)


@st.composite
def similar_strategy(draw, large=False):
    case = draw(common("line", large))
    known = S.words_in(case["src"])
    case["queries"] = draw(st.lists(gen.query(known, "line", case["src"]["vocab"]).filter(
        lambda w: gen.ok_word(w, "line")), min_size=1, max_size=6))
    if gen.rarely(draw, 3):              # a long session
        case["queries"] = case["queries"] * draw(st.integers(2, 40))
    if gen.rarely(draw, 20):             # blank lines are no queries
        case["queries"].insert(draw(st.integers(0, len(case["queries"]))), "")
    return case


def similar_check(case, ctx):
    em, res, err, what = run("similar", case, ctx, case["queries"])
    k, at, failed = 10 if case["k"] is None else case["k"], 0, 0
    for q in case["queries"]:
        if not q:
            continue
        ref = O.query_vec(em, q)
        if ref is None:
            failed += 1
            require(q in err, lambda: f"{what}: {q!r} not reported on stderr: {err!r}")
            continue
        at = segment(res, at, em, k, {q}, ref, f"{what}: {q!r}")
    require(at == len(res), lambda: f"{what}: unexpected output {res[at:at + 3]}")
    ctx.label("queries without embedding", failed)
    return at > 0


@st.composite
def analogy_strategy(draw, large=False):
    case = draw(common("plain", large))
    known = S.words_in(case["src"])
    word = gen.query(known, "plain", case["src"]["vocab"]).filter(lambda w: gen.ok_word(w, "plain"))
    word = st.one_of(st.sampled_from(known), word)
    case["queries"] = draw(st.lists(st.lists(word, min_size=3, max_size=3), min_size=1,
                                    max_size=5))
    if gen.rarely(draw, 3):
        case["queries"] = case["queries"] * draw(st.integers(2, 30))
    inc = draw(st.lists(st.sampled_from("abc"), max_size=3, unique=True))
    for q in case["queries"]:
        for x in range(3):
            for y in range(x):
                if q[x] == q[y] and ("abc"[x] in inc) != ("abc"[y] in inc):
                    inc = []             # such a line is contradictory
    case["include"] = inc
    case["gap"] = draw(st.sampled_from([" ", " ", "\t", "  "]))
    return case


def analogy_check(case, ctx):
    extra = ["-i" if case["short"] else "--include"] + case["include"] \
        if case["include"] else []
    em, res, err, what = run("analogy", case, ctx,
                             [case["gap"].join(q) for q in case["queries"]], extra)
    k, at = 10 if case["k"] is None else case["k"], 0
    for q in case["queries"]:
        ref = O.analogy_vec(em, *q)
        if ref is None:
            require(any(w in err for w in q), lambda: f"{what}: {q} not reported on stderr")
            ctx.label("queries without embedding")
            continue
        skip = {w for w, part in zip(q, "abc") if part not in case["include"]}
        at = segment(res, at, em, k, skip, ref, f"{what}: {q} include={case['include']}")
    require(at == len(res), lambda: f"{what}: unexpected output {res[at:at + 3]}")
    ctx.label("include " + "".join(sorted(case["include"])))
    return at > 0


SUBS = [Sub("similar", similar_strategy, similar_check, "non-trivial: some answer.", 4000),
        Sub("analogy", analogy_strategy, analogy_check, "non-trivial: some answer.", 4000),
        Sub("large-similar", lambda: similar_strategy(True), similar_check, "hundreds to "
            "thousands of words; non-trivial: some answer.", 120),
        Sub("large-analogy", lambda: analogy_strategy(True), analogy_check, "as above.", 120)]
