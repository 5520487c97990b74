"""C14: analogy queries rank words by the analogy vector."""
from hypothesis import strategies as st

from .. import gen, many, oracle as O
from ..core import Sub, require, sut
from .c13 import simil, obtain, k_of, k_val, kw, ASSUMPTIONS as A13

LEVEL = "exploration"
ASSUMPTIONS = A13


@st.composite
def strategy(draw, large=False):
    case = draw(simil(large))
    words = gen.words_of(case["vocab"]["words"])
    qs = []
    for _ in range(draw(st.integers(1, 4))):
        abc = [draw(gen.query(words, "any", case["vocab"])) for _ in range(3)]
        same = draw(st.integers(0, 11))
        if same == 0:
            abc[1] = abc[0]
        elif same == 1:
            abc[2] = abc[0]
        elif same == 2:
            abc[2] = abc[1]
        elif same == 3:
            abc = [abc[0]] * 3
        skip = draw(st.one_of(
            st.none(), st.just([]),
            st.lists(st.one_of(st.sampled_from(abc), gen.query(words)),
                     max_size=30 if large else 5)))
        # and so many known words more
        block = draw(st.sampled_from([0, 0, 20, 200, 1000])) if large and skip is not None else 0
        qs.append(dict(abc=abc, k=draw(k_of(large)), skip=skip, block=block))
    case["queries"] = qs
    return case


def check(case, ctx):
    em, e = obtain(case, ctx)
    n = len(em.vocab.words)
    nontrivial = 0
    for q in case["queries"]:
        a, b, c = q["abc"]
        what = f"analogy({a[:20]!r}, {b[:20]!r}, {c[:20]!r}, {q['k']}, " \
               f"skip={str(q['skip'])[:40]})"
        args = kw(q["k"], n)
        if q.get("block"):
            q = dict(q, skip=q["skip"] + em.vocab.words[-q["block"]:])
        if q["skip"] is not None:
            args["skip"] = set(q["skip"])
        with sut(what):
            res = e.analogy(a, b, c, **args)
        ref = O.analogy_vec(em, a, b, c)
        if ref is None:
            require(res is None, lambda: f"{what}: {res}, expected None")
            ctx.label("no embedding")
            continue
        skip = {a, b, c} if q["skip"] is None else set(q["skip"])
        with sut(what):
            O.check_neighbours(res, em, *ref, k_val(q["k"], n, 1), skip, what)
        ctx.label("default skip" if q["skip"] is None else
                  "empty skip" if not q["skip"] else "given skip")
        if ref[1].max(initial=0) > 1:
            ctx.label("undetermined direction")
        nontrivial += n >= 2 and len(res) >= 1
    ctx.label(f"{em.vocab.kind}/{em.storage.kind}")
    return nontrivial > 0


RULE = "non-trivial: at least two words in the vocabulary and a non-empty answer."
@st.composite
def many_strategy(draw):
    case = draw(many.embeddings())
    case["load"] = draw(st.sampled_from([None, None, "read", "mmap"]))
    case["many"] = draw(many.spec(4200))
    return case


def many_check(case, ctx):
    """One embeddings object answers a long sequence of analogy queries."""
    em, e = obtain(case, ctx)
    n = len(em.vocab.words)
    qs = many.queries(case["many"], em.vocab.words)
    for i in range(len(qs) - 2):
        abc, k = qs[i:i + 3], i % (n + 2)
        what = f"query {i}, {abc}"
        skip = None if i % 3 else set(abc[:i % 5])
        with sut(what):
            res = e.analogy(*abc, k, skip) if i % 3 == 0 else e.analogy(*abc, k=k)
        ref = O.analogy_vec(em, *abc)
        with sut(what):
            if ref is None:
                require(res is None, lambda: f"{what}: {res}, expected None")
            else:
                O.check_neighbours(res, em, *ref, k, set(abc) if skip is None else skip, what)
                res.clear()                 # the caller's list
    return len(qs) >= 20 and n >= 2


SUBS = [Sub("many", many_strategy, many_check, "up to 4200 queries of one object; non-trivial: at "
            "least 20, and two words.", 160),
        Sub("analogy", strategy, check, RULE, 12000),
        Sub("large", lambda: strategy(True), check, RULE, 300)]
