"""C25: metadata survives storage unchanged and in place."""
import copy
import tomllib

import toml
from hypothesis import strategies as st

from .. import ambient, gen, model as M, oracle as O
from ..core import Sub, require, outcome, sut, fail
from .c02 import META_TEXT

LEVEL = "exploration"
ASSUMPTIONS = ["Metadata that the toml library itself reproduces (toml.loads(toml.dumps(m)) "
               "equals m, types included); what that library cannot represent is out of "
               "scope."]


@st.composite
def metas(draw):
    m = draw(gen.meta_case(True))
    if gen.rarely(draw, 8):
        m = dict(m, big="\u00e9x" * draw(st.sampled_from([500, 4096, 40000])))
    if gen.rarely(draw, 5):
        m = dict(m, many={f"k{i}": i for i in range(draw(st.integers(50, 400)))})
    return m


@st.composite
def huge_strategy(draw):
    """Metadata of up to a few megabytes."""
    case = dict(meta=draw(gen.meta_case(True)), at=draw(gen.place()), how=draw(st.integers(0, 2)),
                size=(1 << draw(st.integers(16, 22))) + draw(st.integers(-60, 3)))
    case["emb"] = draw(gen.emb_case(meta=False, hi=3, fills=("normal",), big=False, long=False,
                                    bulk=False))
    return case


def huge_check(case, ctx):
    import finalfusion
    from finalfusion import Metadata, load_metadata
    want = gen.meta_build(case["meta"])
    if not gen.toml_ok(want):
        return False
    size = case["size"]
    if case["how"] < 2:
        want["huge"] = "z" * size if case["how"] == 0 else "\u00e9" * (size // 2)
    else:
        want["huge"] = {f"k{i}": "v" * 1000 for i in range(size // 1100)}
    em, e = gen.build(case["emb"])
    path = gen.place_path(ctx, case["at"])
    with sut("metadata"):
        e.metadata = Metadata(copy.deepcopy(want))
        e.write(gen.place_arg(path, case["at"]["how"], True))
    em.meta = want
    with sut("loading"):
        O.emb_equals(finalfusion.load_finalfusion(gen.place_arg(path, case["at"]["how"])), em,
                     f"with metadata of {size} characters")
        O.meta_equal(load_metadata(path), want, "load_metadata")
    return True


def read(path):
    with open(path, "rb") as f:
        return f.read()


@st.composite
def alone_strategy(draw):
    return dict(meta=draw(metas()), at=draw(gen.place()))


def alone_check(case, ctx):
    from finalfusion import Metadata, load_metadata
    want = gen.meta_build(case["meta"])
    if not gen.toml_ok(want):
        return False
    path = gen.place_path(ctx, case["at"])
    with sut("Metadata"):
        m = Metadata(copy.deepcopy(want))
        m.write(gen.place_arg(path, case["at"]["how"], True))
        got = load_metadata(gen.place_arg(path, case["at"]["how"]))
        O.meta_equal(m, want, "metadata after writing")
    O.meta_equal(got, want, "loaded metadata")
    data = read(path)
    try:
        (cid, text), = M.parse_file(data)
    except (M.FormatError, UnicodeError) as e:
        fail(f"written metadata does not follow the format: {e!r}")
    require(cid == M.META, f"chunk type {cid}")
    require(gen.same(toml.loads(text), want), "TOML text in the file differs")
    ctx.label("nested" if any(isinstance(v, dict) for v in want.values()) else "flat")
    return len(want) > 0


@st.composite
def with_strategy(draw):
    case = draw(gen.emb_case(meta=False, hi=5, fills=("normal", "bits"), big=False, long=False))
    case["doc"] = draw(metas())
    case["mmap"] = draw(st.booleans())
    return case


def with_check(case, ctx):
    """Embeddings with and without the metadata differ in nothing else."""
    import finalfusion
    from finalfusion import load_metadata, Metadata, Embeddings
    from finalfusion.vocab import load_vocab
    from finalfusion.storage import load_storage
    from finalfusion.norms import load_norms
    want = gen.meta_build(case["doc"])
    if not gen.toml_ok(want):
        return False
    em, e = gen.build(case)
    em.meta = want
    mm = case["mmap"] and em.storage.shape[0] > 0 and em.storage.shape[1] > 0
    with sut("embeddings with metadata"):
        e.metadata = Metadata(copy.deepcopy(want))
        path = ctx.path("e.fifu")
        e.write(path)
        e2 = finalfusion.load_finalfusion(path, mmap=mm)
        O.emb_equals(e2, em, "loaded with metadata")
        O.meta_equal(load_metadata(path), want, "load_metadata")
        O.vocab_equals(load_vocab(path), em.vocab, "load_vocab")
        O.storage_equals(load_storage(path, mmap=mm), em.storage, "load_storage")
        if em.norms is not None:
            O.norms_equal(load_norms(path), em.norms, "load_norms")
        # given to the constructor, and changed after loading
        e3 = Embeddings(e.storage, e.vocab, e.norms, Metadata(copy.deepcopy(want)))
        e3.write(ctx.path("e3.fifu"))
        require(read(ctx.path("e3.fifu")) == read(path), "constructor and assignment differ")
        e2.metadata["added"] = 1
        e2.write(ctx.path("e4.fifu"))
        em.meta = dict(want, added=1)
        O.emb_equals(finalfusion.load_finalfusion(ctx.path("e4.fifu")), em, "changed metadata")
        e2.metadata = None
        e2.write(ctx.path("e5.fifu"))
        em.meta = None
        O.emb_equals(finalfusion.load_finalfusion(ctx.path("e5.fifu")), em, "removed metadata")
    how, err = outcome(lambda: load_metadata(ctx.path("e5.fifu")))
    require(how == "err" and isinstance(err, ValueError), "metadata found after removal")
    ctx.label(f"{em.vocab.kind}/{em.storage.kind}")
    return len(want) > 0


@st.composite
def text_strategy(draw):
    """TOML text in other formattings than the toml library's."""
    scalars = st.one_of(
        st.integers(-10 ** 6, 10 ** 6).map(lambda i: [str(i), i]),
        st.integers(0, 10 ** 6).map(lambda i: [hex(i), i]),
        st.integers(1000, 10 ** 6).map(lambda i: [f"{i:_}", i]),
        st.sampled_from([["true", True], ["false", False], ["1e3", 1000.0], ["-0.25", -0.25],
                         ["'lit\\eral'", "lit\\eral"], ["\"a\\tb\"", "a\tb"],
                         ["\"\"\"\nmulti\nline\"\"\"", "multi\nline"], ["[1,2, 3 ]", [1, 2, 3]],
                         ["[\n 1,\n 2,\n]", [1, 2]], ["[ 'a' , 'b' ]", ["a", "b"]],
                         ["\"\u65e5\u672c\"", "\u65e5\u672c"], ["\"\\u00e9\"", "\u00e9"]]))
    parts = draw(st.lists(scalars, max_size=6))
    styles = draw(st.lists(st.integers(0, 5), min_size=6, max_size=6))
    return dict(parts=parts, styles=styles, doc=draw(st.one_of(
        st.none(), st.integers(1, len(META_TEXT) - 1))),
        emb=draw(gen.emb_case(meta=False, hi=3, fills=("normal",), big=False, long=False,
                              bulk=False)))


def text_check(case, ctx):
    import finalfusion
    from finalfusion import load_metadata
    if case["doc"] is not None:
        text, want = META_TEXT[case["doc"]]
    else:
        text, want = "", {}
        for i, (raw, val) in enumerate(case["parts"]):
            st_ = case["styles"][i]
            text += ["", "\n", "# c\n", "  ", "\t", "\r\n"][st_]
            text += f"key{i}" + ["=", " = ", "   =   "][st_ % 3] + raw + \
                ["", "  # note", "  "][st_ % 3] + ["\n", "\r\n"][st_ == 4]
            want[f"key{i}"] = val
        h, mine = outcome(lambda: tomllib.loads(text))
        h2, theirs = outcome(lambda: toml.loads(text))
        if "err" in (h, h2) or not (gen.same(mine, want) and gen.same(theirs, want)):
            ctx.label("not read alike by both toml libraries")
            return False
    em = gen.emb_model(case["emb"])
    em.meta = want
    path = ctx.path("t.fifu")
    with open(path, "wb") as f:
        f.write(M.encode_file(em.chunks(text))[0])
    with sut("loading"):
        O.emb_equals(finalfusion.load_finalfusion(path), em, "loaded")
        O.meta_equal(load_metadata(path), want, "load_metadata")
    return len(want) > 0


@st.composite
def dict_strategy(draw):
    key, val = gen.KEY, st.one_of(st.integers(-9, 9), st.text(max_size=4), st.booleans())
    ops = st.one_of(
        st.tuples(st.just("set"), key, val), st.tuples(st.just("del"), key, val),
        st.tuples(st.just("pop"), key, val), st.tuples(st.just("get"), key, val),
        st.tuples(st.just("setdefault"), key, val), st.tuples(st.just("update"), key, val),
        st.tuples(st.just("in"), key, val), st.tuples(st.just("clear"), key, val),
        st.tuples(st.just("popitem"), key, val), st.tuples(st.just("save"), key, val))
    return dict(start=draw(st.dictionaries(key, val, max_size=3)),
                ops=draw(st.lists(ops.map(list), max_size=12)))


def dict_check(case, ctx):
    from finalfusion import Metadata, load_metadata
    want = dict(case["start"])
    with sut("Metadata"):
        m = Metadata(dict(want))
    require(isinstance(m, dict), "Metadata is not a dict")
    act = {"set": lambda d, k, v: d.__setitem__(k, v), "del": lambda d, k, v: d.__delitem__(k),
           "pop": lambda d, k, v: d.pop(k), "get": lambda d, k, v: (d.get(k), d.get(k, v)),
           "setdefault": lambda d, k, v: d.setdefault(k, v),
           "update": lambda d, k, v: d.update({k: v, "u": 1}), "in": lambda d, k, v: k in d,
           "clear": lambda d, k, v: d.clear(), "popitem": lambda d, k, v: d.popitem()}
    for name, k, v in case["ops"]:
        if name == "save":
            if gen.toml_ok(want):
                with sut("saving"):
                    m.write(ctx.path("d.fifu"))
                    m = load_metadata(ctx.path("d.fifu"))
                O.meta_equal(m, want, "saved")
                want = dict(m)           # TOML may reorder keys
        else:
            a, b = outcome(lambda: act[name](m, k, v)), outcome(lambda: act[name](want, k, v))
            require(a[0] == b[0] and (a[1] == b[1] if a[0] == "ok" else type(a[1]) is type(b[1])),
                    lambda: f"{name}({k!r}, {v!r}): {a}, a dict gives {b}")
        with sut("dict access"):
            require(m == want and len(m) == len(want) and list(m) == list(want) and
                    list(m.items()) == list(want.items()) and repr(m) == repr(want) and
                    bool(m) == bool(want), lambda: f"{m!r} differs from {want!r} after {name}")
    return len(case["ops"]) >= 2


SUBS = [Sub("alone", alone_strategy, alone_check, "non-trivial: not empty.", 5000),
        Sub("with", ambient.within(with_strategy), with_check, "non-trivial: not empty.", 2500),
        Sub("text", text_strategy, text_check, "non-trivial: not empty.", 3000),
        Sub("dict", dict_strategy, dict_check, "non-trivial: at least two operations.", 2000),
        Sub("huge", huge_strategy, huge_check, "metadata of 64 KB to 4 MB before the other chunks.", 48)]
