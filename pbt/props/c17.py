"""C17: array storage and norms behave and serialize as the wrapped array."""
import os

import numpy as np
from hypothesis import strategies as st

from .. import gen, model as M, oracle as O
from ..core import Sub, require, rejects, sut, outcome
from .c16 import key, make_key, SLICE

LEVEL = "exploration"
ASSUMPTIONS = ["Keys of every kind numpy accepts for a 2-d or 1-d array, out-of-range ones "
               "included; results are compared bit for bit with the plain array's."]
LAYOUTS = ["C", "F", "rows2", "rev", "cols2", "be", "ro", "be+F", "be+rows2", "be+rev"]


def lay(a, layout):
    for part in layout.split("+"):
        a = gen.lay(a, part)
    return a


def lay1(a, layout):
    if layout == "rows2":
        b = np.full(2 * len(a), 3, dtype=a.dtype)
        b[::2] = a
        return b[::2]
    if layout == "rev":
        return np.ascontiguousarray(a[::-1])[::-1]
    if layout.startswith("be"):
        a = a.astype(">f4")
        return lay1(a, layout[3:]) if "+" in layout else a
    if layout == "cols2":
        return np.concatenate([[1], a, [2]]).astype(a.dtype)[1:-1]
    return a.copy()


@st.composite
def tuple_key(draw):
    part = st.one_of(st.integers(-3, 3).map(lambda i: ["i", i]),
                     SLICE.map(lambda s: ["s", s]),
                     st.lists(st.integers(0, 2), max_size=3).map(lambda x: ["l", x]))
    return dict(kind="tuple", parts=draw(st.lists(part, min_size=1, max_size=2)))


def index(k, n):
    if k["kind"] == "tuple":
        return tuple(v if t == "i" else slice(*v) if t == "s" else v for t, v in k["parts"])
    if k["kind"] == "special":
        return [Ellipsis, None, (Ellipsis, 0), (None, 0), (slice(None), None), ()][k["which"]]
    return make_key(k, n)


KEYS = st.lists(st.one_of(key(), key(), tuple_key(), st.integers(0, 5).map(
    lambda i: dict(kind="special", which=i))), min_size=1, max_size=6)


@st.composite
def strategy(draw):
    return dict(rows=draw(st.integers(0, 9)), cols=draw(st.integers(0, 5)),
                seed=draw(st.integers(0, 9999)), fill=draw(st.sampled_from(gen.FILLS)),
                layout=draw(st.sampled_from(LAYOUTS)), keys=draw(KEYS),
                slices=draw(st.lists(SLICE, max_size=3)),
                load=draw(st.sampled_from([None, None, None, "read", "mmap"])))


@st.composite
def large(draw):
    case = draw(strategy())
    case["rows"] = draw(st.one_of(st.sampled_from(gen.EDGES + gen.FAR), st.integers(100, 9000)))
    case["cols"] = draw(st.sampled_from([c for c in (1, 2, 3, 7, 16, 31, 64, 100, 128, 300, 1000)
                                         if c * case["rows"] < 1000000]))
    case["slices"] = [[None if x is None else 97 * x for x in a[:2]] + a[2:]
                      for a in case["slices"][:2]]
    return case


def eq(got, want, what):
    if isinstance(want, np.ndarray):
        O.same_bits(got, native(want), what)
    else:                                # a scalar
        require(np.float32(got).tobytes() == np.float32(want).tobytes() or
                (np.isnan(got) and np.isnan(want)), lambda: f"{what}: {got}, expected {want}")


def native(a):
    """Little-endian C-ordered copy with the same bits."""
    if a.dtype.str == ">f4":
        return np.array(a, order="C").byteswap().view("<f4")
    return np.array(a, order="C")


def probe(s, base, case, cls, what, ctx):
    """s (NdArray or Norms) against the plain array with the same contents."""
    with sut(what):
        require(type(s).__name__ == cls, lambda: f"{what}: {type(s)}")
        require(tuple(s.shape) == base.shape and len(s) == len(base), f"{what}: shape")
        O.same_bits(s, native(base), what)
        rows = list(s)
    require(len(rows) == len(base), lambda: f"{what}: iteration yields {len(rows)} items")
    for i, r in enumerate(rows):
        if cls == "NdArray":
            require(type(r) is np.ndarray, lambda: f"{what}: iterated {type(r)}")
        eq(r, base[i], f"{what}: iterated item {i}")
    for k in case["keys"]:
        kk = index(k, len(base))
        if kk is None and k["kind"] != "special":
            continue
        name = f"{what}[{k['kind']} {str(kk)[:40]}]"
        ref, got = outcome(lambda: base[kk]), outcome(lambda: s[kk])
        require(ref[0] == got[0], lambda: f"{name}: {got}, plain array: {ref}")
        ctx.label(k["kind"] if ref[0] == "ok" else "refused key")
        if ref[0] == "err":
            require(isinstance(got[1], type(ref[1])), lambda: f"{name}: {got[1]!r}")
            continue
        with sut(name):
            eq(got[1], ref[1], name)
            if isinstance(kk, slice):
                require(type(got[1]).__name__ == cls, lambda: f"{name}: {type(got[1])}")
            elif cls == "NdArray" and k["kind"] in ("int", "npint", "list", "array", "mask"):
                require(type(got[1]) is np.ndarray, lambda: f"{name}: {type(got[1])}")


def writes(s, base, cls, what, ctx, mm):
    from finalfusion.storage import load_ndarray, load_storage
    from finalfusion.norms import load_norms
    path = ctx.path(f"w{len(os.listdir(ctx.scratch))}.fifu")
    with sut(f"{what}: write"):
        s.write(path)
    with open(path, "rb") as f:
        data = f.read()
    try:
        (cid, got), = M.parse_file(data)
    except M.FormatError as e:
        require(False, f"{what}: written file does not follow the format: {e}")
    O.same_bits(got.array if cid == M.NDARRAY else got, native(base), f"{what}: file contents")
    with sut(f"{what}: load"):
        if cls == "NdArray":
            again = load_ndarray(path, mmap=mm and base.size > 0)
            O.same_bits(load_storage(path), native(base), f"{what}: loaded")
        else:
            again = load_norms(path)
    require(type(again).__name__ == cls, lambda: f"{what}: loaded {type(again)}")
    O.same_bits(again, native(base), f"{what}: loaded")
    return again


def nd_check(case, ctx):
    from finalfusion.storage import NdArray
    return common(case, ctx, NdArray, lay(gen.fill(
        case["seed"], (case["rows"], case["cols"]), case["fill"]), case["layout"]))


def norms_check(case, ctx):
    from finalfusion.norms import Norms
    return common(case, ctx, Norms, lay1(gen.fill(
        case["seed"], (case["rows"],), case["fill"]), case["layout"]))


def common(case, ctx, ctor, base):
    cls = ctor.__name__
    what = f"{cls}({case['layout']})"
    with sut(what):
        s = ctor(base)
    require(base.size == 0 or np.shares_memory(np.asarray(s), base),
            lambda: f"{what}: data was copied")
    if case["load"]:
        s = writes(s, base, cls, what, ctx, case["load"] == "mmap")
        base = native(base)
    probe(s, base, case, cls, what, ctx)
    top, topbase = s, base
    for i, sl in enumerate(case["slices"]):
        what = f"{cls}({case['layout']}) sliced {case['slices'][:i + 1]}"
        with sut(what):
            s = s[slice(*sl)]
        base = base[slice(*sl)]
        probe(s, base, case, cls, what, ctx)
    writes(s, base, cls, what, ctx, case["load"] == "mmap")
    writes(top, topbase, cls, "the whole", ctx, False)
    if s.size and case["load"] != "mmap":
        require(np.shares_memory(np.asarray(s), np.asarray(top)), f"{what}: not the same data")
        if topbase.flags.writeable and top.flags.writeable:
            if not case["load"]:         # change through the wrapped array
                topbase[...] = 2.5
            else:
                top[...] = 2.5
            with sut(what):
                O.same_bits(s, np.full(s.shape, 2.5, dtype="<f4"), f"{what}: after a change")
    ctx.label(case["layout"])
    return base.size >= 2


@st.composite
def refuse_strategy(draw):
    return dict(dtype=draw(st.sampled_from(["f8", "f2", "i4", "u4", "i8", "u1", "c8", "?", "O",
                                            "f4", ">f4", ">f8", "f16", "S4"])),
                shape=draw(st.lists(st.integers(0, 4), max_size=4)),
                load=draw(st.booleans()))


def refuse_check(case, ctx):
    """Everything but a 2-d (storage) or 1-d (norms) float32 array is refused."""
    from finalfusion.storage import NdArray
    from finalfusion.norms import Norms
    dt = np.dtype(np.longdouble if case["dtype"] == "f16" else case["dtype"])
    a = np.zeros(case["shape"], dtype=dt)
    f4 = dt.kind == "f" and dt.itemsize == 4
    for ctor, ndim in ((NdArray, 2), (Norms, 1)):
        what = f"{ctor.__name__} of a {a.ndim}-d {dt} array"
        if f4 and a.ndim == ndim:
            with sut(what):
                eq(ctor(a), a, what)
        else:
            rejects(what, lambda: ctor(a))
    return not f4 or a.ndim not in (1, 2)


SUBS = [
    Sub("ndarray", strategy, nd_check, "non-trivial: two entries left after slicing.", 5000),
    Sub("norms", strategy, norms_check, "non-trivial: two entries left after slicing.", 4000),
    Sub("large-ndarray", large, nd_check, "as ndarray, up to 70000 rows.", 64),
    Sub("large-norms", large, norms_check, "as norms, up to 70000 entries.", 64),
    Sub("refuse", refuse_strategy, refuse_check, "non-trivial: must be refused.", 1500),
]
