"""C16: quantized storage behaves as the matrix it encodes."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, model as M, oracle as O
from ..core import Sub, require, rejects, sut

LEVEL = "exploration"
ASSUMPTIONS = ["Reconstructions are compared within single-precision rounding; stored "
               "quantizer contents bit for bit.", "Integer keys are in range or one off; "
               "code values are below the number of centroids."]
EDGE = st.one_of(st.none(), st.integers(-12, 12))
SLICE = st.tuples(EDGE, EDGE, st.sampled_from([None, None, 1, 2, 3, -1, -2])).map(list)


@st.composite
def key(draw):
    kind = draw(st.sampled_from(["int", "npint", "list", "array", "array", "mask", "slice"]))
    if kind in ("int", "npint"):
        return dict(kind=kind, at=draw(st.integers(0, 999)))
    if kind == "slice":
        return dict(kind=kind, s=draw(SLICE))
    if kind == "mask":
        return dict(kind=kind, seed=draw(st.integers(0, 999)))
    if kind == "list":
        return dict(kind=kind, at=draw(st.lists(st.integers(0, 999), max_size=6)))
    return dict(kind=kind, shape=draw(st.lists(st.integers(0, 3), max_size=3)),
                seed=draw(st.integers(0, 999)), neg=draw(st.booleans()),
                dtype=draw(st.sampled_from(["i8", "i4", "u1", "i2", "u8"])),
                order=draw(st.sampled_from(["C", "F", "stride"])))


def make_key(k, n):
    """The actual index for n rows; None if there is none."""
    kind = k["kind"]
    if kind == "slice":
        return slice(*k["s"])
    if kind == "mask":
        return np.random.RandomState(k["seed"]).rand(n) < 0.5
    if n == 0:
        if kind == "list":
            return []
        if kind == "array" and 0 in k["shape"]:
            return np.zeros(k["shape"], dtype="i8")
        return None
    if kind in ("int", "npint"):
        i = k["at"] % (2 * n) - n
        return i if kind == "int" else np.int64(i)
    if kind == "list":
        return [a % (2 * n) - n for a in k["at"]]
    rng = np.random.RandomState(k["seed"])
    lo = -n if k["neg"] and k["dtype"][0] == "i" else 0
    a = np.asarray(rng.randint(lo, n, size=k["shape"] or None), dtype=k["dtype"])
    if k["order"] == "F":
        a = np.asfortranarray(a)
    elif k["order"] == "stride" and a.ndim:
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype)
        b[..., ::2] = a
        a = b[..., ::2]
    return a


@st.composite
def strategy(draw):
    return dict(storage=draw(gen.pq_case()), rows=draw(st.integers(0, 12)),
                keys=draw(st.lists(key(), min_size=1, max_size=6)),
                slices=draw(st.lists(SLICE, max_size=3)),
                load=draw(st.sampled_from([None, None, "read", "mmap"])),
                out=draw(st.sampled_from(["C", "F", "stride", "double"])),
                dtype=draw(st.sampled_from(["f4", "f8", "f2", ">f4", "f16"])))


@st.composite
def large(draw):
    case = draw(strategy())
    s = case["storage"]
    case["rows"] = draw(st.one_of(st.integers(100, 2000), st.sampled_from(gen.EDGES[:12])))
    s["q"] = draw(st.sampled_from([1, 2, 5, 8, 16, 17, 50, 64]))
    s["sub"] = draw(st.integers(1, 8))
    s["cent"] = draw(st.sampled_from([2, 16, 128, 129, 200, 255, 256]))
    case["slices"] = [[None if x is None else 37 * x for x in a[:2]] + a[2:]
                      for a in case["slices"][:2]]
    return case


def sub(sm, s):
    return M.PqM(sm.quantizers, sm.codes[s], sm.projection,
                 None if sm.norms is None else sm.norms[s])


def buffer(shape, how):
    if how == "double":
        return np.full(shape, 4, dtype=np.float64)
    if how == "F":
        return np.full(shape, 4, dtype=np.float32, order="F")
    if how == "stride":
        return np.full(shape + (2,), 4, dtype=np.float32)[..., 1]
    return np.full(shape, 4, dtype=np.float32)


def probe(s, sm, case, ctx, what):
    """All routes to the rows of s against the matrix of the model."""
    d, tol = sm.dense(), 4e-6 * sm.scale() + 1e-37
    n = sm.shape[0]
    O.storage_equals(s, sm, what)
    with sut(f"{what}: iteration"):
        rows = list(s)
    require(len(rows) == n, lambda: f"{what}: iteration yields {len(rows)} of {n} rows")
    for i, r in enumerate(rows):
        O.close(r, d[i], tol[i], f"{what}: iterated row {i}")
    for k in case["keys"]:
        kk = make_key(k, n)
        if kk is None:
            continue
        name = f"{what}[{k['kind']} {str(kk)[:40]}]"
        want, t = d[kk], tol[kk]
        with sut(name):
            got = s[kk]
        if isinstance(kk, slice):
            require(type(got).__name__ == "QuantizedArray", lambda: f"{name}: {type(got)}")
            O.storage_equals(got, sub(sm, kk), name)
        else:
            require(isinstance(got, np.ndarray), lambda: f"{name}: {type(got)}")
            require(got.dtype == np.float32, lambda: f"{name}: {got.dtype}")
            O.close(got, want, t, name)
        with sut(f"{name}: embedding()"):
            O.close(s.embedding(kk), want, t, f"{name}: embedding()")
            out = buffer(want.shape, case["out"])
            got = s.embedding(kk, out=out)
            O.close(out, want, t, f"{name}: buffer")
            O.close(got, want, t, f"{name}: result with buffer")
        ctx.label(k["kind"])
    for bad in (n, -n - 1):
        rejects(f"{what}[{bad}] of {n} rows", lambda: s[bad], IndexError)
        rejects(f"{what}[[{bad}]] of {n} rows", lambda: s[[bad]], IndexError)
    rejects(f"{what}[None]", lambda: s[None], TypeError)
    with sut(f"{what}: as array"):
        for arr in (np.asarray(s), np.array(s)):
            require(arr.dtype == np.float32, lambda: f"{what}: {arr.dtype}")
            O.close(arr, d, tol, f"{what}: as array")
        dt = np.dtype({"f16": np.longdouble}.get(case["dtype"], case["dtype"]))
        if dt.itemsize > 2 or np.abs(d).max(initial=0) < 6e4:
            arr = np.asarray(s, dtype=dt)
            require(arr.dtype == dt, lambda: f"{what}: {arr.dtype}, asked for {dt}")
            extra = 2e-3 * np.abs(d) + 1e-6 if dt.itemsize == 2 else 0
            O.close(arr, d, tol + extra, f"{what}: as {dt} array")


def check(case, ctx):
    from finalfusion.storage import load_storage, load_quantized_array
    sm = gen.storage_model(case["storage"], case["rows"])
    with sut("constructing"):
        s = gen.storage_sut(sm, case["storage"])
    if case["load"]:
        mm = case["load"] == "mmap" and sm.shape[0] > 0
        with sut("write and load"):
            s.write(ctx.path("q.fifu"))
            s = load_storage(ctx.path("q.fifu"), mmap=mm)
    probe(s, sm, case, ctx, "storage")
    whole, wm = s, sm
    for i, sl in enumerate(case["slices"]):
        with sut(f"slice {sl}"):
            s = s[slice(*sl)]
        sm = sub(sm, slice(*sl))
        probe(s, sm, case, ctx, f"slice {case['slices'][:i + 1]}")
    # writing the (nested) slice stores exactly its rows
    with sut("writing a slice"):
        s.write(ctx.path("s.fifu"))
    with open(ctx.path("s.fifu"), "rb") as f:
        data = f.read()
    try:
        (cid, got), = M.parse_file(data)
    except M.FormatError as e:
        require(False, f"written slice does not follow the format: {e}")
    require(cid == M.PQ, "chunk type")
    O.parsed_storage_equals(got, sm, "written slice")
    with sut("loading a written slice"):
        again = load_quantized_array(ctx.path("s.fifu"), mmap=case["load"] == "mmap"
                                     and sm.shape[0] > 0)
    probe(again, sm, case, ctx, "written slice")
    O.storage_equals(whole, wm, "storage after slicing")
    ctx.label("projection" if sm.projection is not None else "no projection")
    ctx.label("norms" if sm.norms is not None else "no norms")
    return sm.shape[0] >= 2


@st.composite
def wide(draw):
    """Up to 70000 columns or quantizers."""
    case = draw(strategy())
    draw(gen.wide(dict(vocab=dict(kind="simple", words=dict(list=[])), storage=case["storage"])))
    case.update(rows=draw(st.integers(0, 4)), keys=case["keys"][:3], slices=case["slices"][:1])
    return case


@st.composite
def tall(draw):
    s = draw(gen.pq_case())
    s.update(q=draw(st.integers(1, 3)), sub=draw(st.integers(1, 2)))
    return dict(storage=s, rows=draw(st.one_of(
                    st.integers(2000, 70000),
                    st.sampled_from([4095, 4096, 4097, 8191, 8192, 8193, 16385, 32767, 32768,
                                     32769, 65535, 65536, 65537, 131073]))),
                step=draw(st.sampled_from([1, 1, 2, 3, -1, -2])),
                cut=draw(st.integers(0, 200)), seed=draw(st.integers(0, 999)),
                out=draw(st.sampled_from(["C", "F", "stride"])),
                load=draw(st.sampled_from([None, "read", "mmap"])))


def tall_check(case, ctx):
    """Tens of thousands of rows at once, by every route that takes many."""
    from finalfusion.storage import load_quantized_array
    sm = gen.storage_model(case["storage"], case["rows"])
    with sut("constructing"):
        s = gen.storage_sut(sm, case["storage"])
    if case["load"]:
        with sut("write and load"):
            s.write(ctx.path("q.fifu"))
            with open(ctx.path("q.fifu"), "rb") as f:
                (_, got), = M.parse_file(f.read())
            O.parsed_storage_equals(got, sm, "written storage")
            s = load_quantized_array(ctx.path("q.fifu"), mmap=case["load"] == "mmap")
    n, d, tol = sm.shape[0], sm.dense(), 4e-6 * sm.scale() + 1e-37
    rng = np.random.RandomState(case["seed"])
    part = slice(case["cut"], None, case["step"])
    perm = rng.permutation(n)
    mask = rng.rand(n) < 0.9
    with sut("reading many rows"):
        O.close(np.asarray(s), d, tol, "as array")
        O.close(np.asarray(s[part]), d[part], tol[part], f"as array of {part}")
        for name, k in ("permutation", perm), ("mask", mask), ("slice", part), (
                "list", perm[:n // 2].tolist()), ("nested array", perm[:n // 2 * 2].reshape(2, -1)):
            O.close(s.embedding(k), d[k], tol[k], f"embedding({name})")
            out = buffer(d[k].shape, case["out"])
            s.embedding(k, out=out)
            O.close(out, d[k], tol[k], f"embedding({name}) into a buffer")
            if name != "slice":
                O.close(s[k], d[k], tol[k], f"rows by {name}")
        for i in rng.randint(-n, n, 20).tolist() + [0, n - 1, -n, -1]:
            O.close(s[i], d[i], tol[i], f"row {i}")
    return True


@st.composite
def pq_strategy(draw):
    return dict(storage=draw(gen.pq_case()), seed=draw(st.integers(0, 999)),
                shape=draw(st.lists(st.integers(0, 4), max_size=3)),
                out=draw(st.sampled_from([None, "C", "F", "stride", "double"])))


def pq_check(case, ctx):
    """PQ.reconstruct on batches of any dimension, with and without a buffer."""
    case["storage"]["norms"] = False
    sm = gen.storage_model(case["storage"], 1)
    q, cent, _ = sm.quantizers.shape
    codes = np.random.RandomState(case["seed"]).randint(
        0, min(cent, 256), size=case["shape"] + [q]).astype(np.uint8)
    flat = M.PqM(sm.quantizers, codes.reshape(-1, q), sm.projection)
    shape = tuple(case["shape"]) + (sm.shape[1],)
    want, tol = flat.dense().reshape(shape), (4e-6 * flat.scale() + 1e-37).reshape(shape)
    with sut("PQ.reconstruct"):
        pq = gen.storage_sut(sm, case["storage"]).quantizer
        keep = pq.subquantizers.copy()
        if case["out"] is None:
            got = pq.reconstruct(codes)
            O.close(got, want, tol, "reconstruct")
            got[...] = 77                # must not reach the quantizer
        else:
            out = buffer(shape, case["out"])
            got = pq.reconstruct(codes, out=out)
            O.close(out, want, tol, "reconstruct into a buffer")
            O.close(got, want, tol, "reconstruct with a buffer")
            out[...] = 77
        O.same_bits(pq.subquantizers, keep, "quantizers after reconstruction")
        bad = np.zeros(shape[:-1] + (shape[-1] + 1,), dtype=np.float32)
    rejects("reconstruct into a buffer of wrong width", lambda: pq.reconstruct(codes, out=bad))
    return int(np.prod(case["shape"])) >= 1


@st.composite
def parts_strategy(draw):
    wrong = draw(st.sampled_from(["quantizers", "projection", "codes", "norms"]))
    how = draw(st.sampled_from(["dtype", "dtype", "ndim", "size"]))
    return dict(storage=draw(gen.pq_case()), rows=draw(st.integers(0, 6)), wrong=wrong, how=how,
                dtype=draw(st.sampled_from(["f8", "f2", "i4", "u1", "i1", "i8", "u4", "?"])),
                by=draw(st.sampled_from([-1, 1, 3])), axis=draw(st.integers(0, 1)))


def parts_check(case, ctx):
    """Parts the chunk cannot express are refused, so no unreadable file is ever written."""
    from finalfusion.storage import QuantizedArray
    from finalfusion.storage.quantized import PQ
    case["storage"]["proj"] |= case["wrong"] == "projection"
    case["storage"]["norms"] |= case["wrong"] == "norms"
    sm = gen.storage_model(case["storage"], case["rows"])
    parts = dict(quantizers=sm.quantizers, projection=sm.projection, codes=sm.codes,
                 norms=sm.norms)
    with sut("consistent parts"):
        QuantizedArray(PQ(parts["quantizers"], parts["projection"]), parts["codes"],
                       parts["norms"])
    a = parts[case["wrong"]]
    if case["how"] == "dtype":
        b = np.zeros(a.shape, dtype=case["dtype"])
        if b.dtype == a.dtype:
            return False
    elif case["how"] == "ndim":
        b = a[None] if case["by"] > 0 else a[..., None] if a.size == 0 else a[0]
        if not isinstance(b, np.ndarray):
            b = np.asarray(b)
    else:
        ax = a.ndim - 1 if case["wrong"] == "codes" else min(case["axis"], a.ndim - 1)
        if case["wrong"] == "quantizers":
            return False
        shape = list(a.shape)
        shape[ax] = max(0, shape[ax] + case["by"])
        if tuple(shape) == a.shape:
            return False
        b = np.zeros(shape, dtype=a.dtype)
    parts[case["wrong"]] = b
    rejects(f"{case['wrong']} of shape {b.shape} and type {b.dtype} for a matrix of "
            f"{sm.shape[0]} rows, {sm.codes.shape[1]} quantizers and {sm.shape[1]} columns",
            lambda: QuantizedArray(PQ(parts["quantizers"], parts["projection"]),
                                   parts["codes"], parts["norms"]))
    ctx.label(f"{case['wrong']} {case['how']}")
    return True


@st.composite
def many_strategy(draw):
    return dict(storage=draw(gen.pq_case()), rows=draw(st.sampled_from([2, 7, 40, 300, 2000])),
                n=draw(st.one_of(st.integers(5, 400), st.sampled_from([600, 1100, 2100, 4200]))),
                seed=draw(st.integers(0, 9999)), slices=draw(st.lists(SLICE, min_size=1,
                                                                      max_size=2)),
                load=draw(st.sampled_from([None, None, "read", "mmap"])))


def many_check(case, ctx):
    """Thousands of reads of one storage and slices of it, in turns."""
    from finalfusion.storage import load_storage
    sm = gen.storage_model(case["storage"], case["rows"])
    with sut("constructor"):
        s = gen.storage_sut(sm, case["storage"])
    if case["load"]:
        with sut("write and load_storage"):
            s.write(ctx.path("s.fifu"))
            s = load_storage(ctx.path("s.fifu"), mmap=case["load"] == "mmap")
    views, models = [s], [sm]
    for x in case["slices"]:
        with sut("slicing"):
            views.append(s[slice(*x)])
        models.append(sub(sm, slice(*x)))
    want = [m.dense() for m in models]
    tols = [4e-6 * m.scale() + 1e-37 for m in models]
    rng = np.random.RandomState(case["seed"])
    for i in range(case["n"]):
        j = rng.randint(len(views))
        d, t, n = want[j], tols[j], len(want[j])
        if not n:
            continue
        at = int(rng.randint(-n, n))
        how = rng.randint(5)
        key = (at, np.int64(at), [at, at // 2], np.array([[at, 0], [at // 3, -1]]), at)[how]
        what = f"read {i}: {'storage' if not j else 'slice ' + str(case['slices'][j - 1])}[{key}]"
        with sut(what):
            if how < 4:
                got = views[j][key]
            else:
                got = views[j].embedding(key, out=np.full(d.shape[1], 3, dtype=np.float32))
        O.close(got, d[key], t[key], what)
        got[...] = 77                       # the caller's array
    O.storage_equals(s, sm, "storage afterwards")
    return case["n"] >= 20


SUBS = [Sub("many", many_strategy, many_check, "up to 4200 reads of one storage and its slices; "
            "non-trivial: at least 20.", 160),
        Sub("storage", strategy, check, "non-trivial: two rows left after slicing.", 4000),
        Sub("reconstruct", pq_strategy, pq_check, "non-trivial: not an empty batch.", 4000),
        Sub("large", large, check, "as storage, with hundreds of rows and up to 64 "
            "quantizers.", 96),
        Sub("wide", wide, check, "as storage, with hundreds to 70000 columns.", 64),
        Sub("tall", tall, tall_check, "2000 to 131073 rows; all non-trivial.", 48),
        Sub("parts", parts_strategy, parts_check, "non-trivial: some part is wrong.", 2000)]
