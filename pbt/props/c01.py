"""C01: writing and re-loading finalfusion embeddings loses nothing."""
from hypothesis import strategies as st

from .. import gen, model as M, oracle as O
from ..core import Sub, require, sut

LEVEL = "exploration"
ASSUMPTIONS = ["Metadata is limited to values that toml.dumps/toml.loads preserve; where "
               "that library itself orders tables differently after re-loading, the second "
               "file is compared by content instead of byte by byte."]


@st.composite
def strategy(draw):
    case = draw(gen.emb_case(layouts=gen.LAYOUTS, pqfills=("normal", "ints", "bits", "edge"),
                             mincols=0 if gen.rarely(draw, 4) else 1, huge=True,
                             hardmeta=True))
    case["at"] = draw(gen.place())
    case["path"] = draw(st.sampled_from(["str", "bytes", "path", "fd", "rel", "like"]))
    case["pre"] = draw(st.sampled_from([None, "longer", "junk", "old"]))
    case["again"] = draw(st.sampled_from(["str", "path"]))
    return case


@st.composite
def large(draw):
    return draw(gen.large(draw(strategy())))


@st.composite
def far(draw):
    return draw(gen.far(draw(strategy())))


@st.composite
def wide(draw):
    return draw(gen.wide(draw(strategy())))


def check(case, ctx):
    import finalfusion
    em, e = gen.build(case)
    p1, p2, p3 = gen.place_path(ctx, case["at"]), ctx.path("b.fifu"), ctx.path("c.fifu")
    if case["pre"] == "longer":
        with open(p1, "wb") as f:
            f.write(b"\xAA" * 300000)
    elif case["pre"] == "junk":
        with open(p1, "wb") as f:
            f.write(b"FiFu junk")
    elif case["pre"] == "old":
        with sut("first write"):
            e.write(p1)
    with sut("write"):
        e.write(gen.place_arg(p1, case["path"], True))
    with sut("load_finalfusion"):
        r = finalfusion.load_finalfusion(gen.place_arg(p1, case["at"]["how"]))
    O.emb_equals(r, em, "re-loaded")
    if em.storage.kind == "pq" and em.storage.norms is not None:
        # the quantizer's norms are only stored; read them back independently
        with open(p1, "rb") as f:
            got = dict(M.parse_file(f.read()))[M.PQ]
        O.parsed_storage_equals(got, em.storage, "file contents")
    with sut("equality of the vocabularies"):
        require(r.vocab == e.vocab and e.vocab == r.vocab,
                "re-loaded vocabulary is not equal to the written one")
    with sut("second write"):
        r.write(gen.place_arg(p2, case["again"], True))
        e.write(p3)
    with open(p1, "rb") as f1, open(p2, "rb") as f2, open(p3, "rb") as f3:
        b1, b2, b3 = f1.read(), f2.read(), f3.read()
    stable = em.meta is None or gen.toml_stable(em.meta)
    if not stable:
        ctx.label("TOML text of the metadata is reordered by the toml library")
    require(b1 == b2 or not stable, "writing the re-loaded embeddings gives a different file")
    require(b1 == b3, "kind of path or previous file changes what is written")
    O.emb_equals(e, em, "written embeddings")
    with sut("second load"):
        r2 = finalfusion.load_finalfusion(p2)
    O.emb_equals(r2, em, "twice re-loaded")
    ctx.label(f"{em.vocab.kind}/{em.storage.kind}")
    ctx.label("norms" if em.norms is not None else "no norms")
    ctx.label("meta" if em.meta is not None else "no meta")
    if em.storage.kind == "nd":
        ctx.label("layout " + case["storage"]["layout"])
    return len(em.vocab.words) >= 2 and em.storage.shape[0] >= 2


SUBS = [Sub("roundtrip", strategy, check,
            "non-trivial: at least two words and two matrix rows.", 10000),
        Sub("large", large, check, "non-trivial: at least two words and two matrix rows.", 160),
        Sub("far", far, check, "as roundtrip, with more than 65000 words or n-grams.", 16),
        Sub("wide", wide, check, "as roundtrip, with hundreds to 70000 columns.", 80)]
