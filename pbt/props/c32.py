"""C32: answers depend on the arguments, not on process-wide settings."""
import os

from hypothesis import strategies as st

from .. import ambient, source as S
from ..core import Ctx, Sub, load_prop, outcome, require
from .c31 import load, reload_strategy, same_as

LEVEL = "exploration"
ASSUMPTIONS = ["Settings varied: the locale's character encoding, numpy's print options and its "
               "handling of floating point warnings (raising excepted), the working directory.",
               "The lists of words that the tools read are in the locale's encoding; they are "
               "not read under a foreign one."]

# sub-checks judged against a model that does not depend on the settings
FILES = ["C01/roundtrip", "C02/foreign", "C02/written", "C03/write", "C03/read", "C04/field",
         "C05/mmap", "C15/convert", "C15/tool", "C18/write", "C18/load", "C19/write", "C19/load",
         "C20/write", "C20/load", "C21/words", "C22/convert", "C25/with", "C25/text",
         "C28/file"]
QUERIES = ["C06/lookup", "C10/lookup", "C11/lookup", "C13/word", "C13/vector", "C14/analogy",
           "C16/storage", "C17/ndarray", "C17/norms", "C30/copies"]
LINES = ["C23/select", "C24/similar", "C24/analogy"]


def find(name):
    pid, sub = name.split("/")
    return next(s for s in load_prop(pid).SUBS if s.name == sub)


def make(names, ascii):
    @st.composite
    def strategy(draw):
        name = draw(st.sampled_from(names))
        n = draw(st.sampled_from([0, 1, 2, 2]))        # directories worked in
        return dict(of=name, cases=[draw(find(name).strategy()) for _ in range(max(1, n))],
                    cwd=n, env=draw(ambient.settings(ascii)))
    return strategy


def check(case, ctx):
    """The other property's check under the settings; with directories, all files are named
    relative to each in turn, so that the same name stands for different files."""
    sub, real, found = find(case["of"]), ctx, False
    home = os.getcwd()
    try:
        for i, inner in enumerate(case["cases"]):
            if case["cwd"]:
                d = real.path(f"d{i}")
                os.mkdir(d)
                os.chdir(d)
                ctx = Ctx(".")
            found |= bool(sub.check(inner, ctx))
            os.chdir(home)
    finally:
        os.chdir(home)
    real.label(case["of"])
    return found and bool(case["cwd"] or case["env"]["ascii"] or case["env"]["print"])


@st.composite
def places_strategy(draw):
    case = draw(reload_strategy())
    case["env"] = draw(ambient.settings())
    return case


def places_check(case, ctx):
    """Files of the same name and mostly the same size in several working directories, loaded in
    turns; everything loaded stays what it was."""
    home, srcs, held = os.getcwd(), [], []
    try:
        for i, c in enumerate(case["srcs"]):
            os.mkdir(ctx.path(f"d{i}"))
            os.chdir(ctx.path(f"d{i}"))
            srcs.append(S.make(c, Ctx("."), "same"))
        for k, drop, how in case["steps"]:
            k %= len(srcs)
            os.chdir(ctx.path(f"d{k}"))
            s = srcs[k]
            kind, e = outcome(lambda: load(s, "same" if how < 4 else "./same", how % 2 == 1))
            require(kind == "ok" or 0 in s.vectors.shape, lambda: f"{s.fmt} file: {e}")
            if kind == "ok":
                same_as(e, s, f"{s.fmt} file of directory {k}")
                held.append((k, e, s))
            if drop and len(held) > 1:
                held.pop(0)
            e = None
        os.chdir(home)
        for k, e, s in held:
            same_as(e, s, f"{s.fmt} embeddings from directory {k}, afterwards")
    finally:
        os.chdir(home)
    return len({k for k, _, _ in held}) > 1


RULE = "non-trivial: some setting differs and the case is non-trivial for "
SUBS = [Sub("places", places_strategy, places_check, "relative names; non-trivial: embeddings "
            "from two directories are alive at the end.", 1500),
        Sub("files", make(FILES, True), check, RULE + "its own property.", 4000),
        Sub("queries", make(QUERIES, True), check, RULE + "its own property.", 1600),
        Sub("lines", make(LINES, False), check, RULE + "its own property.", 600)]
