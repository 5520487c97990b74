"""Process-wide settings of the caller that answers must not depend on."""
from hypothesis import strategies as st

PRINT = st.fixed_dictionaries({}, optional=dict(
    precision=st.integers(0, 12), threshold=st.sampled_from([0, 1, 3, 10]),
    edgeitems=st.integers(0, 2), linewidth=st.sampled_from([5, 20, 1000]),
    suppress=st.booleans(), sign=st.sampled_from(["+", " ", "-"]),
    floatmode=st.sampled_from(["fixed", "unique", "maxprec", "maxprec_equal"]),
    nanstr=st.just("missing"), infstr=st.just("huge")))
ERR = st.sampled_from([{}, {"all": "ignore"}, {"all": "warn"}])


@st.composite
def settings(draw, ascii=True):
    """For core.ambient: a locale that cannot encode most words, numpy's settings."""
    return dict(ascii=ascii and draw(st.booleans()), print=draw(PRINT), err=draw(ERR))


def within(strategy, often=4):
    """The strategy, with one of `often` cases under other settings."""
    @st.composite
    def drawn(draw):
        case = draw(strategy())
        if draw(st.integers(0, often - 1)) == often - 1:
            case["env"] = draw(settings())
        return case
    return drawn
