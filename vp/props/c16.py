"""C16: pairwise distances."""
import array_api_strict
import dcor
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..api import arrays_close, call, expect
from ..core import Leg
from ..oracle import dist

ID = "C16"
RULE = (
    "One or two sets of points (different sizes, 1-D or columns, repeated "
    "points, offsets, scales, exponents); oracle: Euclidean distance to the "
    "exponent, element by element in long double, entry (i, j) for x[i] and "
    "y[j]. Non-trivial: at least two different points and, for two sets, "
    "different sizes or values."
)


@st.composite
def cases(draw, hi=60, wide=False, lo=1):
    d = draw(gen.wide_dims() if wide else gen.dims(10))
    case = {"x": draw(gen.sample(draw(gen.sizes(lo, hi)), d))}
    form = draw(st.sampled_from(["one", "one-none", "two", "two", "same", "copy", "subset",
                                   "retype", "shifted"]))
    case["form"] = form
    if form == "two":
        d2 = d if d > 1 else draw(st.sampled_from([0, 1]))
        case["y"] = draw(gen.sample(draw(gen.sizes(lo, hi)), d2))
    if form == "subset":
        case["s"] = draw(gen.SEED)
    e = draw(st.one_of(st.none(), gen.exponents(), st.sampled_from([2, 2.5, 3])))
    if e is not None:
        case["e"] = e
    case["layout"] = draw(st.sampled_from(["C", "C", "F", "strided", "int", "long", "strict"]))
    return case


def _lay(a, layout):
    if layout == "F":
        return np.asfortranarray(a)
    if layout == "strided":
        b = np.full((a.shape[0] * 2,) + a.shape[1:], np.nan)
        b[::2] = a
        return b[::2]
    if layout == "long":
        return a.astype(np.longdouble)
    if layout == "strict":
        return array_api_strict.asarray(a)
    if layout == "int":
        s = np.max(np.abs(a)) or 1.0
        return np.rint(a / s * 40).astype(np.int64)
    return a


def values(a):
    return a if isinstance(a, np.ndarray) else np.asarray(getattr(a, "_array", a))


def check(case):
    x = _lay(gen.build(case["x"]), case["layout"])
    kw = {}
    if "e" in case:
        kw["exponent"] = case["e"]
    e = case.get("e", 1.0)
    f = dcor.distances.pairwise_distances
    form = case["form"]
    y = x
    if form == "one":
        got = call(f, x, **kw)
    elif form == "one-none":
        got = call(f, x, None, **kw)
    elif form == "same":
        got = call(f, x, x, **kw)
    else:
        if form == "two":
            y = _lay(gen.build(case["y"]), case["layout"])
        elif form == "retype":       # the same memory as other numbers
            x = np.ascontiguousarray(values(x), dtype=float) / 2
            y = x.view(np.int64)
        elif form == "shifted":      # the same memory, other observations
            v = np.concatenate([values(x), values(x)[:1] + 1])
            x, y = v[:-1], v[1:]
        elif form == "copy":
            y = _lay(np.array(values(x)), "strict" if case["layout"] == "strict" else "C")
        else:
            rng = np.random.RandomState(case["s"])
            v = values(x)
            y = v[rng.permutation(len(v))[: 1 + rng.randint(len(v))]]
            if case["layout"] == "strict":
                y = _lay(y, "strict")
        got = call(f, x, y, **kw)
    x, y = values(x), values(y)
    want = dist(x, y, e)
    tol = 1e-12 * want + 1e-290
    arrays_close(values(got), want, tol, f"pairwise_distances [{form}]")
    g = values(got)
    expect(not np.any(g[np.asarray(want == 0)]), "equal points at a distance that is not 0")
    if form in ("one", "one-none", "same"):
        # (vectorised powers can differ in the last bit)
        expect(np.all(np.abs(g - g.T) <= 1e-14 * np.abs(g)), "the distance matrix is not symmetric")
    labels = [form, "e=1" if e == 1 else "e!=1", case["layout"]]
    if not np.any(want):
        labels.append("trivial")
    return labels


LEGS = [Leg("distances", cases, check, quick=6000, thorough=120000),
        Leg("larger", lambda: cases(hi=700), check, quick=100, thorough=2500),
        Leg("big", lambda: cases(lo=1020, hi=1300), check, quick=16, thorough=300),
        Leg("wide", lambda: cases(hi=30, wide=True), check, quick=400, thorough=10000)]
