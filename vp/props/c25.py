"""C25: sequences that are not arrays, and the old interface of results."""
import array
import collections
import warnings

import dcor
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..api import call, expect
from ..core import Leg

ID = "C25"
RULE = (
    "Samples given as nested lists, tuples, lists of arrays, ranges, "
    "array.array, deques or user-defined sequences (floats, integers, "
    "booleans), all of them or mixed with arrays, in every function that takes them: "
    "energy distance, test and statistic, pairwise distances, affinely "
    "invariant correlation, partial measures, permutation tests. "
    "Oracle: the same call with arrays, the arguments unchanged, and a "
    "DeprecationWarning unless every sample is an array; the result of a test "
    "unpacks, has length 2 and a p_value, with warnings. Non-trivial: some "
    "sample is not an array."
)

IND = dcor.independence
HOM = dcor.homogeneity
# name -> (number of samples, function, options)
FUNS = {
    "energy_distance": (2, dcor.energy_distance, ("e", "stat", "avg")),
    "energy_test_statistic": (2, HOM.energy_test_statistic, ("e", "stat", "avg")),
    "energy_test": (0, HOM.energy_test, ("e", "stat", "r")),
    "pairwise_distances": (2, dcor.distances.pairwise_distances, ("e",)),
    "pairwise_distances_1": (1, dcor.distances.pairwise_distances, ("e",)),
    "distance_correlation_af_inv": (2, dcor.distance_correlation_af_inv, ("m",)),
    "distance_correlation_af_inv_sqr": (2, dcor.distance_correlation_af_inv_sqr, ("m",)),
    "partial_distance_covariance": (3, dcor.partial_distance_covariance, ()),
    "partial_distance_correlation": (3, dcor.partial_distance_correlation, ()),
    "distance_covariance_test": (2, IND.distance_covariance_test, ("e", "r")),
    "partial_distance_covariance_test":
        (3, IND.partial_distance_covariance_test, ("e", "r")),
}
SAME_COLUMNS = ("energy_distance", "energy_test_statistic", "energy_test",
                "pairwise_distances")
ONE = ("list", "tuple", "deque", "array.array", "range", "scalars", "user")
TWO = ("list", "tuple", "list-tuple", "rows", "tuple-rows", "user")
NUMBERS = ("float", "int", "bool")


class Seq(collections.abc.Sequence):
    """A sequence of the user."""

    def __init__(self, values):
        self.values = values

    def __len__(self):
        return len(self.values)

    def __getitem__(self, i):
        return self.values[i]


def box(a, kind):
    """The array a as a sequence of the given kind."""
    if kind == "array":
        return a
    if a.ndim == 1:
        v = a.tolist()
        if kind == "tuple":
            return tuple(v)
        if kind == "deque":
            return collections.deque(v)
        if kind == "array.array" and a.dtype.kind != "b":
            return array.array("d" if a.dtype.kind == "f" else "q", v)
        if kind == "range":
            return range(len(v))
        if kind == "scalars":
            return list(a)
        if kind == "user":
            return Seq(v)
        return v
    v = a.tolist()
    if kind == "tuple":
        return tuple(map(tuple, v))
    if kind == "list-tuple":
        return list(map(tuple, v))
    if kind == "rows":
        return list(a)
    if kind == "tuple-rows":
        return tuple(a)
    if kind == "user":
        return Seq([Seq(r) for r in v])
    return v


@st.composite
def samples(draw, n, d):
    kind = draw(st.sampled_from(("array",) + ((ONE if d == 0 else TWO) * 2)))
    return {"n": n, "d": d, "s": draw(gen.SEED), "box": kind,
            "num": draw(st.sampled_from(NUMBERS)),
            "f": draw(st.sampled_from(("normal", "int", "wideint", "uniform", "atoms",
                                       "bin", "cauchy")))}


@st.composite
def cases(draw, hi=25):
    fun = draw(st.sampled_from(list(FUNS)))
    k, _, opts = FUNS[fun]
    k = k or draw(st.integers(2, 4))
    n = draw(st.integers(5, hi))
    d = draw(st.integers(0, 3))
    xs = []
    for _ in range(k):
        m = n
        if fun in SAME_COLUMNS:
            m = draw(st.integers(2, hi))
        else:
            d = draw(st.integers(0, 3))
        xs.append(draw(samples(m, d)))
    case = {"fun": fun, "x": xs}
    if "e" in opts and draw(st.booleans()):
        case["e"] = draw(gen.exponents())
    if "stat" in opts and draw(st.booleans()):
        case["stat"] = draw(st.sampled_from(["U", "V", "u_statistic", "V_STATISTIC"]))
    if "avg" in opts and draw(st.integers(0, 3)) == 0:
        case["avg"] = 1
    if "m" in opts and draw(st.booleans()):
        case["m"] = draw(st.sampled_from(["auto", "naive"]))
    if "r" in opts and draw(st.booleans()):
        case["r"] = draw(st.integers(0, 8))
        case["seed"] = draw(gen.SEED)
    return case


def build(spec):
    a = gen.build({"n": spec["n"], "d": spec["d"], "f": spec["f"], "s": spec["s"]})
    if spec["box"] == "range" and spec["d"] == 0:
        return np.arange(spec["n"])
    if spec["num"] == "int":
        return np.round(a * 3).astype(np.int64)
    if spec["num"] == "bool":
        return a > np.median(a)
    return a


def plain(v):
    if isinstance(v, dcor.HypothesisTest):
        return [np.asarray(float(v.pvalue)), np.asarray(v.statistic)]
    return [np.asarray(v)]


def deprecated(g, what):
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        v = call(g)
    expect(any(issubclass(w.category, DeprecationWarning) for w in log),
           f"{what}: no DeprecationWarning")
    return v


def old_interface(res, what):
    """pvalue, statistic = test; test.p_value; len(test)."""
    p = deprecated(lambda: res.p_value, what + ".p_value")
    expect(p == res.pvalue, f"{what}: p_value {p!r} is not pvalue {res.pvalue!r}")
    n = deprecated(lambda: len(res), f"len({what})")
    expect(n == 2, f"{what}: length {n!r}")
    pair = deprecated(lambda: list(res), f"iter({what})")
    expect(len(pair) == 2 and pair[0] == res.pvalue and pair[1] is res.statistic,
           f"{what}: unpacks as {pair!r}, but it is {res!r}")


def run(f, args, kw):
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        with np.errstate(all="ignore"):
            res = call(f, *args, **kw)
    if isinstance(res, dcor.HypothesisTest):
        old_interface(res, f.__name__)
    return plain(res), [w for w in log if issubclass(w.category, DeprecationWarning)
                        and "array" in str(w.message)]


def same(got, want, what):
    for g, w in zip(got, want):
        expect(g.shape == w.shape, f"{what}: shape {g.shape}, with arrays {w.shape}")
        g, w = g.astype(float), w.astype(float)
        tol = 1e-9 * (1 + np.max(np.abs(w), initial=0))
        ok = (np.abs(g - w) <= tol) | (np.isnan(g) & np.isnan(w)) | (g == w)
        expect(ok.all(), f"{what}: {g!r}, with arrays {w!r}")


def check(case):
    fun = case["fun"]
    _, f, _ = FUNS[fun]
    arrays = [build(s) for s in case["x"]]
    if "af_inv" in fun:
        # booleans cannot be subtracted as arrays either
        arrays = [a.astype(int) if a.dtype.kind == "b" else a for a in arrays]
    kinds = [s["box"] for s in case["x"]]
    boxed = [box(a, b) for a, b in zip(arrays, kinds)]
    kw = {}
    if "e" in case:
        kw["exponent"] = case["e"]
    if "stat" in case:
        kw["estimation_stat"] = case["stat"]
    if "avg" in case:
        kw["average"] = np.median
    if "m" in case:
        kw["method"] = case["m"]
    if "r" in case:
        kw["num_resamples"] = case["r"]
        kw["random_state"] = case["seed"]
    before = [repr(b) if not isinstance(b, Seq) else None for b in boxed]
    want, _ = run(f, arrays, kw)
    what = f"{fun} of samples {kinds} of sizes {[a.shape for a in arrays]}, {kw}"
    got, warned = run(f, boxed, kw)
    same(got, want, what)
    after = [repr(b) if not isinstance(b, Seq) else None for b in boxed]
    expect(before == after, f"{what}: the arguments were changed")
    if any(k != "array" for k in kinds):
        expect(warned, f"{what}: no DeprecationWarning")
        mixed = "mixed" if "array" in kinds else "sequences"
        return [fun, mixed] + sorted({k for k in kinds if k != "array"})
    expect(not warned, f"{what}: warned {[str(w.message) for w in warned]}")
    return [fun, "arrays", "trivial"]


LEGS = [Leg("sequences", cases, check, quick=3000, thorough=60000)]
