"""C24: missing and infinite observations are never given a number."""
import array_api_strict as strict
import dcor
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..api import (COMPILE, call, check_corr, check_corr_root, close, close_root,
                   expect, num)
from ..core import Leg, Violation
from ..oracle import Ref
from .c04 import CONFIGS

ID = "C24"
RULE = (
    "Samples of 4 or more observations (any family, 1 to 5 columns, the fast "
    "algorithms for one) in which 1 to all values were replaced by NaN, inf or "
    "-inf, in one sample or several, given to every measure with every method "
    "and mode, to the tests, to rowwise, to the centring, product and distance "
    "functions, as NumPy or strict Array API arrays. Oracle: no result that "
    "depends on such a value is a finite number, p-values are NaN, distances "
    "follow the arithmetic of IEEE 754, and results that do not depend on it "
    "(variance of the other sample, other rows, other distances) are the usual "
    "ones. Non-trivial: some value is finite."
)
ASSUMPTIONS = [
    "The affinely invariant correlations are left out: they answer 0 by design "
    "when they cannot be computed.",
]
BAD = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}


def bad_values(which):
    one = st.tuples(st.sampled_from(which), st.integers(0, 10 ** 6),
                    st.sampled_from(["nan", "nan", "inf", "-inf"]))
    return st.one_of(st.lists(one, min_size=1, max_size=1),
                     st.lists(one, min_size=1, max_size=4)).map(
        lambda v: [list(t) for t in v])


def spoil(arrays, bad):
    """Put the bad values in copies of the arrays (a dict)."""
    out = {k: np.array(v, dtype=float) for k, v in arrays.items()}
    for k, pos, kind in bad:
        out[k].reshape(-1)[pos % out[k].size] = BAD[kind]
    return out


def is_bad(a):
    return not np.all(np.isfinite(a))


def unknown(v, what):
    g = num(v, what)
    expect(not np.isfinite(g), f"{what}: got {float(g)!r} from missing or infinite values")


# ---- dependence measures -------------------------------------------------

@st.composite
def dep_cases(draw, lo=4, hi=60, univariate=None):
    case = draw(gen.pair(lo=lo, hi=hi, univariate=univariate, explicit=hi < 100))
    case["bad"] = draw(bad_values(["x", "x", "y"]))
    if draw(st.integers(0, 9)) == 0:      # a sample without any valid value
        case["all"] = draw(st.sampled_from(["nan", "inf", "-inf"]))
    case["conf"] = draw(st.lists(st.sampled_from(CONFIGS), min_size=1, max_size=3, unique=True))
    e = draw(st.one_of(st.none(), st.none(), gen.exponents()))
    if e is not None:
        case["e"] = e
    case["lib"] = draw(st.sampled_from(["numpy", "numpy", "numpy", "strict"]))
    case["t"] = draw(st.sampled_from(["f8", "f8", "f4"]))
    return case


def check_dep(case):
    x, y = gen.build_pair(case)
    s = spoil({"x": x, "y": y}, case["bad"])
    x, y = s["x"], s["y"]
    if "all" in case:
        x[...] = BAD[case["all"]]
    t = case["t"]
    for a in (x, y):
        f = a[np.isfinite(a)]
        if t == "f4" and f.size and not (np.all(f == 0) or 1e-9 < np.abs(f).max() < 1e9):
            t = "f8"
    e = case.get("e", 1.0)
    one = max(x[0].size, y[0].size) == 1
    if case["lib"] == "strict":
        dt = strict.float64 if t == "f8" else strict.float32
        X, Y = (strict.asarray(a.astype(t), dtype=dt) for a in (x, y))
        confs = [("auto", "AUTO")]
    else:
        X, Y = x.astype(t), y.astype(t)
        confs = [c for c in case["conf"] if one and e == 1.0] or [("auto", "AUTO"),
                                                                  ("naive", "AUTO")]
    both = is_bad(x) and is_bad(y)
    clean = None if both or t == "f4" else (y if is_bad(x) else x)
    for m, c in confs:
        kw = dict(method=m, compile_mode=COMPILE[c], exponent=e)
        tag = f" [{m}/{c}]"
        for f in ("distance_covariance_sqr", "distance_covariance",
                  "u_distance_covariance_sqr", "distance_correlation_sqr",
                  "distance_correlation", "u_distance_correlation_sqr"):
            unknown(call(getattr(dcor, f), X, Y, **kw), f + tag)
        for f, u in (("distance_stats_sqr", False), ("distance_stats", False),
                     ("u_distance_stats_sqr", True)):
            r = call(getattr(dcor, f), X, Y, **kw)
            unknown(r.covariance_xy, f + ".covariance_xy" + tag)
            unknown(r.correlation_xy, f + ".correlation_xy" + tag)
            for a, v, nm in ((x, r.variance_x, ".variance_x"), (y, r.variance_y, ".variance_y")):
                if is_bad(a):
                    unknown(v, f + nm + tag)
            if clean is not None:
                ref = Ref(clean, clean, e, unbiased=u)
                v = r.variance_y if clean is y else r.variance_x
                (close_root if f == "distance_stats" else close)(
                    v, ref.vx, ref.tvx, f + ": variance of the complete sample" + tag)
    labels = [case["lib"], "one column" if one else "several columns"]
    if "all" in case:
        labels.append("no valid value")
    if not (np.isfinite(x).any() and np.isfinite(y).any()):
        labels.append("trivial")
    return labels


# ---- tests and other functions -------------------------------------------

@st.composite
def test_cases(draw, lo=4, hi=30):
    n = draw(gen.sizes(lo, hi))
    case = {"n": n, "m": draw(gen.sizes(2, hi)), "s": draw(gen.SEED),
            "d": draw(st.sampled_from([0, 1, 2, 3])),
            "f": draw(st.sampled_from(gen.FAMILIES)),
            "bad": draw(bad_values(["x", "y", "z"])),
            "r": draw(st.sampled_from([0, 1, 7, 20])),
            "stat": draw(st.sampled_from(["u", "v"]))}
    e = draw(st.one_of(st.none(), gen.exponents()))
    if e is not None:
        case["e"] = e
    case["lib"] = draw(st.sampled_from(["numpy", "numpy", "strict"]))
    return case


def check_tests(case):
    n, d, e = case["n"], case["d"], case.get("e", 1.0)
    three = {k: gen.build({"n": n, "d": d, "f": case["f"], "s": case["s"] + i})
             for i, k in enumerate("xyz")}
    s = spoil(three, case["bad"])
    t = dict(s)
    t["y"] = gen.build({"n": case["m"], "d": d, "f": case["f"], "s": case["s"] + 7})
    t["y"] = spoil({"y": t["y"]}, [b for b in case["bad"] if b[0] == "y"])["y"]
    lib = (lambda a: a) if case["lib"] == "numpy" else strict.asarray
    kw = dict(num_resamples=case["r"], random_state=case["s"], exponent=e)
    ind, hom = dcor.independence, dcor.homogeneity
    done = 0

    def test(f, *a, **k):
        r = call(f, *map(lib, a), **k)
        unknown(r.statistic, f"{f.__name__}: statistic")
        p = num(r.pvalue, "p-value")
        expect(np.isnan(p), f"{f.__name__}: p-value {float(p)!r} from missing or infinite values")

    if is_bad(s["x"]) or is_bad(s["y"]):
        done += 1
        test(ind.distance_covariance_test, s["x"], s["y"], **kw)
        if case["lib"] == "numpy":
            test(ind.distance_correlation_t_test, s["x"], s["y"])
            unknown(call(ind.distance_correlation_t_statistic, s["x"], s["y"]), "t statistic")
    if case["lib"] == "numpy":
        done += 1
        test(ind.partial_distance_covariance_test, s["x"], s["y"], s["z"], **kw)
        if e == 1.0:
            for f in (dcor.partial_distance_covariance, dcor.partial_distance_correlation):
                unknown(call(f, s["x"], s["y"], s["z"]), f.__name__)
    st_ = case["stat"]
    if is_bad(t["x"]) or is_bad(t["y"]):
        done += 1
        unknown(call(dcor.energy_distance, lib(t["x"]), lib(t["y"]), exponent=e,
                     estimation_stat=st_), "energy_distance")
        unknown(call(hom.energy_test_statistic, lib(t["x"]), lib(t["y"]), exponent=e,
                     estimation_stat=st_), "energy_test_statistic")
        test(hom.energy_test, t["x"], t["y"], estimation_stat=st_, **kw)
    test(hom.energy_test, t["x"], t["y"], t["z"], estimation_stat=st_, **kw)
    return [case["lib"]] if done else [case["lib"], "trivial"]


# ---- distances, centring, products ---------------------------------------

@st.composite
def matrix_cases(draw, lo=4, hi=25):
    n = draw(gen.sizes(lo, hi))
    return {"n": n, "m": draw(gen.sizes(1, hi)), "d": draw(st.sampled_from([0, 1, 2, 5])),
            "s": draw(gen.SEED), "e": draw(gen.exponents()),
            "f": draw(st.sampled_from(gen.FAMILIES)),
            "bad": draw(bad_values(["x", "y"])),
            "lib": draw(st.sampled_from(["numpy", "numpy", "strict"]))}


def _ieee(x, y, e):
    x, y = (a.reshape(len(a), -1).astype(np.longdouble) for a in (x, y))
    with np.errstate(all="ignore"):
        sq = ((x[:, None, :] - y[None, :, :]) ** 2).sum(-1)
        return np.sqrt(sq) ** np.longdouble(e)


def check_matrix(case):
    d, e = case["d"], case["e"]
    raw = {k: gen.build({"n": case[m], "d": d, "f": case["f"], "s": case["s"] + i})
           for i, (k, m) in enumerate((("x", "n"), ("y", "m")))}
    s = spoil(raw, case["bad"])
    x, y = s["x"], s["y"]
    lib = np.asarray if case["lib"] == "numpy" else strict.asarray
    for args in ((x, y), (x,), (y, x)):
        got = np.asarray(call(dcor.distances.pairwise_distances, *map(lib, args), exponent=e))
        want = _ieee(args[0], args[-1], e)
        expect(got.shape == want.shape, f"shape {got.shape} of the distances")
        if len(args) == 1:  # whether x - x is computed or known to be 0 is left open
            got, want = got.copy(), want.copy()
            np.fill_diagonal(got, 0)
            np.fill_diagonal(want, 0)
        size = max([1e-300] + [float(np.abs(a[np.isfinite(a)]).max()) for a in args
                               if np.isfinite(a).any()])
        for kind in (np.isnan, np.isposinf):
            wrong = np.argwhere(kind(got) != kind(want))
            if len(wrong):
                k = tuple(wrong[0])
                raise Violation(f"pairwise_distances: element {k} is {float(got[k])!r}, "
                                f"expected {float(want[k])!r}")
        ok = np.isfinite(want)
        tol = 1e-12 * np.abs(want[ok]) + (1e-14 * size) ** max(e, 0.3)
        expect(np.all(np.abs(got[ok] - want[ok]) <= tol), "a distance between complete "
               "observations changed")
    # symmetric matrices
    a = np.abs(np.random.RandomState(case["s"]).normal(size=(case["n"],) * 2))
    a = a + a.T
    np.fill_diagonal(a, 0)
    b = a[::-1, ::-1].copy()
    i, j = case["bad"][0][1] % case["n"], (case["bad"][0][1] // 7) % case["n"]
    a[i, j] = a[j, i] = BAD[case["bad"][0][2]]
    off = ~np.eye(case["n"], dtype=bool)
    for f in (dcor.double_centered, dcor.u_centered):
        r = np.asarray(call(f, lib(a)))
        expect(not np.isfinite(r[off]).any(), f"{f.__name__}: finite elements from a matrix "
                                              "with a missing or infinite value")
    if not (case["bad"][0][2] != "nan" and b[i, j] == 0):
        unknown(call(dcor.mean_product, lib(a), lib(b)), "mean_product")
        unknown(call(dcor.u_product, lib(b), lib(a)), "u_product")
    return [case["lib"]]


# ---- rowwise --------------------------------------------------------------

ROW = ("distance_covariance_sqr", "distance_covariance", "u_distance_covariance_sqr",
       "distance_correlation_sqr", "distance_correlation", "u_distance_correlation_sqr")


@st.composite
def row_cases(draw):
    k = draw(st.integers(1, 12))
    return {"k": k, "n": draw(gen.sizes(4, 40)), "s": draw(gen.SEED),
            "f": draw(st.sampled_from(gen.FAMILIES)),
            "bad": draw(bad_values(["x", "y"])), "fun": draw(st.sampled_from(ROW)),
            "mode": draw(st.sampled_from(["AUTO", "OPTIMIZED", "NAIVE"]))}


def check_rows(case):
    raw = {k: np.stack([gen.build({"n": case["n"], "d": 0, "f": case["f"],
                                   "s": case["s"] + 2 * r + i}) for r in range(case["k"])])
           for i, k in enumerate("xy")}
    s = spoil(raw, case["bad"])
    f = getattr(dcor, case["fun"])
    got = np.asarray(call(dcor.rowwise, f, s["x"], s["y"],
                          rowwise_mode=dcor.RowwiseMode[case["mode"]]))
    expect(got.shape == (case["k"],), f"shape {got.shape}")
    clean = 0
    for r in range(case["k"]):
        x, y = s["x"][r], s["y"][r]
        if is_bad(x) or is_bad(y):
            unknown(got[r], f"rowwise {case['fun']}, row {r}")
        else:
            clean += 1
            ref = Ref(x, y, unbiased=case["fun"].startswith("u_"))
            what = f"rowwise {case['fun']}, complete row {r}"
            if case["fun"].endswith("covariance_sqr"):
                close(got[r], ref.cov, ref.tcov, what)
            elif case["fun"].endswith("covariance"):
                close_root(got[r], ref.cov, ref.tcov, what)
            elif case["fun"].endswith("correlation_sqr"):
                check_corr(got[r], ref, what)
            else:
                check_corr_root(got[r], ref, what)
    return [case["mode"]] + ([] if clean else ["no complete row"])


LEGS = [
    Leg("measures", dep_cases, check_dep, quick=1600, thorough=60000),
    Leg("measures-fast", lambda: dep_cases(univariate=True), check_dep, quick=1000,
        thorough=40000),
    Leg("measures-larger", lambda: dep_cases(lo=200, hi=1200, univariate=True), check_dep,
        quick=40, thorough=1600),
    Leg("tests", test_cases, check_tests, quick=700, thorough=30000),
    Leg("matrices", matrix_cases, check_matrix, quick=1600, thorough=60000),
    Leg("rowwise", row_cases, check_rows, quick=800, thorough=30000),
]
