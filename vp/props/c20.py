"""C20: requests that cannot be satisfied are refused, never answered."""
import warnings

import array_api_strict as xp
import dcor
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..api import COMPILE, METHOD_ENUM, expect
from ..core import Leg, Violation

ID = "C20"
RULE = (
    "Invalid requests: samples of different sizes (or columns, for "
    "distances) in every function and method, arrays of more than two "
    "dimensions, rowwise sequences of different lengths, fast algorithms for "
    "multivariate data, other exponents or other array libraries, compilation "
    "modes that an algorithm does not have, optimized rowwise computations "
    "that do not exist, unknown names, exponents outside (0, 2); each is "
    "paired with the valid request nearest to it. Oracle: an exception for the "
    "invalid one (a warning for exponents), and neither for the valid one. "
    "Non-trivial: every case."
)

DEP = ("distance_covariance_sqr", "distance_covariance", "u_distance_covariance_sqr",
       "distance_correlation_sqr", "distance_correlation", "u_distance_correlation_sqr",
       "distance_stats_sqr", "distance_stats", "u_distance_stats_sqr")
AFI = ("distance_correlation_af_inv", "distance_correlation_af_inv_sqr")
FAST = ("avl", "mergesort")


def refused(f, *args, kinds=(Exception,), what="", **kw):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = f(*args, **kw)
    except Exception as exc:  # noqa: BLE001
        if not isinstance(exc, kinds):
            raise Violation(f"{what}: {type(exc).__name__} instead of "
                            f"{'/'.join(k.__name__ for k in kinds)}: {exc}") from exc
        return
    raise Violation(f"{what}: answered with {res!r} instead of being refused")


def accepted(f, *args, what="", **kw):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return f(*args, **kw)
    except Exception as exc:  # noqa: BLE001
        raise Violation(f"{what}: refused with {type(exc).__name__}: {exc}") from exc


def _shape(n, d):
    return (n, d) if d else (n,)


OTHERS = {
    "energy_distance": lambda x, y: dcor.energy_distance(x, y),
    "energy_test": lambda x, y: dcor.homogeneity.energy_test(x, y),
    "energy_test_statistic": lambda x, y: dcor.homogeneity.energy_test_statistic(x, y),
    "pairwise_distances": lambda x, y: dcor.distances.pairwise_distances(x, y),
    "dcov_test": lambda x, y: dcor.independence.distance_covariance_test(x, y),
    "t_test": lambda x, y: dcor.independence.distance_correlation_t_test(x, y),
    "partial_distance_covariance":
        lambda x, y: dcor.partial_distance_covariance(x, y, np.arange(len(x)) * 1.),
    "partial_distance_correlation":
        lambda x, y: dcor.partial_distance_correlation(np.arange(len(x)) * 1., x, y),
    "pdcov_test": lambda x, y: dcor.independence.partial_distance_covariance_test(
        x, np.arange(len(x)) * 1., y),
}


# ---- sizes --------------------------------------------------------------

@st.composite
def size_cases(draw):
    nx = draw(gen.sizes(1, 40))
    ny = draw(st.one_of(gen.sizes(1, 40), st.sampled_from([nx + 1, max(1, nx - 1), 2 * nx, 1])))
    if nx == ny:
        ny = nx + draw(st.integers(1, 5))
    fun = draw(st.sampled_from(DEP + DEP + AFI + (
        "partial_distance_covariance", "partial_distance_correlation", "pdcov_test",
        "dcov_test", "t_test", "t_statistic", "rowwise", "energy_columns",
        "pairwise_columns", "energy_test_columns", "statistic_columns", "products",
        "rowwise_pairs", "rowwise_pairs", "dimensions", "dimensions")))
    case = {"fun": fun, "nx": nx, "ny": ny, "s": draw(gen.SEED),
            "dx": draw(st.integers(0, 3)), "dy": draw(st.integers(0, 3))}
    if fun in DEP + AFI:
        case["m"] = draw(st.sampled_from(["auto", "naive", "avl", "mergesort"]))
        if case["m"] in FAST:
            case["dx"], case["dy"] = draw(st.integers(0, 1)), draw(st.integers(0, 1))
            case["c"] = draw(st.sampled_from(["AUTO", "NO_COMPILE", "COMPILE_CPU"]))
    if fun in ("partial_distance_covariance", "partial_distance_correlation", "pdcov_test"):
        case["odd"] = draw(st.integers(0, 2))
    if fun == "rowwise":
        case["mode"] = draw(st.sampled_from(["AUTO", "NAIVE", "OPTIMIZED"]))
        case["dx"] = case["dy"] = draw(st.integers(0, 1))
    if fun == "rowwise_pairs":
        case["mode"] = draw(st.sampled_from(["AUTO", "NAIVE", "OPTIMIZED"]))
        case["dx"] = case["dy"] = draw(st.sampled_from([0, 0, 1, 2]))
        case["ny"] = nx
        case["f"] = draw(st.sampled_from(DEP[:6] + ("energy_distance",)))
        case["k"] = draw(st.tuples(st.integers(1, 5), st.integers(1, 5)).map(
            lambda t: t if t[0] != t[1] else (t[0], t[1] + 1)))
        case["box"] = draw(st.sampled_from(["array", "list", "tuple"]))
        case["nx"] = case["ny"] = max(nx, 4)
    if fun == "dimensions":
        case["ny"] = nx
        case["f"] = draw(st.sampled_from(DEP + AFI + tuple(OTHERS)))
        if case["f"] in DEP + AFI:
            case["m"] = draw(st.sampled_from(["auto", "naive", "avl", "mergesort"]))
        case["t"] = draw(st.lists(st.integers(1, 3), min_size=2, max_size=3))
        case["both"] = draw(st.sampled_from(["x", "y", "both"]))
    if fun == "products":
        case["nx"], case["ny"] = max(nx, 2), max(ny, 2)
        if case["nx"] == case["ny"]:
            case["ny"] += 1
    return case


def check_sizes(case):
    rng = np.random.RandomState(case["s"])
    fun, nx, ny = case["fun"], case["nx"], case["ny"]
    x = rng.normal(size=_shape(nx, case["dx"]))
    y = rng.normal(size=_shape(ny, case["dy"]))
    what = f"{fun} of {x.shape} and {y.shape} data"
    ind = dcor.independence
    if fun in DEP + AFI:
        kw = {"method": case["m"]}
        if "c" in case:
            kw["compile_mode"] = COMPILE[case["c"]]
        refused(getattr(dcor, fun), x, y, what=f"{what} {kw}", **kw)
        return [fun, case["m"]]
    if fun in ("partial_distance_covariance", "partial_distance_correlation", "pdcov_test"):
        f = ind.partial_distance_covariance_test if fun == "pdcov_test" else getattr(dcor, fun)
        args = [rng.normal(size=x.shape) for _ in range(3)]
        args[case["odd"]] = y
        refused(f, *args, what=f"{fun} of {[a.shape for a in args]} data")
    elif fun == "dcov_test":
        refused(ind.distance_covariance_test, x, y, num_resamples=2, what=what)
    elif fun in ("t_test", "t_statistic"):
        refused(getattr(ind, "distance_correlation_" + fun), x, y, what=what)
    elif fun == "rowwise":
        refused(dcor.rowwise, dcor.distance_covariance_sqr, [x], [y],
                rowwise_mode=dcor.RowwiseMode[case["mode"]], what=what)
    elif fun == "rowwise_pairs":
        kx, ky = case["k"]
        xs = rng.normal(size=(kx,) + x.shape)
        ys = rng.normal(size=(ky,) + y.shape)
        box = {"array": lambda a: a, "list": list, "tuple": tuple}[case["box"]]
        kw = {"rowwise_mode": dcor.RowwiseMode[case["mode"]]}
        what = f"rowwise {case['f']} of {kx} and {ky} samples {x.shape}, {kw}"
        refused(dcor.rowwise, getattr(dcor, case["f"]), box(xs), box(ys), what=what, **kw)
        if case["mode"] != "OPTIMIZED":
            k = min(kx, ky)
            accepted(dcor.rowwise, getattr(dcor, case["f"]), box(xs[:k]), box(ys[:k]),
                     what=what + " (made equal)", **kw)
        return [fun, case["mode"]]
    elif fun == "dimensions":
        three = (nx, *case["t"])
        x, y = (rng.normal(size=three if case["both"] in (v, "both") else a.shape)
                for v, a in (("x", x), ("y", y)))
        kw = {"method": case["m"]} if "m" in case else {}
        f = OTHERS.get(case["f"]) or getattr(dcor, case["f"])
        refused(f, x, y, what=f"{case['f']} of {x.shape} and {y.shape} data {kw}", **kw)
        return [fun, case["f"]]
    elif fun == "products":
        a, b = rng.normal(size=(nx, nx)), rng.normal(size=(ny, ny))
        refused(dcor.mean_product, a, b, what="mean_product of matrices of different sizes")
        refused(dcor.u_product, a, b, what="u_product of matrices of different sizes")
    else:
        # same or different sizes, but different numbers of columns
        x = rng.normal(size=(nx, 1 + case["dx"]))
        y = rng.normal(size=(ny, 2 + case["dx"] + case["dy"]))
        if case["s"] % 3 == 0:
            # the same numbers in another shape
            y = rng.normal(size=(nx, 2 * x.shape[1]))
            x = y.reshape(2 * nx, x.shape[1])
            x = x if case["s"] % 2 else x.copy()
        f = {"energy_columns": dcor.energy_distance,
             "pairwise_columns": dcor.distances.pairwise_distances,
             "energy_test_columns": dcor.homogeneity.energy_test,
             "statistic_columns": dcor.homogeneity.energy_test_statistic}[fun]
        refused(f, x, y, what=f"{fun} of {x.shape} and {y.shape} data")
        refused(f, y, x, what=f"{fun} of {y.shape} and {x.shape} data")
    return [fun]


# ---- options ------------------------------------------------------------

@st.composite
def option_cases(draw):
    kind = draw(st.sampled_from([
        "compile", "compile", "exponent", "multivariate", "library", "method-name",
        "statistic-name", "rowwise-none", "rowwise-options", "rowwise-compile"]))
    case = {"kind": kind, "n": draw(st.integers(4, 30)), "s": draw(gen.SEED),
            "fun": draw(st.sampled_from(DEP))}
    enum = draw(st.booleans())
    if kind == "compile":
        case["d"] = draw(st.sampled_from([0, 0, 1, 2]))
        case["fun"] = draw(st.sampled_from(DEP + AFI))
        if case["d"] != 2 and draw(st.integers(0, 2)) == 0 and case["fun"] in DEP:
            case["e"] = draw(gen.exponents(one=False))
    elif kind in ("exponent", "multivariate", "library"):
        case["m"] = draw(st.sampled_from(FAST))
        case["e"] = draw(gen.exponents(one=False))
        case["d"] = draw(st.sampled_from([(2, 2), (2, 0), (0, 2), (1, 3), (3, 1)]))
        case["c"] = draw(st.sampled_from([None, "NO_COMPILE", "COMPILE_CPU"]))
    elif kind in ("method-name", "statistic-name"):
        case["name"] = draw(st.one_of(
            st.sampled_from(["", "fast", "avl2", "naive ", "merge", "u statistic", "x",
                             "statistic", "ustatistic", "average", "none", "0"]),
            st.tuples(st.sampled_from(["u", "V", "u_statistic", "V_STATISTIC", "avl", "AUTO",
                                       "naive", "MergeSort"]),
                      st.sampled_from([" ", "_", "\n", "-", "s", ".", "1"]),
                      st.booleans()).map(lambda t: t[0] + t[1] if t[2] else t[1] + t[0]),
            st.sampled_from(["u-statistic", "v-statistic", "uStatistic", "u statistic",
                             "merge_sort", "merge sort", "merge-sort", "vstat", "biased"]),
            st.text("abcdefuv_ ", min_size=2, max_size=9)))
    elif kind == "rowwise-none":
        case["f"] = draw(st.sampled_from(["energy_distance", "distance_stats_sqr", "lambda",
                                          "distance_correlation_af_inv", "mean_product"]))
    elif kind == "rowwise-options":
        case["fun"] = draw(st.sampled_from(DEP[:6]))
        case["o"] = draw(st.sampled_from(["naive", "mergesort", "exponent", "multivariate",
                                          "no_compile", "mixed", "valid"]))
        case["k"] = draw(st.integers(1, 4))
        case["e"] = draw(gen.exponents(one=False))
    elif kind == "rowwise-compile":
        case["fun"] = draw(st.sampled_from(DEP[:6]))
        case["o"] = draw(st.sampled_from(["naive", "exponent", "multivariate", "mergesort"]))
        case["e"] = draw(gen.exponents(one=False))
        case["k"] = draw(st.integers(1, 3))
    if enum:
        case["enum"] = 1
    return case


def _method(case, m):
    return METHOD_ENUM[m] if case.get("enum") else m


def check_options(case):
    rng = np.random.RandomState(case["s"])
    n, kind, fun = case["n"], case["kind"], case["fun"]
    f = getattr(dcor, fun)
    x, y = rng.normal(size=(2, n))
    mode = dcor.RowwiseMode
    if kind == "compile":
        d = case["d"]
        if d:
            x, y = rng.normal(size=(2, n, d))
        few = d == 2 or "e" in case  # only the naive algorithm applies
        for m in ("auto", "naive") if few else ("auto", "naive", "avl", "mergesort"):
            for c in COMPILE:
                kw = {"method": _method(case, m), "compile_mode": COMPILE[c]}
                if "e" in case:
                    kw["exponent"] = case["e"]
                ok = {"AUTO", "NO_COMPILE"}
                if m != "naive" and not few:
                    ok.add("COMPILE_CPU")
                what = f"{fun} of {x.shape} data with {kw}"
                if c not in ok:
                    refused(f, x, y, kinds=(NotImplementedError,), what=what, **kw)
                elif fun in DEP or n > 5:
                    accepted(f, x, y, what=what, **kw)
        return [kind]
    if kind in ("exponent", "multivariate", "library"):
        kw = {"method": _method(case, case["m"])}
        if case["c"]:
            kw["compile_mode"] = COMPILE[case["c"]]
        accepted(f, x, y, what=f"{fun} with {kw}", **kw)
        if kind == "exponent":
            refused(f, x, y, exponent=case["e"],
                    what=f"{fun} with {kw} and exponent {case['e']}", **kw)
        elif kind == "multivariate":
            x, y = (rng.normal(size=_shape(n, d)) for d in case["d"])
            refused(f, x, y, what=f"{fun} of {x.shape} and {y.shape} data with {kw}", **kw)
        else:
            refused(f, xp.asarray(x), xp.asarray(y),
                    what=f"{fun} of array_api_strict arrays with {kw}", **kw)
    elif kind == "method-name":
        if case["name"].upper() not in ("AUTO", "NAIVE", "AVL", "MERGESORT"):
            refused(f, x, y, method=case["name"], what=f"{fun} with method={case['name']!r}")
    elif kind == "statistic-name":
        name = case["name"]
        if name.upper() in ("U", "V") or name.upper() in ("U_STATISTIC", "V_STATISTIC") \
                or name.upper() in dcor.EstimationStatistic.__members__:
            return [kind, "trivial"]
        refused(dcor.energy_distance, x, y, estimation_stat=name,
                what=f"energy_distance with estimation_stat={name!r}")
        refused(dcor.homogeneity.energy_test, x, y, estimation_stat=name,
                what=f"energy_test with estimation_stat={name!r}")
        refused(dcor.EstimationStatistic.from_string, name,
                what=f"EstimationStatistic.from_string({name!r})")
    elif kind == "rowwise-none":
        g = (lambda a, b: 1.0) if case["f"] == "lambda" else getattr(dcor, case["f"])
        what = f"optimized rowwise {case['f']}"
        refused(dcor.rowwise, g, [x], [y], rowwise_mode=mode.OPTIMIZED,
                kinds=(NotImplementedError,), what=what)
        accepted(dcor.rowwise, g, [x[:, None] if case["f"] == "mean_product" else x], [y],
                 rowwise_mode=mode.AUTO, what=f"rowwise {case['f']}")
    elif kind == "rowwise-options":
        o = case["o"]
        kw = {}
        shape = (case["k"], n) + ((2,) if o == "multivariate" else ())
        xs, ys = rng.normal(size=(2,) + shape)
        if o in ("naive", "mergesort"):
            kw["method"] = METHOD_ENUM[o]
        elif o == "exponent":
            kw["exponent"] = case["e"]
        elif o == "no_compile":
            kw["compile_mode"] = dcor.CompileMode.NO_COMPILE
        elif o == "mixed":
            ys = rng.normal(size=shape + (2,))
        what = f"optimized rowwise {fun} ({o})"
        if o == "valid":
            accepted(dcor.rowwise, f, xs, ys, rowwise_mode=mode.OPTIMIZED, what=what)
        else:
            refused(dcor.rowwise, f, xs, ys, rowwise_mode=mode.OPTIMIZED,
                    kinds=(NotImplementedError,), what=what, **kw)
            accepted(dcor.rowwise, f, xs, ys, what="rowwise " + o, **kw)
        return [kind, o]
    elif kind == "rowwise-compile":
        # a compilation mode that the fallback does not have
        o = case["o"]
        xs, ys = rng.normal(size=(2, case["k"], n) + ((2,) if o == "multivariate" else ()))
        kw = {"compile_mode": dcor.CompileMode.COMPILE_PARALLEL}
        if o in ("naive", "mergesort"):
            kw["method"] = METHOD_ENUM[o]
        elif o == "exponent":
            kw["exponent"] = case["e"]
        refused(dcor.rowwise, f, xs, ys, kinds=(NotImplementedError,),
                what=f"parallel rowwise {fun} ({o})", **kw)
        return [kind, o]
    return [kind]


# ---- exponents ----------------------------------------------------------

@st.composite
def exponent_cases(draw):
    e = draw(st.one_of(
        st.sampled_from([0, 2, 2.0, 0.0, -1, 3, 2.5, -0.5, 2.000001, 10]),
        st.floats(2, 6), st.floats(-3, 0),
        gen.exponents(), st.sampled_from([1, 1.0, 1e-3, 1.9999999])))
    return {"e": e, "n": draw(st.integers(4, 12)), "s": draw(gen.SEED),
            "d": draw(st.sampled_from([0, 1, 2])),
            "fun": draw(st.sampled_from(DEP + ("energy_distance", "energy_test",
                                               "energy_test_statistic", "dcov_test",
                                               "pdcov_test", "rowwise")))}


def check_exponents(case):
    rng = np.random.RandomState(case["s"])
    n, e, fun = case["n"], case["e"], case["fun"]
    x, y, z = rng.normal(size=(3,) + _shape(n, case["d"]))
    args = (x, y)
    kw = {}
    if fun in DEP or fun == "energy_distance":
        f = getattr(dcor, fun)
    elif fun == "rowwise":
        f, args = dcor.rowwise, (dcor.distance_covariance, [x], [y])
    elif fun == "energy_test":
        f = dcor.homogeneity.energy_test
    elif fun == "energy_test_statistic":
        f = dcor.homogeneity.energy_test_statistic
    elif fun == "dcov_test":
        f = dcor.independence.distance_covariance_test
    else:
        f, args = dcor.independence.partial_distance_covariance_test, (x, y, z)
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        try:
            with np.errstate(all="ignore"):
                f(*args, exponent=e, **kw)
            raised = None
        except Exception as exc:  # noqa: BLE001
            raised = exc
    warned = [w for w in log if issubclass(w.category, UserWarning)]
    what = f"{fun} with exponent {e!r}"
    if 0 < e < 2:
        expect(raised is None, f"{what}: refused with {raised!r}")
        expect(not warned, f"{what}: warned: {[str(w.message) for w in warned]}")
        return ["inside"]
    expect(raised is not None or warned, f"{what}: accepted without a warning")
    return ["outside", "boundary" if e in (0, 2) else "far"]


LEGS = [
    Leg("sizes", size_cases, check_sizes, quick=3500, thorough=60000),
    Leg("options", option_cases, check_options, quick=3000, thorough=60000),
    Leg("exponents", exponent_cases, check_exponents, quick=1500, thorough=30000),
]
