"""C19: arrays of other Array API libraries give the same results."""
import array_api_strict as xp
import dcor
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..api import (arrays_close, call, check_corr, check_corr_root, close, close_root,
                   expect, num)
from ..core import Leg
from ..oracle import Ref, dcenter, dist, energy, ucenter, uprod
from ..perm import InjectRandomState, Problem, data

ID = "C19"
RULE = (
    "Samples and matrices given as double or single precision arrays of a "
    "strict Array API library (array_api_strict rejects everything that is "
    "not in the standard), for every function that accepts them; oracle: the "
    "definition in long double, and results that are arrays of the same "
    "library; p-values of the permutation tests from injected permutations. "
    "Non-trivial: no constant sample."
)
XArray = type(xp.asarray([1.0]))
DTYPES = {"f8": xp.float64, "f4": xp.float32}


def arr(a, t="f8"):
    return xp.asarray(np.asarray(a, dtype=t).copy(), dtype=DTYPES[t])


def own(v, what):
    expect(isinstance(v, XArray), f"{what}: the result is a {type(v).__name__}, not an "
                                  "array of the library of the arguments")
    return np.asarray(v)


@st.composite
def dep_cases(draw, lo=1, hi=40):
    case = draw(gen.pair(lo=lo, hi=hi, maxd=4, scales=draw(st.booleans())))
    case["t"] = draw(st.sampled_from(["f8", "f8", "f4"]))
    e = draw(st.one_of(st.none(), gen.exponents()))
    if e is not None:
        case["e"] = e
    case["m"] = draw(st.sampled_from([None, "auto", "naive"]))
    return case


def _scale_ok(e, *arrays):
    """The products of distances fit in single precision."""
    for a in arrays:
        if not np.all(np.isfinite(a)) or np.any(a) and not 1e-9 < np.max(np.abs(a)) < 1e9:
            return False
        m = float(np.max(dist(a.astype("f4"), e=e)))
        if m and not 1e-12 < m < 1e14:
            return False
    return True


def check_dep(case):
    x, y = gen.build_pair(case)
    t = case["t"]
    e = case.get("e", 1.0)
    if t == "f4":
        if not _scale_ok(e, x, y):
            return ["trivial", "out of range"]
        x, y = x.astype("f4"), y.astype("f4")
    kw = {}
    if "e" in case:
        kw["exponent"] = e
    if case["m"]:
        kw["method"] = case["m"]
    ax, ay = arr(x, t), arr(y, t)
    s = 1.0 if t == "f8" else 1e8
    n = x.shape[0]
    labels = [t]
    for unb in (False, True) if n > 3 else (False,):
        p = "u_" if unb else ""
        r = Ref(x, y, e, unbiased=unb, tolx=s)
        w = p + "distance_covariance_sqr"
        close(own(call(getattr(dcor, w), ax, ay, **kw), w), r.cov, r.tcov, w)
        if t == "f8" or (r.vx > 1e3 * r.tvx and r.vy > 1e3 * r.tvy):
            w = p + "distance_correlation_sqr"
            check_corr(own(call(getattr(dcor, w), ax, ay, **kw), w), r, w)
        w = p + "distance_stats_sqr"
        q = call(getattr(dcor, w), ax, ay, **kw)
        close(own(q.covariance_xy, w), r.cov, r.tcov, w + ".covariance_xy")
        close(own(q.variance_x, w), r.vx, r.tvx, w + ".variance_x")
        close(own(q.variance_y, w), r.vy, r.tvy, w + ".variance_y")
        if t == "f8":
            check_corr(own(q.correlation_xy, w), r, w + ".correlation_xy")
        if not unb:
            w = "distance_covariance"
            close_root(own(call(dcor.distance_covariance, ax, ay, **kw), w), r.cov, r.tcov
                       + (0 if t == "f8" else 1e-5 * float(abs(r.cov))), w)
            if t == "f8":
                w = "distance_correlation"
                check_corr_root(own(call(dcor.distance_correlation, ax, ay, **kw), w), r, w)
                w = "distance_stats"
                q = call(dcor.distance_stats, ax, ay, **kw)
                close_root(own(q.variance_x, w), r.vx, r.tvx, w + ".variance_x")
                check_corr_root(own(q.correlation_xy, w), r, w + ".correlation_xy")
    expect(np.array_equal(np.asarray(ax), x) and np.array_equal(np.asarray(ay), y),
           "an input was modified")
    if r.const:
        labels.append("trivial")
    return labels


@st.composite
def energy_cases(draw, hi=25, d=gen.dims(3)):
    d = draw(d)
    case = {"d": d, "u": draw(st.booleans()),
            "x": draw(gen.sample(draw(gen.sizes(2, hi)), d)),
            "y": draw(gen.sample(draw(gen.sizes(2, hi)), d))}
    e = draw(st.one_of(st.none(), gen.exponents()))
    if e is not None:
        case["e"] = e
    return case


def check_energy(case):
    x, y = gen.build(case["x"]), gen.build(case["y"])
    e = case.get("e", 1.0)
    kw = {"exponent": e} if "e" in case else {}
    ax, ay = arr(x), arr(y)
    a = dist(x, y, e)
    w = "pairwise_distances"
    arrays_close(own(call(dcor.distances.pairwise_distances, ax, ay, **kw), w), a,
                 1e-12 * a + 1e-290, w)
    b = dist(x, e=e)
    for got in (call(dcor.distances.pairwise_distances, ax, **kw),
                call(dcor.distances.pairwise_distances, ax, ax, **kw)):
        arrays_close(own(got, w), b, 1e-12 * b + 1e-290, w)
    mx = float(max(a.max(), b.max(), dist(y, e=e).max()))
    if case["u"]:
        kw["estimation_stat"] = dcor.EstimationStatistic.U_STATISTIC
    n, m = len(x), len(y)
    want = energy(x, y, e, case["u"])
    tol = 1e-13 * (20 + n + m) * mx + 1e-300
    w = "energy_distance"
    close(own(call(dcor.energy_distance, ax, ay, **kw), w), want, tol, w)
    c = n * m / (n + m)
    w = "energy_test_statistic"
    close(own(call(dcor.homogeneity.energy_test_statistic, ax, ay, **kw), w), c * want,
          c * tol, w)
    return ["U" if case["u"] else "V"] + ([] if mx else ["trivial"])


@st.composite
def matrix_cases(draw):
    n = draw(st.integers(4, 15))
    k = n * (n + 1) // 2
    v = gen.values(draw(st.sampled_from(["int", "dyadic", "float"])))
    vals = st.lists(v, min_size=k, max_size=k)
    return {"n": n, "a": draw(vals), "b": draw(vals),
            "out": draw(st.sampled_from(["none", "none", "other", "same"]))}


def _matrix(n, vals):
    m = np.zeros((n, n))
    m[np.triu_indices(n)] = vals
    return np.maximum(m, m.T) + np.minimum(m, m.T) - np.diag(np.diag(m))


def check_matrix(case):
    n = case["n"]
    a, b = _matrix(n, case["a"]), _matrix(n, case["b"])
    ma, mb = float(np.max(np.abs(a))), float(np.max(np.abs(b)))
    for f, ref in ((dcor.double_centered, dcenter), (dcor.u_centered, ucenter)):
        w = f.__name__
        m = arr(a)
        kw = {}
        if case["out"] == "other":
            kw["out"] = arr(b)
        elif case["out"] == "same":
            kw["out"] = m
        got = call(f, m, **kw)
        arrays_close(own(got, w), ref(a), 1e-13 * (10 + n) * ma + 1e-300, w)
        if kw:
            expect(got is kw["out"], f"{w}: `out` is not what is returned")
        if case["out"] != "same":
            expect(np.array_equal(np.asarray(m), a), f"{w} modified its argument")
    tol = 1e-13 * (10 + n) * ma * mb + 1e-300
    w = "mean_product"
    close(own(call(dcor.mean_product, arr(a), arr(b)), w), np.mean(a * b), tol, w)
    w = "u_product"
    close(own(call(dcor.u_product, arr(a), arr(b)), w), uprod(a, b), 5 * tol, w)
    ua, ub = ucenter(a).astype(float), ucenter(b).astype(float)
    aa, bb, ab = uprod(ua, ua), uprod(ub, ub), uprod(ua, ub)
    if aa > 1e-3 * ma ** 2 or ma == 0:
        ref = ua * (ab / aa if ma else 0)
        t = 1e-9 * (mb + 1e-300)
        w = "u_projection"
        arrays_close(own(call(call(dcor.u_projection, arr(ua)), arr(ub)), w), ref, t, w)
        w = "u_complementary_projection"
        arrays_close(own(call(call(dcor.u_complementary_projection, arr(ua)), arr(ub)), w),
                     ub - ref, t, w)
    return [] if ma and mb else ["trivial"]


@st.composite
def test_cases(draw):
    case = draw(data(hi=10))
    case.pop("avg", None)
    case["r"] = draw(st.integers(0, 6))
    case["s"] = draw(gen.SEED)
    return case


def check_tests(case):
    pb = Problem(case)
    if not pb.ok:
        return ["trivial", "degenerate"]
    pb.arrays = [arr(a) for a in pb.arrays]
    rs = InjectRandomState(None, case["s"])
    res = pb.run(num_resamples=case["r"], random_state=rs)
    name = pb.fun.__name__
    tol = pb.tol or 1e-13 * (20 + pb.n) * pb.scale
    close(own(res.statistic, name), pb.observed, tol, name + " statistic")
    if len(rs.used) == case["r"]:
        lo, hi = pb.bounds(rs.used)
        got = float(num(res.pvalue, name))
        k = case["r"] + 1
        expect((1 + lo) / k - 1e-12 <= got <= (1 + hi) / k + 1e-12,
               f"{name} p-value {got}, expected between {(1 + lo) / k} and {(1 + hi) / k}")
    return [case["test"]] + (["trivial"] if pb.scale == 0 else [])


@st.composite
def misc_cases(draw):
    n = draw(st.integers(6, 20))
    return {"fun": draw(st.sampled_from(["partial", "t_test", "af_inv"])), "n": n,
            "a": [draw(gen.sample(n, draw(st.sampled_from([0, 1, 2, 3])), gen.RICH, False, False))
                  for _ in range(3)]}


def check_misc(case):
    x, y, z = [gen.build(s) for s in case["a"]]
    ax, ay, az = arr(x), arr(y), arr(z)
    fun = case["fun"]
    labels = [fun]
    if fun == "partial":
        a, b, c = dist(x), dist(y), dist(z)
        ua, ub, uc = ucenter(a), ucenter(b), ucenter(c)
        cc = uprod(uc, uc)
        if not np.any(c) or not cc > 1e-3 * np.max(c) ** 2:
            return labels + ["trivial"]
        pa, pb = ua - uprod(ua, uc) / cc * uc, ub - uprod(ub, uc) / cc * uc
        sc = float(np.max(a)) * float(np.max(b))
        amp = (1 + float(np.max(c) ** 2 / cc)) ** 2
        w = "partial_distance_covariance"
        close(own(call(dcor.partial_distance_covariance, ax, ay, az), w), uprod(pa, pb),
              1e-12 * (20 + len(x)) * sc * amp + 1e-300, w)
        va, vb = uprod(pa, pa), uprod(pb, pb)
        if va > 1e-3 * np.max(a) ** 2 and vb > 1e-3 * np.max(b) ** 2:
            close(call(dcor.partial_distance_correlation, ax, ay, az),
                  uprod(pa, pb) / np.sqrt(va * vb), 1e-6, "partial_distance_correlation")
    elif fun == "t_test":
        r = Ref(x, y, unbiased=True)
        if r.const or r.degenerate or abs(r.r2) > 0.999:
            return labels + ["trivial"]
        n = len(x)
        want = np.sqrt(n * (n - 3) / 2 - 1) * r.r2 / np.sqrt(1 - r.r2 ** 2)
        res = call(dcor.independence.distance_correlation_t_test, ax, ay)
        ref = call(dcor.independence.distance_correlation_t_test, x, y)
        close(res.statistic, want, 1e4 * n * (r.tr2 + 1e-14), "t statistic")
        close(res.pvalue, num(ref.pvalue), 1e-6, "t test p-value")
        close(call(dcor.independence.distance_correlation_t_statistic, ax, ay), want,
              1e4 * n * (r.tr2 + 1e-14), "t statistic")
    else:
        conds = [np.linalg.cond(np.atleast_2d(np.cov(v, rowvar=False))) for v in (x, y)]
        if max(conds) > 1e4 or not (np.any(np.ptp(x, axis=0)) and np.any(np.ptp(y, axis=0))):
            return labels + ["trivial"]
        for w in ("distance_correlation_af_inv", "distance_correlation_af_inv_sqr"):
            got = own(call(getattr(dcor, w), ax, ay), w)
            close(got, num(call(getattr(dcor, w), x, y)), 1e-7, w)
    return labels


LEGS = [
    Leg("dependence", dep_cases, check_dep, quick=3000, thorough=60000),
    Leg("energy", energy_cases, check_energy, quick=1500, thorough=30000),
    Leg("dependence-larger", lambda: dep_cases(lo=60, hi=400), check_dep, quick=64, thorough=1600),
    Leg("energy-larger", lambda: energy_cases(hi=300), check_energy, quick=64, thorough=1600),
    Leg("energy-wide", lambda: energy_cases(hi=15, d=gen.wide_dims()), check_energy, quick=100,
        thorough=2500),
    Leg("matrices", matrix_cases, check_matrix, quick=1500, thorough=30000),
    Leg("tests", test_cases, check_tests, quick=800, thorough=20000),
    Leg("others", misc_cases, check_misc, quick=800, thorough=20000),
]
