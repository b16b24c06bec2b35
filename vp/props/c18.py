"""C18: the number type of the data does not change the results."""
from decimal import Decimal
from fractions import Fraction

import dcor
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..api import (COMPILE, arrays_close, call, check_corr, check_corr_root, close,
                   close_root, expect, num)
from ..core import Leg
from ..oracle import LD, Ref, cov_b, dcenter, dist, energy, ucenter, uprod

ID = "C18"
RULE = (
    "The same observations stored as any NumPy integer type (values up to the "
    "whole range of the type, 2**40 at most), booleans, half, single, double "
    "(both byte orders) and long double, each sample with its own type, and as "
    "Fraction and Decimal objects, for the dependence measures (every method), "
    "energy distance, pairwise distances, centring, rowwise and the tests; "
    "oracle: the definition on the exact values (long double; rational "
    "arithmetic for Fraction/Decimal). Non-trivial: a type other than double "
    "and neither sample constant."
)

INTS = ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64")
FLOATS = ("float16", "float32", "float64", ">f8", "<f8", ">f4")
TYPES = INTS + ("bool", ">i4", ">i2") + FLOATS + ("longdouble",)


def values(spec, n, d):
    """An array of the type of the spec."""
    rng = np.random.RandomState(spec["s"])
    shape = (n,) if d == 0 else (n, d)
    t = np.dtype(spec["t"])
    how = spec["how"]
    if how == "offset":
        if t.itemsize > 8:
            # exact as long double, not as double
            return (rng.randint(-900, 901, size=shape).astype(t)
                    + t.type(rng.choice([2.0, -3.0, 5.0])) * t.type(2) ** 57)
        how = "mid"
    if t.kind == "b":
        return rng.randint(0, 2, size=shape).astype(t)
    if t.kind in "iu":
        info = np.iinfo(t)
        lo, hi = max(int(info.min), -2 ** 40), min(int(info.max), 2 ** 40)
        if how == "small":
            lo, hi = max(lo, -5), min(hi, 5)
        elif how == "edge":
            pick = np.array([lo, lo + 1, hi - 1, hi, 0, hi // 2], dtype=np.int64)
            return pick[rng.randint(len(pick), size=shape)].astype(t)
        elif how == "high":
            lo = hi - 20
        elif how == "mid":
            lo, hi = max(lo, -3000), min(hi, 3000)
        return rng.randint(lo, hi + 1, size=shape, dtype=np.int64).astype(t)
    scale = {"small": 1.0, "mid": 300.0, "edge": 1e3, "high": 0.02}[how]
    a = rng.normal(size=shape) * scale
    if how == "edge":
        a = np.round(a / 500) * 500
    if t.itemsize > 8:
        a = a.astype(t) + np.round(rng.normal(size=shape) * 40).astype(t) / 2 ** 60 * scale
    return a.astype(t)


@st.composite
def spec(draw, types=TYPES):
    return {"t": draw(st.sampled_from(types)), "s": draw(gen.SEED),
            "how": draw(st.sampled_from(["small", "mid", "edge", "high", "offset"]))}


@st.composite
def dep_cases(draw, lo=4, hi=70):
    case = {"n": draw(gen.sizes(lo, hi)), "x": draw(spec()), "y": draw(spec())}
    kind = draw(st.sampled_from(["fast", "fast", "multi", "any"]))
    if kind == "fast":
        case["dx"], case["dy"] = draw(st.sampled_from([(0, 0), (0, 1), (1, 1)]))
        case["m"] = draw(st.sampled_from(["auto", "avl", "mergesort", "naive"]))
        if case["m"] in ("avl", "mergesort"):
            case["c"] = draw(st.sampled_from(["AUTO", "NO_COMPILE", "COMPILE_CPU"]))
    else:
        case["dx"], case["dy"] = draw(st.integers(0, 3)), draw(st.integers(0, 3))
        case["m"] = draw(st.sampled_from(["auto", "naive"]))
        if kind == "any":
            case["e"] = draw(gen.exponents(one=False))
    return case


def _wide(t):
    return np.dtype(t).itemsize > 8 and np.dtype(t).kind == "f"


def check_dep(case):
    n = case["n"]
    x, y = values(case["x"], n, case["dx"]), values(case["y"], n, case["dy"])
    wide = _wide(case["x"]["t"]) or _wide(case["y"]["t"])
    if wide and case.get("c") == "COMPILE_CPU":
        case = dict(case, c="AUTO")       # long double cannot be compiled
    kw = {"method": case["m"]}
    if "c" in case:
        kw["compile_mode"] = COMPILE[case["c"]]
    e = case.get("e", 1.0)
    if "e" in case:
        kw["exponent"] = e
    bx, by = x.tobytes(), y.tobytes()
    both = _wide(case["x"]["t"]) and _wide(case["y"]["t"])
    for unb in (False, True):
        r = Ref(x, y, e, unbiased=unb)
        # long double data are not rounded to double
        s = 1e-3 if both and e == 1 else 1.0
        p = "u_" if unb else ""
        tag = f"[{x.dtype} {y.dtype} {case['m']}]"
        close(call(getattr(dcor, p + "distance_covariance_sqr"), x, y, **kw), r.cov,
              r.tcov * s, f"{p}distance_covariance_sqr {tag}")
        check_corr(call(getattr(dcor, p + "distance_correlation_sqr"), x, y, **kw), r,
                   f"{p}distance_correlation_sqr {tag}")
        st_ = call(getattr(dcor, p + "distance_stats_sqr"), x, y, **kw)
        close(st_.covariance_xy, r.cov, r.tcov * s, f"{p}distance_stats_sqr.covariance_xy {tag}")
        close(st_.variance_x, r.vx, r.tvx * s, f"{p}distance_stats_sqr.variance_x {tag}")
        close(st_.variance_y, r.vy, r.tvy * s, f"{p}distance_stats_sqr.variance_y {tag}")
        check_corr(st_.correlation_xy, r, f"{p}distance_stats_sqr.correlation_xy {tag}")
        if not unb:
            close_root(call(dcor.distance_covariance, x, y, **kw), r.cov, r.tcov,
                       f"distance_covariance {tag}")
            check_corr_root(call(dcor.distance_correlation, x, y, **kw), r,
                            f"distance_correlation {tag}")
    expect(x.tobytes() == bx and y.tobytes() == by, "an input was modified")
    labels = [case["x"]["t"], case["y"]["t"], case["m"]]
    if r.const or (x.dtype == float and y.dtype == float):
        labels.append("trivial")
    return labels


@st.composite
def other_cases(draw, lo=5, hi=30):
    fun = draw(st.sampled_from(["energy", "energy", "pairwise", "energy_test", "dcov_test",
                                "pdcov", "pdcov_test", "t_test", "rowwise", "centre",
                                "rowwise"]))
    case = {"fun": fun, "n": draw(gen.sizes(lo, hi)), "m": draw(gen.sizes(2, hi)),
            "d": draw(st.sampled_from([0, 1, 2, 3])),
            "a": [draw(spec()) for _ in range(3)]}
    if fun in ("energy", "pairwise", "energy_test", "dcov_test", "pdcov_test") and draw(st.booleans()):
        case["e"] = draw(gen.exponents(one=False))
    if fun in ("energy", "energy_test"):
        case["u"] = draw(st.booleans())
    if fun == "rowwise":
        case["f"] = draw(st.sampled_from(["distance_covariance_sqr", "u_distance_covariance_sqr",
                                          "distance_correlation_sqr"]))
        case["mode"] = draw(st.sampled_from(["AUTO", "NAIVE"]))
        case["box"] = draw(st.sampled_from(["stack", "list"]))
    return case


def check_other(case):
    fun, n, m, d = case["fun"], case["n"], case["m"], case["d"]
    e = case.get("e", 1.0)
    kw = {"exponent": e} if "e" in case else {}
    x = values(case["a"][0], n, d)
    labels = [fun, case["a"][0]["t"]]
    tag = f"{fun} [{x.dtype}]"
    if fun in ("energy", "pairwise", "energy_test"):
        y = values(case["a"][1], m, d)
        dxy = dist(x, y, e)
        mx = float(max(dxy.max(), dist(x, e=e).max(), dist(y, e=e).max()))
        tag = f"{fun} [{x.dtype} {y.dtype}]"
        if fun == "pairwise":
            arrays_close(call(dcor.distances.pairwise_distances, x, y, **kw), dxy,
                         1e-12 * dxy + 1e-290, tag)
            w = dist(x, e=e)
            arrays_close(call(dcor.distances.pairwise_distances, x, **kw), w,
                         1e-12 * w + 1e-290, tag)
        else:
            if case["u"]:
                kw["estimation_stat"] = "U_STATISTIC"
            want = energy(x, y, e, case["u"])
            tol = 1e-13 * (20 + n + m) * mx + 1e-300
            if fun == "energy":
                close(call(dcor.energy_distance, x, y, **kw), want, tol, tag)
            else:
                c = n * m / (n + m)
                close(call(dcor.homogeneity.energy_test_statistic, x, y, **kw), c * want,
                      c * tol, tag)
                close(call(dcor.homogeneity.energy_test, x, y, num_resamples=3,
                           random_state=0, **kw).statistic, c * want, c * tol, tag)
        if mx == 0:
            labels.append("trivial")
        return labels
    if fun == "centre":
        # wide enough for the sums of the elements
        if x.dtype.kind not in "iu" or x.dtype.itemsize < 8:
            x = x.astype("float64") if x.dtype.kind == "f" and x.dtype.itemsize < 8 else x
        s = x if x.ndim == 1 else x[:, 0]
        a = np.maximum(s[:, None], s[None, :])
        w = dcenter(a)
        t = 1e-12 * float(np.max(np.abs(a.astype(LD)))) + 1e-300
        arrays_close(call(dcor.double_centered, a), w, t, "double_centered " + tag)
        arrays_close(call(dcor.u_centered, a), ucenter(a), 3 * t, "u_centered " + tag)
        if not np.any(w):
            labels.append("trivial")
        return labels
    y = values(case["a"][1], n, d)
    tag = f"{fun} [{x.dtype} {y.dtype}]"
    if fun == "rowwise":
        x2, y2 = values(dict(case["a"][0], s=case["a"][2]["s"]), n, d), y[::-1]
        xs, ys = [x, x2], [y, y2]
        if case["box"] == "stack":
            xs, ys = np.stack(xs), np.stack(ys)
        f = case["f"]
        res = np.asarray(call(dcor.rowwise, getattr(dcor, f), xs, ys,
                              rowwise_mode=dcor.RowwiseMode[case["mode"]]))
        expect(res.shape == (2,), f"{tag}: shape {res.shape}")
        for k in range(2):
            r = Ref(xs[k], ys[k], unbiased=f.startswith("u_"))
            if "corr" in f:
                check_corr(res[k], r, f"rowwise({f})[{k}] {tag}")
            else:
                close(res[k], r.cov, r.tcov, f"rowwise({f})[{k}] {tag}")
        if r.const:
            labels.append("trivial")
        return labels
    a, b = dist(x, e=e), dist(y, e=e)
    ma, mb = float(np.max(a)), float(np.max(b))
    if not (ma and mb):
        labels.append("trivial")
    if fun == "dcov_test":
        res = call(dcor.independence.distance_covariance_test, x, y, num_resamples=2,
                   random_state=0, **kw)
        close(res.statistic, n * cov_b(a, b), 1e-13 * (10 + n) * n * ma * mb + 1e-300, tag)
    elif fun == "t_test":
        if _wide(x.dtype) or _wide(y.dtype):
            return labels + ["trivial"]
        r = Ref(x, y, unbiased=True)
        if r.const or r.degenerate or abs(r.r2) > 0.999:
            return labels + ["trivial"]
        v = n * (n - 3) / 2
        want = np.sqrt(LD(v - 1)) * r.r2 / np.sqrt(1 - r.r2 ** 2)
        close(call(dcor.independence.distance_correlation_t_test, x, y).statistic, want,
              1e4 * n * (r.tr2 + 1e-14), tag)
    else:
        z = values(case["a"][2], n, 0)
        c = dist(z, e=e)
        ua, ub, uc = ucenter(a), ucenter(b), ucenter(c)
        cc = uprod(uc, uc)
        if not np.any(c) or not cc > 1e-4 * np.max(c) ** 2:
            return labels + ["trivial"]
        want = uprod(ua - uprod(ua, uc) / cc * uc, ub - uprod(ub, uc) / cc * uc)
        amp = 1 + float(np.max(c) ** 2 / cc)
        tol = 1e-12 * (20 + n) * ma * mb * amp ** 2 + 1e-300
        if fun == "pdcov":
            close(call(dcor.partial_distance_covariance, x, y, z, **kw), want, tol, tag)
        else:
            close(call(dcor.independence.partial_distance_covariance_test, x, y, z,
                       num_resamples=2, random_state=0, **kw).statistic, n * want, n * tol, tag)
    return labels


# ---- exact numbers ------------------------------------------------------

@st.composite
def exact_cases(draw):
    n = draw(st.one_of(st.integers(4, 9), st.integers(4, 18)))
    ints = st.lists(st.integers(-30, 30), min_size=n, max_size=n)
    return {"t": draw(st.sampled_from(["Fraction", "Fraction", "Decimal", "int"])),
            "x": draw(ints), "y": draw(ints),
            "q": [draw(st.sampled_from([1, 3, 7, 8, 10])), draw(st.sampled_from([1, 3, 9]))],
            "m": draw(st.sampled_from(["auto", "avl", "naive", None])),
            "col": draw(st.sampled_from([0, 0, 1])),
            "c": draw(st.sampled_from([None, None, "NO_COMPILE"]))}


def _fcov(a, b, unbiased):
    n = len(a)
    ra, rb = [sum(r) for r in a], [sum(r) for r in b]
    s1 = sum(a[i][j] * b[i][j] for i in range(n) for j in range(n))
    s2 = sum(p * q for p, q in zip(ra, rb))
    s3 = sum(ra) * sum(rb)
    if unbiased:
        return (s1 - Fraction(2, n - 2) * s2 + Fraction(1, (n - 1) * (n - 2)) * s3) / (n * (n - 3))
    return Fraction(s1, n ** 2) - Fraction(2 * s2, n ** 3) + Fraction(s3, n ** 4)


def _fr(v):
    return v if isinstance(v, Fraction) else Fraction(v) if isinstance(
        v, (int, float, Decimal)) else Fraction(float(v))


def check_exact(case):
    t = case["t"]
    q = case["q"]
    fx = [Fraction(v, q[0]) for v in case["x"]]
    fy = [Fraction(v, q[1]) for v in case["y"]]
    if t == "Decimal":
        vx = [Decimal(v) / q[0] for v in case["x"]]
        vy = [Decimal(v) / q[1] for v in case["y"]]
    elif t == "int":
        vx, vy = [v * 10 ** 19 for v in case["x"]], [v for v in case["y"]]
        fx, fy = [Fraction(v) for v in vx], [Fraction(v) for v in vy]
    else:
        vx, vy = fx, fy
    x, y = np.array(vx, dtype=object), np.array(vy, dtype=object)
    if case["col"]:
        x = x[:, None]
    kw = {}
    if case["m"]:
        kw["method"] = case["m"]
    if case["c"]:
        kw["compile_mode"] = COMPILE[case["c"]]
    a = [[abs(u - v) for v in fx] for u in fx]
    b = [[abs(u - v) for v in fy] for u in fy]
    ma, mb = max(map(max, a)), max(map(max, b))
    fast = case["m"] in (None, "auto", "avl")
    for unb in (False, True):
        p = "u_" if unb else ""
        want, wx, wy = _fcov(a, b, unb), _fcov(a, a, unb), _fcov(b, b, unb)
        got = call(getattr(dcor, p + "distance_covariance_sqr"), x, y, **kw)
        st_ = call(getattr(dcor, p + "distance_stats_sqr"), x, y, **kw)
        for g, w, mm, what in (
                (got, want, ma * mb, "distance_covariance_sqr"),
                (st_.covariance_xy, want, ma * mb, "distance_stats_sqr.covariance_xy"),
                (st_.variance_x, wx, ma * ma, "distance_stats_sqr.variance_x"),
                (st_.variance_y, wy, mb * mb, "distance_stats_sqr.variance_y")):
            what = f"{p}{what} of {t} [{case['m']}]"
            num(g, what)
            if t == "Fraction" and fast:
                expect(isinstance(g, (Fraction, int)) and g == w,
                       f"{what}: got {g!r}, expected exactly {w!r}")
            else:
                tol = mm * Fraction(1, 10 ** (22 if t == "Decimal" else 11))
                g = float(g) if isinstance(g, np.floating) else g
                expect(abs(_fr(g) - w) <= tol, f"{what}: got {g!r}, expected {float(w)!r}")
        corr = call(getattr(dcor, p + "distance_correlation_sqr"), x, y, **kw)
        if ma == 0 or mb == 0:
            expect(abs(float(corr)) <= 1e-9, f"{p}distance_correlation_sqr: {corr!r} "
                                             "with a constant sample")
        elif wx > Fraction(1, 1000) * ma * ma and wy > Fraction(1, 1000) * mb * mb:
            w = float(want) / (float(wx) * float(wy)) ** 0.5
            expect(abs(float(corr) - w) <= 1e-10,
                   f"{p}distance_correlation_sqr of {t}: got {corr!r}, expected {w!r}")
    m, n = len(fx), len(fy)
    want = (2 * sum(abs(u - v) for u in fx for v in fy) / Fraction(m * n)
            - sum(map(sum, a)) / Fraction(m * m) - sum(map(sum, b)) / Fraction(n * n))
    if t != "int":
        g = call(dcor.energy_distance, x, y)
        expect(abs(_fr(g) - want) <= (ma + mb + 60) * Fraction(1, 10 ** (20 if t == "Decimal" else 12)),
               f"energy_distance of {t}: got {g!r}, expected {float(want)!r}")
    return [t] + (["trivial"] if not (ma and mb) else [])


@st.composite
def exact_matrix(draw):
    n = draw(st.integers(4, 9))
    k = n * (n + 1) // 2
    vals = st.lists(st.integers(-20, 20), min_size=k, max_size=k)
    return {"n": n, "a": draw(vals), "b": draw(vals), "q": draw(st.sampled_from([1, 3, 7])),
            "fun": draw(st.sampled_from(["double_centered", "u_centered", "mean_product",
                                         "u_product"]))}


def check_matrix(case):
    n, fun = case["n"], case["fun"]

    def build(vals):
        m = np.zeros((n, n), dtype=object)
        it = iter(vals)
        for i in range(n):
            for j in range(i, n):
                m[i, j] = m[j, i] = Fraction(next(it), case["q"])
        return m
    a, b = build(case["a"]), build(case["b"])
    if fun in ("double_centered", "u_centered"):
        got = call(getattr(dcor, fun), a)
        rows = [sum(r) for r in a]
        tot = sum(rows)
        p, q = (n, n * n) if fun == "double_centered" else (n - 2, (n - 1) * (n - 2))
        for i in range(n):
            for j in range(n):
                w = a[i, j] - rows[i] / p - rows[j] / p + tot / q
                if fun == "u_centered" and i == j:
                    w = 0
                expect(got[i, j] == w, f"{fun} of fractions: element {(i, j)} is "
                                       f"{got[i, j]!r}, expected {w!r}")
    else:
        got = call(getattr(dcor, fun), a, b)
        w = sum((a * b).ravel()) / (n * n if fun == "mean_product" else n * (n - 3))
        expect(got == w, f"{fun} of fractions: {got!r}, expected {w!r}")
    return [fun] + ([] if any(case["a"]) else ["trivial"])


LEGS = [
    Leg("dependence", dep_cases, check_dep, quick=6000, thorough=100000),
    Leg("others", other_cases, check_other, quick=5000, thorough=100000),
    Leg("dependence-larger", lambda: dep_cases(lo=100, hi=500), check_dep, quick=64, thorough=1600),
    Leg("others-larger", lambda: other_cases(lo=60, hi=300), check_other, quick=80, thorough=2000),
    Leg("exact", exact_cases, check_exact, quick=500, thorough=12000),
    Leg("exact-matrices", exact_matrix, check_matrix, quick=500, thorough=10000),
]
