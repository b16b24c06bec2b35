"""C07: affinely invariant distance correlation."""
import dcor
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..api import METHOD_ENUM, call, expect, num
from ..core import Leg
from ..oracle import LD, cov_b

ID = "C07"
RULE = (
    "Pairs of samples with nonsingular covariance (condition number < 1e6), "
    "up to 5 columns, and nonsingular affine maps; oracle: distance "
    "correlation of Mahalanobis distances (covariance inverse) and equality "
    "after the affine maps. Non-trivial: at least two columns in a sample or "
    "a non-identity map."
)
ASSUMPTIONS = ["Samples with singular covariance are excluded (documented as undefined)."]


@st.composite
def cases(draw, dims=(0, 1, 2, 3, 4, 5), hi=100, lo=0):
    dx = draw(st.sampled_from(dims))
    dy = draw(st.sampled_from(dims))
    n = draw(gen.sizes(max(lo, 3 * max(dx, dy, 1) + 3), hi))
    case = {"x": draw(gen.sample(n, dx, gen.RICH, True, False)),
            "y": draw(gen.second(n, dy, gen.RICH, True, False)),
            "ax": draw(gen.SEED), "ay": draw(gen.SEED),
            "k": draw(st.sampled_from([1.0, 1e-8, 1e8, -3.0])),
            "m": draw(st.sampled_from([None, None, "naive", "!auto", "!naive"]))}
    if dx <= 1 and dy <= 1 and draw(st.booleans()):
        case["m"] = draw(st.sampled_from(["avl", "mergesort", "!avl", "!mergesort"]))
    return case


def mahalanobis(x):
    """Mahalanobis distance matrix, condition number and relative offset."""
    x = (x[:, None] if x.ndim == 1 else x).astype(LD)
    mean = x.mean(axis=0)
    z = x - mean
    s = np.max(np.abs(z), axis=0)
    if not np.all(s > 0):
        return None, np.inf
    off = float(np.max(np.abs(mean) / s))
    cond_raw = np.linalg.cond((z / np.max(s)).astype(float)) ** 2
    if not np.isfinite(cond_raw) or cond_raw > 1e6:
        return None, np.inf
    z = z / s
    cov = z.T @ z / (x.shape[0] - 1)
    # inverse by Gauss-Jordan in long double
    d = cov.shape[0]
    a = np.concatenate([cov, np.eye(d, dtype=LD)], axis=1)
    for i in range(d):
        p = i + int(np.argmax(np.abs(a[i:, i])))
        a[[i, p]] = a[[p, i]]
        a[i] = a[i] / a[i, i]
        for k in range(d):
            if k != i:
                a[k] = a[k] - a[k, i] * a[i]
    inv = a[:, d:]
    diff = z[:, None, :] - z[None, :, :]
    q = np.sum((diff @ inv) * diff, axis=-1)
    return np.sqrt(np.maximum(q, 0)), float(cond_raw) * (1 + off)


def _f(name, x, y, kw):
    return num(call(getattr(dcor, name), x, y, **kw), name)


def check(case):
    x = gen.build(case["x"])
    y = gen.build_dep(case["y"], x)
    a, ca = mahalanobis(x)
    b, cb = mahalanobis(y)
    if a is None or b is None:
        return ["trivial", "singular"]
    kw = {}
    if case["m"]:
        m = case["m"]
        kw["method"] = METHOD_ENUM[m[1:]] if m.startswith("!") else m
    # Rounding: relative error eps * cond * offset of the distances
    n = a.shape[0]
    va, vb = cov_b(a, a), cov_b(b, b)
    want = cov_b(a, b) / np.sqrt(va * vb)

    def tolerance(ca, cb):
        return float(1e-13 * (10 + n) * 1e1 + 1e-14 * (ca + cb)) * float(
            np.max(a) ** 2 / va + np.max(b) ** 2 / vb + 1)
    tol = tolerance(ca, cb)
    if tol > 1e-4:
        return ["trivial", "ill-conditioned"]
    g2 = _f("distance_correlation_af_inv_sqr", x, y, kw)
    g1 = _f("distance_correlation_af_inv", x, y, kw)
    expect(abs(g2 - want) <= tol, f"distance_correlation_af_inv_sqr: got {float(g2)!r}, "
                                  f"expected {float(want)!r} (tolerance {tol:.3g})")
    expect(g1 >= 0 and abs(g1 * g1 - max(want, 0)) <= tol,
           f"distance_correlation_af_inv: got {float(g1)!r}, expected root of {float(want)!r}")
    expect(-1e-9 <= g2 <= 1 + 1e-9 + tol, f"distance_correlation_af_inv_sqr: {float(g2)!r} out of range")
    s = _f("distance_correlation_af_inv_sqr", y, x, kw)
    expect(abs(s - want) <= tol, f"distance_correlation_af_inv_sqr(y, x) = {float(s)!r}, "
                                 f"expected {float(want)!r}")
    s = _f("distance_correlation_af_inv", x, x, kw)
    expect(abs(s - 1) <= 1e-9 + tol, f"distance_correlation_af_inv(x, x) = {float(s)!r}")

    def image(z, seed, k):
        rng = np.random.RandomState(seed)
        z2 = z[:, None] if z.ndim == 1 else z
        d = z2.shape[1]
        q, _ = np.linalg.qr(rng.normal(size=(d, d)))
        m = q * rng.uniform(0.3, 3.0, size=d) * k
        sc = float(np.max(np.abs(z2 - z2.mean(axis=0))))
        out = z2 @ m + rng.normal(size=d) * sc * abs(k)
        return out[:, 0] if z.ndim == 1 else out

    x2, y2 = image(x, case["ax"], case["k"]), image(y, case["ay"], 1.0)
    _, ca2 = mahalanobis(x2)
    _, cb2 = mahalanobis(y2)
    labels = ["d>1" if (x.ndim > 1 and x.shape[1] > 1) else "d=1"]
    if np.isfinite(ca2) and np.isfinite(cb2):
        # ties may be broken by the rounding of the map: harmless, distances
        # are continuous
        tol2 = tolerance(10 * (ca + ca2), 10 * (cb + cb2)) + tol
        if tol2 < 1e-3:
            g = _f("distance_correlation_af_inv_sqr", x2, y2, kw)
            expect(abs(g - want) <= tol2,
                   f"distance_correlation_af_inv_sqr after affine maps: {float(g)!r}, "
                   f"before {float(want)!r} (tolerance {tol2:.3g})")
            labels.append("affine")
    return labels


LEGS = [Leg("affine-invariant", cases, check, quick=2500, thorough=60000),
        Leg("larger", lambda: cases(lo=100, hi=500), check, quick=64, thorough=1600),
        Leg("big", lambda: cases(lo=1020, hi=1300, dims=(1, 2, 3)), check, quick=8, thorough=160),
        Leg("wide", lambda: cases(dims=(0, 2, 6, 7, 8, 9, 11, 15, 16, 17, 20), hi=150), check,
            quick=200, thorough=5000)]
