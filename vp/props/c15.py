"""C15: t-test of independence."""
import dcor
import numpy as np
import scipy.special
from hypothesis import strategies as st

from .. import gen
from ..api import call, expect, num
from ..core import Leg
from ..oracle import Atoms, Ref

ID = "C15"
RULE = (
    "Pairs of samples with n >= 4 (dependent, independent, constant, equal); "
    "oracle: T = sqrt(v - 1) R / sqrt(1 - R^2) with the U-centred R and "
    "v = n (n - 3) / 2 in long double, upper tail of Student's t with v - 1 "
    "degrees of freedom (incomplete beta function). Non-trivial: R is well "
    "conditioned and |R| < 1 - 1e-6."
)


def cases():
    return gen.pair(lo=4, hi=150, maxd=10)


def tail(t, df):
    """P(T > t)."""
    p = 0.5 * scipy.special.betainc(df / 2.0, 0.5, df / (df + t * t))
    return p if t >= 0 else 1 - p


def check(case):
    x, y = gen.build_pair(case)
    r = Ref(x, y, unbiased=True)
    n = r.n
    v = n * (n - 3) / 2
    stat = num(call(dcor.independence.distance_correlation_t_statistic, x, y))
    res = call(dcor.independence.distance_correlation_t_test, x, y)
    ts, p = num(res.statistic), num(res.pvalue)
    expect(stat == ts or abs(stat - ts) <= 1e-9 * abs(stat),
           f"statistics {stat!r} and {ts!r} differ")
    if r.const:
        expect(abs(stat) <= 1e-4 and abs(p - 0.5) <= 1e-4,
               f"constant sample: T = {float(stat)!r}, p = {float(p)!r}, expected 0, 0.5")
        return ["trivial", "constant"]
    if r.degenerate:
        return ["trivial", "degenerate"]
    expect(0 <= p <= 1, f"p-value {p!r}")
    one = 1 - r.r2 * r.r2
    if one < 1e-6 or r.tr2 > 1e-3 * one:
        if one < 1e-6 and r.tr2 < 1e-9:
            # T is large (or infinite), with the sign of R
            bound = np.sqrt(v - 1) * abs(r.r2) / np.sqrt(one + 4 * r.tr2) * 0.99
            expect(np.sign(stat) == np.sign(r.r2) and abs(stat) >= bound,
                   f"R = {float(r.r2)!r}: T = {float(stat)!r}")
            want = tail(float(bound), v - 1)
            if r.r2 > 0:
                expect(p <= want + 1e-9, f"R = {float(r.r2)!r}: p = {float(p)!r}")
            else:
                expect(p >= 1 - want - 1e-9, f"R = {float(r.r2)!r}: p = {float(p)!r}")
        return ["trivial", "near one"]
    want = np.sqrt(np.longdouble(v - 1)) * r.r2 / np.sqrt(one)
    tol = float(np.sqrt(v - 1) * r.tr2 / one ** 1.5) * 2 + 1e-10 * (1 + abs(float(want)))
    expect(np.isfinite(stat) and abs(stat - want) <= tol,
           f"T = {float(stat)!r}, expected {float(want)!r} (tolerance {tol:.3g})")
    wp = tail(float(want), v - 1)
    expect(abs(p - wp) <= 1e-9 + tol, f"p-value {float(p)!r}, expected {float(wp)!r}")
    return ["negative" if want < 0 else "positive"]


def check_atoms(case):
    u, w, i, j = gen.build_atoms(case)
    r = Atoms(u, w, i, j)
    x, y = u[i], w[j]
    if len(set(i)) < 2 or len(set(j)) < 2:
        return ["trivial", "constant"]
    vx, vy, c = r.varx(True), r.vary(True), r.cov(True)
    tx, ty, tc = r.tol(r.A, r.A), r.tol(r.B, r.B), r.tol(r.A, r.B)
    if not (vx > 1e3 * tx and vy > 1e3 * ty):
        return ["trivial", "degenerate"]
    den = np.sqrt(vx * vy)
    r2 = c / den
    tr = float(tc / den + abs(r2) * (tx / vx + ty / vy)) + 1e-14
    one = 1 - r2 * r2
    if one < 1e-6:
        return ["trivial", "near one"]
    n = r.n
    v = n * (n - 3) / 2
    want = np.sqrt(np.longdouble(v - 1)) * r2 / np.sqrt(one)
    tol = float(np.sqrt(v - 1) * tr / one ** 1.5) * 2 + 1e-10 * (1 + abs(float(want)))
    stat = num(call(dcor.independence.distance_correlation_t_statistic, x, y))
    expect(np.isfinite(stat) and abs(stat - want) <= tol,
           f"T = {float(stat)!r}, expected {float(want)!r} (tolerance {tol:.3g})")
    res = call(dcor.independence.distance_correlation_t_test, x, y)
    expect(abs(num(res.statistic) - want) <= tol, f"statistic of the test {res.statistic!r}, "
                                                  f"expected {float(want)!r}")
    wp = tail(float(want), v - 1)
    expect(abs(num(res.pvalue) - wp) <= 1e-9 + tol,
           f"p-value {res.pvalue!r}, expected {float(wp)!r}")
    return []


LEGS = [Leg("t-test", cases, check, quick=5000, thorough=100000),
        Leg("larger", lambda: gen.pair(lo=150, hi=700), check, quick=96, thorough=2400),
        Leg("big", gen.big_pair, check, quick=8, thorough=160),
        Leg("discrete-large", lambda: gen.atoms_case(700, 130000), check_atoms, quick=64,
            thorough=1600),
        Leg("wide", gen.wide_pair, check, quick=300, thorough=8000)]
