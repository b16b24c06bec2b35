"""C03: normalisation and range of the distance correlations."""
import dcor
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..api import (METHOD_ENUM, call, check_corr, check_corr_root, close,
                   close_root,
                   expect, num)
from ..core import Leg
from ..oracle import Atoms, Ref
from .c01 import cases, kwargs_of

ID = "C03"
RULE = (
    "Pairs of samples as in C01 (n >= 1 biased, n >= 4 unbiased), with many "
    "constant, nearly constant, one-hot, dependent and identical samples; "
    "oracle: covariance / sqrt(variance * variance) in long double, 0 for a "
    "constant sample, ranges, value 1 for a sample with itself or an affine "
    "image of it, agreement of every function and Stats field. "
    "Non-trivial: n >= 4, neither sample constant."
)


def _range(v, lo, hi, what, slack=1e-9):
    g = num(v, what)
    expect(lo - slack <= g <= hi + slack, f"{what}: {v!r} out of [{lo}, {hi}]")


def check(case):
    x, y = gen.build_pair(case)
    e = case.get("e", 1.0)
    kw = kwargs_of(case)
    if case.get("same_object"):
        y = x
    r = Ref(x, y, e)
    labels = []

    c2 = call(dcor.distance_correlation_sqr, x, y, **kw)
    c1 = call(dcor.distance_correlation, x, y, **kw)
    s2 = call(dcor.distance_stats_sqr, x, y, **kw)
    s1 = call(dcor.distance_stats, x, y, **kw)
    check_corr(c2, r, "distance_correlation_sqr")
    check_corr(s2.correlation_xy, r, "distance_stats_sqr.correlation_xy")
    check_corr_root(c1, r, "distance_correlation")
    check_corr_root(s1.correlation_xy, r, "distance_stats.correlation_xy")
    if not r.degenerate:
        for what, v in (("distance_correlation_sqr", c2),
                        ("distance_correlation", c1),
                        ("distance_stats.correlation_xy", s1.correlation_xy)):
            _range(v, 0, 1, what)
    # A sample with itself
    for name, z, const, v, t in (("x", x, r.constx, r.vx, r.tvx),
                                 ("y", y, r.consty, r.vy, r.tvy)):
        if const:
            g = num(call(dcor.distance_correlation, z, z, **kw))
            expect(abs(g) <= 1e-6, f"distance_correlation({name}, {name}) = {g} "
                                   "for a constant sample")
        elif v > 1e4 * t:
            close(call(dcor.distance_correlation_sqr, z, z.copy(), **kw), 1.0,
                  1e-9 + 4 * float(t / v), f"distance_correlation_sqr({name}, {name})")
    # Affine images of a univariate sample: |y| distances are proportional
    if (x.ndim == 1 or x.shape[1] == 1) and not r.constx and r.vx > 1e4 * r.tvx:
        z = x * -2.0
        close(call(dcor.distance_correlation, x, z, **kw), 1.0,
              1e-9 + 4 * float(r.tvx / r.vx), "distance_correlation(x, -2 x)")
    # The statistics are those of the individual functions, and the roots of
    # the squared ones
    close(s2.covariance_xy, r.cov, r.tcov, "distance_stats_sqr.covariance_xy")
    close(s2.variance_x, r.vx, r.tvx, "distance_stats_sqr.variance_x")
    close(s2.variance_y, r.vy, r.tvy, "distance_stats_sqr.variance_y")
    for part, t in (("covariance_xy", r.tcov), ("variance_x", r.tvx), ("variance_y", r.tvy)):
        close_root(getattr(s1, part), num(getattr(s2, part)), 2 * t,
                   f"distance_stats.{part} as a root")
    cs = num(call(dcor.distance_covariance_sqr, x, y, **kw))
    close(s2.covariance_xy, cs, 2 * r.tcov, "distance_stats_sqr.covariance_xy and "
                                            "distance_covariance_sqr")
    close_root(call(dcor.distance_covariance, x, y, **kw), cs, 2 * r.tcov,
               "distance_covariance as a root")
    if not (r.const or r.degenerate):
        close_root(c1, num(c2), 2 * r.tr2, "distance_correlation as a root")
    # Stats unpack in the documented order
    for s, what in ((s2, "distance_stats_sqr"), (s1, "distance_stats")):
        tup = tuple(s)
        fields = (s.covariance_xy, s.correlation_xy, s.variance_x, s.variance_y)
        expect(len(tup) == 4 and all(
            float(a) == float(b) for a, b in zip(tup, fields)),
            f"{what} iterates as {tup!r}, fields are {fields!r}")

    if r.n >= 4:
        ru = Ref(x, y, e, unbiased=True)
        u2 = call(dcor.u_distance_correlation_sqr, x, y, **kw)
        us = call(dcor.u_distance_stats_sqr, x, y, **kw)
        check_corr(u2, ru, "u_distance_correlation_sqr")
        check_corr(us.correlation_xy, ru, "u_distance_stats_sqr.correlation_xy")
        close(us.covariance_xy, ru.cov, ru.tcov, "u_distance_stats_sqr.covariance_xy")
        close(us.variance_x, ru.vx, ru.tvx, "u_distance_stats_sqr.variance_x")
        close(us.variance_y, ru.vy, ru.tvy, "u_distance_stats_sqr.variance_y")
        close(us.covariance_xy, num(call(dcor.u_distance_covariance_sqr, x, y, **kw)),
              2 * ru.tcov, "u_distance_stats_sqr and u_distance_covariance_sqr")
        if ru.degenerate:
            labels.append("u-degenerate")
        else:
            _range(u2, -1, 1, "u_distance_correlation_sqr")
        if not ru.constx and ru.vx > 1e4 * ru.tvx:
            close(call(dcor.u_distance_correlation_sqr, x, x, **kw), 1.0,
                  1e-9 + 4 * float(ru.tvx / ru.vx), "u_distance_correlation_sqr(x, x)")
        tup = tuple(us)
        expect(len(tup) == 4 and float(tup[1]) == float(us.correlation_xy)
               and float(tup[0]) == float(us.covariance_xy)
               and float(tup[3]) == float(us.variance_y),
               "u_distance_stats_sqr iterates in a different order")
    if r.const:
        labels.append("constant")
    if r.n < 4 or r.const:
        labels.append("trivial")
    if r.degenerate:
        labels.append("degenerate")
    return labels


@st.composite
def corr_cases(draw, **kw):
    case = draw(cases(**(kw or dict(maxd=7, hi=200))))
    if draw(st.integers(0, 5)) == 0:
        case["same_object"] = True
    if draw(st.integers(0, 3)) == 0:
        n = gen.build(case["x"]).shape[0]
        case["y"] = {"n": n, "d": draw(st.sampled_from([0, 1, 2])),
                     "f": draw(st.sampled_from(["const", "onehot", "nearconst",
                                                "twohot", "bin"])),
                     "s": draw(gen.SEED), "k": draw(gen.SCALES),
                     "o": draw(gen.OFFSETS)}
    # fast algorithms too, where they apply
    x, y = gen.build_pair(case)
    uni = all(a.ndim == 1 or a.shape[1] == 1 for a in (x, y))
    if uni and x.shape[0] > 3 and draw(st.booleans()):
        case.pop("e", None)
        case["m"] = draw(st.sampled_from(["avl", "mergesort", "!avl", "!mergesort"]))
    return case


def check_atoms(case):
    u, w, i, j = gen.build_atoms(case)
    r = Atoms(u, w, i, j)
    x, y = u[i], w[j]
    trivial = len(set(i)) < 2 or len(set(j)) < 2
    for unb, f in ((False, dcor.distance_correlation_sqr),
                   (True, dcor.u_distance_correlation_sqr)):
        vx, vy, c = r.varx(unb), r.vary(unb), r.cov(unb)
        tx, ty, tc = r.tol(r.A, r.A), r.tol(r.B, r.B), r.tol(r.A, r.B)
        got = call(f, x, y)
        if trivial:
            expect(abs(num(got)) <= 1e-12, f"{f.__name__}: {got!r} with a constant sample")
        elif vx > 1e3 * tx and vy > 1e3 * ty:
            den = np.sqrt(vx * vy)
            close(got, c / den, float(tc / den + abs(c / den) * (tx / vx + ty / vy)),
                  f.__name__)
    return ["trivial"] if trivial else []


LEGS = [
    Leg("correlation", corr_cases, check, quick=3500, thorough=100000, fixed=[
        {"x": {"n": 7, "d": 0, "f": "const", "s": 1, "k": 0.1, "o": 1.0},
         "y": {"v": [0.1, 0.3, 0.2, 0.9, 0.5, 0.4, 0.7], "d": 0}},
        {"x": {"v": [0.1] * 10, "d": 0}, "y": {"v": [0.3] * 10, "d": 0}},
    ]),
    Leg("larger", lambda: corr_cases(lo=200, hi=700, explicit=False), check,
        quick=48, thorough=1200),
    Leg("wide", lambda: corr_cases(wide=True), check, quick=240, thorough=6000),
    Leg("big", lambda: corr_cases(big=True), check, quick=6, thorough=120),
    Leg("discrete-large", lambda: gen.atoms_case(300, 130000), check_atoms,
        quick=120, thorough=3000),
]
