"""C01: the biased distance covariance is the one of the definition."""
import dcor
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..api import METHOD_ENUM, call, close, close_root
from ..core import Leg
from ..oracle import Atoms, Ref

ID = "C01"
RULE = (
    "Pairs of samples (explicit small values or seeded families: ties, sorted, "
    "constant, one-hot, outliers, scales 1e-30..1e30, offsets up to 1e9 spreads; "
    "n from 1; up to 300 columns; exponent in (0,2)); oracle: double centred "
    "distance matrices in long double, or exact weighted counts for large "
    "discrete samples. Non-trivial: n >= 3 and neither sample constant."
)


def kwargs_of(case):
    kw = {}
    e = case.get("e")
    if e is not None:
        kw["exponent"] = e
    if case.get("m"):
        m = case["m"]
        kw["method"] = METHOD_ENUM[m[1:]] if m.startswith("!") else m
    return kw


@st.composite
def cases(draw, wide=False, big=False, **kw):
    case = draw(gen.big_pair() if big else gen.wide_pair(**kw) if wide else gen.pair(**kw))
    e = draw(st.one_of(st.none(), gen.exponents()))
    if e is not None:
        case["e"] = e
    m = draw(st.sampled_from([None, None, "naive", "!naive", "auto", "!auto"]))
    if m:
        case["m"] = m
    return case


def check(case):
    x, y = gen.build_pair(case)
    e = case.get("e", 1.0)
    kw = kwargs_of(case)
    r = Ref(x, y, e)
    close(call(dcor.distance_covariance_sqr, x, y, **kw), r.cov, r.tcov,
          "distance_covariance_sqr")
    close_root(call(dcor.distance_covariance, x, y, **kw), r.cov, r.tcov,
               "distance_covariance")
    close(call(dcor.distance_covariance_sqr, x, x, **kw), r.vx, r.tvx,
          "distance_covariance_sqr(x, x)")
    s = call(dcor.distance_stats_sqr, x, y, **kw)
    close(s.covariance_xy, r.cov, r.tcov, "distance_stats_sqr.covariance_xy")
    close(s.variance_x, r.vx, r.tvx, "distance_stats_sqr.variance_x")
    close(s.variance_y, r.vy, r.tvy, "distance_stats_sqr.variance_y")
    s = call(dcor.distance_stats, x, y, **kw)
    close_root(s.covariance_xy, r.cov, r.tcov, "distance_stats.covariance_xy")
    close_root(s.variance_x, r.vx, r.tvx, "distance_stats.variance_x")
    close_root(s.variance_y, r.vy, r.tvy, "distance_stats.variance_y")
    labels = []
    if r.n < 3 or r.const:
        labels.append("trivial")
    labels.append("e=1" if e == 1 else "e!=1")
    labels.append("univariate" if x.ndim * 1 == 1 or x.shape[1] == 1 else "multivariate")
    if r.n > 64:
        labels.append("n>64")
    return labels


def check_atoms(case):
    u, w, i, j = gen.build_atoms(case)
    r = Atoms(u, w, i, j)
    x, y = u[i], w[j]
    t = r.tol(r.A, r.B)
    close(call(dcor.distance_covariance_sqr, x, y), r.cov(), t,
          "distance_covariance_sqr")
    close_root(call(dcor.distance_covariance, x, y), r.cov(), t,
               "distance_covariance")
    s = call(dcor.distance_stats_sqr, x, y)
    close(s.covariance_xy, r.cov(), t, "distance_stats_sqr.covariance_xy")
    close(s.variance_x, r.varx(), r.tol(r.A, r.A), "distance_stats_sqr.variance_x")
    close(s.variance_y, r.vary(), r.tol(r.B, r.B), "distance_stats_sqr.variance_y")
    return ["trivial"] if len(set(i)) < 2 or len(set(j)) < 2 else []


LEGS = [
    Leg("definition", lambda: cases(maxd=10), check, quick=4000, thorough=120000),
    Leg("wide", lambda: cases(wide=True, lo=2), check, quick=400, thorough=10000),
    Leg("larger", lambda: cases(lo=200, hi=900, explicit=False), check,
        quick=64, thorough=1600),
    Leg("big", lambda: cases(big=True), check, quick=10, thorough=200),
    Leg("discrete-large", lambda: gen.atoms_case(300, 130000), check_atoms,
        quick=160, thorough=4000,
        fixed=[{"n": 100000, "u": [0.0, 1.0, 3.5], "w": [0.0, 2.0], "s": 1,
                "order": "random", "mix": "dep"}]),
]
