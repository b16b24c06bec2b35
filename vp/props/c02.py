"""C02: the unbiased (U-statistic) distance covariance."""
import dcor
from hypothesis import strategies as st  # noqa: F401

from .. import gen
from ..api import call, close
from ..core import Leg
from ..oracle import Atoms, Ref
from .c01 import cases, kwargs_of

ID = "C02"
RULE = (
    "As C01 with n >= 4; oracle: U-centred distance matrices in long double "
    "with the 1/(n(n-3)) inner product, or exact weighted counts for large "
    "discrete samples. Non-trivial: n >= 5 and neither sample constant."
)


def check(case):
    x, y = gen.build_pair(case)
    e = case.get("e", 1.0)
    kw = kwargs_of(case)
    r = Ref(x, y, e, unbiased=True)
    close(call(dcor.u_distance_covariance_sqr, x, y, **kw), r.cov, r.tcov,
          "u_distance_covariance_sqr")
    close(call(dcor.u_distance_covariance_sqr, x, x, **kw), r.vx, r.tvx,
          "u_distance_covariance_sqr(x, x)")
    close(call(dcor.u_distance_covariance_sqr, y, y, **kw), r.vy, r.tvy,
          "u_distance_covariance_sqr(y, y)")
    s = call(dcor.u_distance_stats_sqr, x, y, **kw)
    close(s.covariance_xy, r.cov, r.tcov, "u_distance_stats_sqr.covariance_xy")
    close(s.variance_x, r.vx, r.tvx, "u_distance_stats_sqr.variance_x")
    close(s.variance_y, r.vy, r.tvy, "u_distance_stats_sqr.variance_y")
    labels = []
    if r.n < 5 or r.const:
        labels.append("trivial")
    if r.cov < -r.tcov:
        labels.append("negative")
    labels.append("e=1" if e == 1 else "e!=1")
    if r.n > 64:
        labels.append("n>64")
    return labels


def check_atoms(case):
    u, w, i, j = gen.build_atoms(case)
    r = Atoms(u, w, i, j)
    x, y = u[i], w[j]
    t = r.tol(r.A, r.B)
    close(call(dcor.u_distance_covariance_sqr, x, y), r.cov(True), t,
          "u_distance_covariance_sqr")
    s = call(dcor.u_distance_stats_sqr, x, y)
    close(s.covariance_xy, r.cov(True), t, "u_distance_stats_sqr.covariance_xy")
    close(s.variance_x, r.varx(True), r.tol(r.A, r.A), "u_distance_stats_sqr.variance_x")
    close(s.variance_y, r.vary(True), r.tol(r.B, r.B), "u_distance_stats_sqr.variance_y")
    return ["trivial"] if len(set(i)) < 2 or len(set(j)) < 2 else []


LEGS = [
    Leg("definition", lambda: cases(lo=4, maxd=10), check, quick=4000, thorough=120000),
    Leg("wide", lambda: cases(wide=True), check, quick=400, thorough=10000),
    Leg("larger", lambda: cases(lo=200, hi=900, explicit=False), check,
        quick=64, thorough=1600),
    Leg("big", lambda: cases(big=True), check, quick=10, thorough=200),
    Leg("discrete-large", lambda: gen.atoms_case(300, 130000), check_atoms,
        quick=160, thorough=4000),
]
