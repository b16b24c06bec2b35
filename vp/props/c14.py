"""C14: statistics of the independence tests and test results."""
import warnings

import dcor
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..api import call, close, expect
from ..core import Leg
from ..perm import Problem, data

ID = "C14"
RULE = (
    "Samples for the distance covariance and partial distance covariance "
    "tests (any columns, exponents, number of resamples); oracle: n times the "
    "squared distance covariance, n times the partial distance covariance, in "
    "long double; p-value 1 without resamples; agreement with "
    "distance_covariance_sqr / partial_distance_covariance; attributes of the "
    "result. Non-trivial: no constant sample and n >= 5."
)


@st.composite
def cases(draw, hi=80, lo=4, exact=None):
    case = draw(data(tests=("dcov", "pdcov"), hi=hi, lo=lo, exact=exact))
    case["r"] = draw(st.sampled_from([None, 0, 0, 1, 3]))
    case["seed"] = draw(gen.SEED)
    return case


def check(case):
    pb = Problem(case)
    if not pb.ok:
        return ["trivial", "degenerate"]
    name = pb.fun.__name__
    kw = {}
    if case["r"] is not None:
        kw = dict(num_resamples=case["r"], random_state=case["seed"])
    res = pb.run(**kw)
    tol = 1e-13 * (20 + pb.n) * 6 * pb.scale + 1e-300
    close(res.statistic, pb.observed, tol, name + ": statistic")
    if not case["r"]:
        expect(float(res.pvalue) == 1.0, f"{name} without resamples: pvalue {res.pvalue!r}")
    x, y = pb.arrays[:2]
    swapped = call(pb.fun, y, x, *pb.arrays[2:], **pb.kw)
    close(swapped.statistic, pb.observed, tol, name + " with x and y exchanged")
    n = pb.n
    if pb.test == "dcov":
        close(n * call(dcor.distance_covariance_sqr, x, y, **pb.kw), pb.observed, tol,
              "n * distance_covariance_sqr")
    elif pb.e == 1.0:
        close(n * call(dcor.partial_distance_covariance, *pb.arrays), pb.observed, tol,
              "n * partial_distance_covariance")
    # the old interface of the results
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        old = res.p_value
        pair = tuple(res)
        ln = len(res)
    expect(old == res.pvalue, f"p_value {old!r} is not pvalue {res.pvalue!r}")
    expect(ln == 2 and len(pair) == 2 and pair[0] == res.pvalue
           and float(pair[1]) == float(res.statistic),
           f"the result iterates as {pair!r}: pvalue {res.pvalue!r}, "
           f"statistic {res.statistic!r}")
    expect(sum(issubclass(v.category, DeprecationWarning) for v in w) >= 3,
           "no DeprecationWarning for the old interface of the results")
    labels = [case["test"], "e=1" if pb.e == 1.0 else "e!=1"]
    if pb.n < 5 or pb.scale == 0:
        labels.append("trivial")
    return labels


LEGS = [Leg("statistic", cases, check, quick=3500, thorough=80000),
        Leg("larger", lambda: cases(hi=400), check, quick=80, thorough=2000),
        Leg("big", lambda: cases(lo=1020, hi=1300, exact=False), check, quick=8, thorough=160)]
