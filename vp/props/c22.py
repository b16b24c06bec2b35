"""C22: one-dimensional measures scale to large samples."""
import contextlib
import resource
import time

import dcor
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..api import COMPILE, call, expect
from ..core import Leg

ID = "C22"
RULE = (
    "One-dimensional samples of 30000 to 120000 observations (families with "
    "and without ties, sorted, constant, 1-D or one column, contiguous or "
    "strided, several number types) for every dependence measure, rowwise and "
    "the affinely invariant correlation, with the automatic, AVL and mergesort "
    "methods; oracle: the call answers with finite numbers while the address "
    "space may grow by at most 1.5 GB (an n x n matrix does not fit) and 60 s "
    "of processor time (normally below one second). Non-trivial: neither "
    "sample constant."
)
ASSUMPTIONS = ["Bounds of 1.5 GB and 60 s stand for 'not quadratic'."]

EXTRA = 3 * 2 ** 29
SECONDS = 60
DEP = ("distance_covariance_sqr", "distance_covariance", "u_distance_covariance_sqr",
       "distance_correlation_sqr", "distance_correlation", "u_distance_correlation_sqr",
       "distance_stats_sqr", "distance_stats", "u_distance_stats_sqr")
TYPES = ("f8", "f8", "f8", "f4", "f2", "i8", "i4", "i2", "u1", "b1", ">f8", ">i4", "u8")


@st.composite
def cases(draw):
    n = draw(st.one_of(st.integers(30000, 50000), st.integers(30000, 120000),
                       st.sampled_from([32767, 32768, 32769, 65535, 65536, 65537, 100000])))
    case = {"x": {"n": n, "d": draw(st.sampled_from([0, 0, 1])),
                  "f": draw(st.sampled_from(gen.FAMILIES)), "s": draw(gen.SEED)},
            "y": {"n": n, "d": draw(st.sampled_from([0, 0, 1])),
                  "f": draw(st.sampled_from(gen.FAMILIES)), "s": draw(gen.SEED)},
            "t": [draw(st.sampled_from(TYPES)), draw(st.sampled_from(TYPES))],
            "lay": draw(st.sampled_from(["C", "C", "strided", "neg"])),
            "fun": draw(st.sampled_from(DEP + DEP + (
                "distance_correlation_af_inv", "distance_correlation_af_inv_sqr",
                "rowwise", "rowwise")))}
    if case["fun"] == "rowwise":
        case["f"] = draw(st.sampled_from(DEP[:6]))
        case["y"]["d"] = case["x"]["d"]
    elif draw(st.booleans()):
        case["m"] = draw(st.sampled_from(["auto", "avl", "mergesort"]))
        if draw(st.booleans()):
            case["c"] = "COMPILE_CPU"
    return case


def _array(spec, t, lay):
    a = gen.build(spec)
    m = np.max(np.abs(a)) or 1.0
    kind = np.dtype(t).kind
    if kind == "b":
        a = a > np.median(a)
    elif kind == "u":
        a = np.rint((a / m + 1) * 100)
    elif kind == "i":
        a = np.rint(a / m * 10000)
    else:
        a = a / m * 50
    a = a.astype(t)
    if lay == "strided":
        b = np.zeros((2 * len(a),) + a.shape[1:], dtype=a.dtype)
        b[::2] = a
        return b[::2]
    if lay == "neg":
        return a[::-1].copy()[::-1]
    return a


@contextlib.contextmanager
def limited():
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    with open("/proc/self/statm") as fh:
        size = int(fh.read().split()[0]) * resource.getpagesize()
    new = size + EXTRA
    if soft != resource.RLIM_INFINITY:
        new = min(new, soft)
    resource.setrlimit(resource.RLIMIT_AS, (new, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))


def check(case):
    x = _array(case["x"], case["t"][0], case["lay"])
    y = _array(case["y"], case["t"][1], case["lay"])
    fun = case["fun"]
    kw = {}
    if "m" in case:
        kw["method"] = case["m"]
    if "c" in case:
        kw["compile_mode"] = COMPILE[case["c"]]
    constant = bool(np.all(x == x.reshape(-1)[0]) or np.all(y == y.reshape(-1)[0]))
    if fun == "rowwise":
        args = (getattr(dcor, case["f"]), np.stack([x, x[::-1]]), np.stack([y, y]))
    else:
        if fun.startswith("distance_correlation_af"):
            if constant:
                return ["trivial"]
            x, y = x.astype(float), y.astype(float)
        args = (x, y)
    start = time.process_time()
    with limited():
        res = call(getattr(dcor, fun), *args, **kw)
    used = time.process_time() - start
    what = f"{fun} of {case['x']['n']} observations ({x.dtype}, {y.dtype}, {kw})"
    expect(used <= SECONDS, f"{what} took {used:.0f} s of processor time")
    vals = ([res.covariance_xy, res.correlation_xy, res.variance_x, res.variance_y]
            if "stats" in fun else [res])
    for v in vals:
        v = np.asarray(v, dtype=float)
        expect(np.all(np.isfinite(v)), f"{what}: {v!r}")
    labels = [fun, x.dtype.str, case.get("m", "default")]
    if constant:
        labels.append("trivial")
    return labels


LEGS = [Leg("large", cases, check, quick=200, thorough=6000, shards=4)]
