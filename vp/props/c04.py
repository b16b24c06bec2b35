"""C04: every algorithm and compilation mode computes the same value."""
import dcor
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..api import (COMPILE, METHOD_ENUM, call, check_corr, check_corr_root,
                   close, close_root, num, expect)
from ..core import Leg
from ..oracle import Atoms, Ref
from .c17 import lay

ID = "C04"
RULE = (
    "Univariate pairs (n >= 4; ties, sorted, reversed, blocks, powers of two "
    "and neighbours, offsets, scales) evaluated with every method (by enum "
    "and by name in any case) and every compilation mode each supports, for "
    "covariances, correlations and stats, biased and unbiased; oracle: the "
    "definition in long double, exact counts for large discrete samples, and "
    "mutual agreement for large continuous ones. Non-trivial: neither sample "
    "constant."
)

# method -> compile modes it supports
CONFIGS = [
    (m, c) for m, modes in (
        ("naive", ("AUTO", "NO_COMPILE")),
        ("avl", ("AUTO", "NO_COMPILE", "COMPILE_CPU")),
        ("mergesort", ("AUTO", "NO_COMPILE", "COMPILE_CPU")),
        ("auto", ("AUTO", "NO_COMPILE", "COMPILE_CPU")),
    ) for c in modes
]


def _spell(m, style):
    if style == 0:
        return METHOD_ENUM[m]
    return (m, m.upper(), m.capitalize())[style - 1]


@st.composite
def cases(draw, lo=4, hi=200):
    case = draw(gen.pair(lo=lo, hi=hi, univariate=True))
    n = gen.build(case["x"]).shape[0]
    confs = CONFIGS if n <= 140 else [c for c in CONFIGS if c[1] != "NO_COMPILE"
                                      or c[0] == "naive"]
    case["conf"] = draw(st.lists(st.sampled_from(confs), min_size=3, max_size=6,
                                 unique=True))
    case["style"] = draw(st.integers(0, 3))
    case["stride"] = draw(st.sampled_from([1, 1, 2, -1, "F", "readonly", "unaligned", "rowview"]))
    return case


def _stride(a, s):
    if isinstance(s, str):
        return lay(a, s)
    if s == 1:
        return a
    if s == -1:
        return a[::-1].copy()[::-1]
    b = np.zeros((a.shape[0] * 2,) + a.shape[1:])
    b[::2] = a
    return b[::2]


def check(case):
    x, y = gen.build_pair(case)
    x = _stride(x, case.get("stride", 1))
    y = _stride(y, case.get("stride", 1))
    r = Ref(x, y)
    ru = Ref(x, y, unbiased=True)
    for m, c in case["conf"]:
        kw = dict(method=_spell(m, case["style"]), compile_mode=COMPILE[c])
        tag = f"[{m}/{c}]"
        close(call(dcor.distance_covariance_sqr, x, y, **kw), r.cov, r.tcov,
              "distance_covariance_sqr" + tag)
        close(call(dcor.u_distance_covariance_sqr, x, y, **kw), ru.cov, ru.tcov,
              "u_distance_covariance_sqr" + tag)
        close_root(call(dcor.distance_covariance, x, y, **kw), r.cov, r.tcov,
                   "distance_covariance" + tag)
        check_corr(call(dcor.distance_correlation_sqr, x, y, **kw), r,
                   "distance_correlation_sqr" + tag)
        check_corr(call(dcor.u_distance_correlation_sqr, x, y, **kw), ru,
                   "u_distance_correlation_sqr" + tag)
        check_corr_root(call(dcor.distance_correlation, x, y, **kw), r,
                        "distance_correlation" + tag)
        s = call(dcor.distance_stats_sqr, x, y, **kw)
        us = call(dcor.u_distance_stats_sqr, x, y, **kw)
        s1 = call(dcor.distance_stats, x, y, **kw)
        for v, rr, nm in ((s, r, "distance_stats_sqr"), (us, ru, "u_distance_stats_sqr")):
            close(v.covariance_xy, rr.cov, rr.tcov, nm + ".covariance_xy" + tag)
            close(v.variance_x, rr.vx, rr.tvx, nm + ".variance_x" + tag)
            close(v.variance_y, rr.vy, rr.tvy, nm + ".variance_y" + tag)
            check_corr(v.correlation_xy, rr, nm + ".correlation_xy" + tag)
        close_root(s1.covariance_xy, r.cov, r.tcov, "distance_stats.covariance_xy" + tag)
        close_root(s1.variance_x, r.vx, r.tvx, "distance_stats.variance_x" + tag)
        close_root(s1.variance_y, r.vy, r.tvy, "distance_stats.variance_y" + tag)
        check_corr_root(s1.correlation_xy, r, "distance_stats.correlation_xy" + tag)
    labels = ["%s/%s" % tuple(c) for c in case["conf"]]
    if r.const:
        labels.append("trivial")
    if len(np.unique(x)) < r.n or len(np.unique(y)) < r.n:
        labels.append("ties")
    if r.n > 64:
        labels.append("n>64")
    return labels


def check_atoms(case):
    u, w, i, j = gen.build_atoms(case)
    r = Atoms(u, w, i, j)
    x, y = u[i], w[j]
    for m in ("avl", "mergesort", "auto"):
        for c in ("AUTO", "COMPILE_CPU"):
            kw = dict(method=m, compile_mode=COMPILE[c])
            tag = f"[{m}/{c}]"
            close(call(dcor.distance_covariance_sqr, x, y, **kw), r.cov(),
                  r.tol(r.A, r.B), "distance_covariance_sqr" + tag)
            close(call(dcor.u_distance_covariance_sqr, x, y, **kw), r.cov(True),
                  r.tol(r.A, r.B), "u_distance_covariance_sqr" + tag)
        s = call(dcor.distance_stats_sqr, x, y, method=m)
        close(s.variance_x, r.varx(), r.tol(r.A, r.A), "variance_x" + tag)
        close(s.variance_y, r.vary(), r.tol(r.B, r.B), "variance_y" + tag)
    return ["trivial"] if len(set(i)) < 2 or len(set(j)) < 2 else []


@st.composite
def big(draw):
    n = draw(st.one_of(st.integers(900, 30000),
                       st.sampled_from([1023, 1024, 1025, 2047, 2048, 2049,
                                        4095, 4096, 4097, 8191, 8192, 8193,
                                        16384, 16385, 32767, 32768, 32769])))
    case = {"x": draw(gen.sample(n, 0, gen.RICH + ("signs", "bin"), True, False)),
            "y": draw(gen.second(n, 0, gen.RICH, True, False))}
    flat = draw(st.integers(0, 11))
    if flat < 2:
        case["xy"[flat]] = draw(gen.sample(n, 0, ("const",), True, False))
    return case


def _scale(x, y):
    """Product of the spreads (0 when a sample is constant) and tolerance."""
    d = float(x.max() - x.min()) * float(y.max() - y.min())
    size = d or float(abs(x).max()) * float(abs(y).max())
    return d, (1e-12 + 4e-16 * len(x)) * size


def check_big(case):
    x, y = gen.build_pair(case)
    n = len(x)
    d, tol = _scale(x, y)
    got = {}
    for m in ("avl", "mergesort", "auto") + (("naive",) if n <= 1500 else ()):
        got[m] = (num(call(dcor.distance_covariance_sqr, x, y, method=m)),
                  num(call(dcor.u_distance_covariance_sqr, x, y, method=m)))
    base = got["naive" if "naive" in got else "mergesort"]
    if not d:
        base = (0.0, 0.0)  # a constant sample
    for m, v in got.items():
        for k in (0, 1):
            expect(abs(v[k] - base[k]) <= tol,
                   f"{'u_' * k}distance_covariance_sqr with n={n}: {m} gives "
                   f"{float(v[k])!r}, expected {float(base[k])!r}")
    return [] if d else ["trivial"]


@st.composite
def big_uncompiled(draw):
    n = draw(st.one_of(st.integers(300, 6000), st.integers(6000, 40000),
                       st.sampled_from([2047, 2048, 2049, 4096, 4097, 16383, 16384, 16385,
                                        32767, 32768, 32769, 65535, 65536, 65537, 70000])))
    return {"x": draw(gen.sample(n, 0, gen.FAMILIES, True, False)),
            "y": draw(gen.second(n, 0, gen.FAMILIES, True, False))}


def check_big_uncompiled(case):
    x, y = gen.build_pair(case)
    n = len(x)
    d, tol = _scale(x, y)
    for m in ("avl", "mergesort"):
        v = {c: num(call(dcor.distance_covariance_sqr, x, y, method=m, compile_mode=COMPILE[c]))
             for c in ("COMPILE_CPU", "NO_COMPILE")}
        expect(abs(v["COMPILE_CPU"] - v["NO_COMPILE"]) <= tol,
               f"distance_covariance_sqr with n={n}, {m}: compiled "
               f"{float(v['COMPILE_CPU'])!r}, not compiled {float(v['NO_COMPILE'])!r}")
    return [] if d else ["trivial"]


LEGS = [
    Leg("uncompiled-large", big_uncompiled, check_big_uncompiled, quick=24, thorough=800,
        shards=8, fixed=[{"x": {"n": n, "d": 0, "f": "normal", "s": n},
                          "y": {"n": n, "d": 0, "f": "normal", "s": n + 1}}
                         for n in (4097, 16385, 33000, 66000)]),
    Leg("methods", cases, check, quick=2600, thorough=60000),
    Leg("discrete-large", lambda: gen.atoms_case(200, 60000), check_atoms,
        quick=160, thorough=4000),
    Leg("continuous-large", big, check_big, quick=96, thorough=3000),
]
