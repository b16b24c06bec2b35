"""C08: partial distance covariance and correlation."""
import dcor
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..api import call, close, expect, num
from ..core import Leg
from ..oracle import EPS, LD, dist, ucenter, uprod

ID = "C08"
RULE = (
    "Triples of samples (n >= 4, any columns, third sample constant, equal to "
    "or dependent on the others, ...); oracle: U-centred matrices projected "
    "on the orthogonal complement, in long double. Non-trivial: no constant "
    "sample and the correlation is well conditioned."
)
ASSUMPTIONS = [
    "The partial correlation is compared only where the projections keep at "
    "least 1e-6 of the norms (elsewhere it is 0/0).",
]


@st.composite
def cases(draw, lo=4, hi=120, wide=False):
    n = draw(gen.sizes(lo, hi))
    d = st.one_of(gen.dims(4), gen.wide_dims()) if wide else gen.dims(4)
    ex = not wide
    case = {"x": draw(gen.sample(n, draw(d), explicit=ex)),
            "y": draw(gen.second(n, draw(d), explicit=ex)),
            "z": draw(gen.second(n, draw(d), explicit=ex)),
            "zof": draw(st.sampled_from(["x", "y"]))}
    return case


def check(case):
    x = gen.build(case["x"])
    y = gen.build_dep(case["y"], x)
    z = gen.build_dep(case["z"], x if case["zof"] == "x" else y)
    n = x.shape[0]
    da, db, dc = dist(x), dist(y), dist(z)
    a, b, c = ucenter(da), ucenter(db), ucenter(dc)
    ma, mb, mc = (float(np.max(t)) for t in (da, db, dc))
    aa, bb, cc = uprod(a, a), uprod(b, b), uprod(c, c)
    ab, ac, bc = uprod(a, b), uprod(a, c), uprod(b, c)
    eps = EPS * (10 + n) * 6
    zconst = not np.any(dc)
    zdeg = (not zconst) and cc < 1e4 * eps * mc * mc
    got = num(call(dcor.partial_distance_covariance, x, y, z))
    labels = []
    trivial = not (np.any(da) and np.any(db)) or zconst
    if zdeg:
        # <C, C> is rounding noise (one-hot like z): anything finite
        expect(np.isfinite(got), f"partial_distance_covariance: {got!r}")
        return ["trivial", "z-degenerate"]
    if zconst:
        want = ab
        tol = eps * ma * mb
        labels.append("z-constant")
    else:
        pa, pb = a - ac / cc * c, b - bc / cc * c
        want = uprod(pa, pb)
        k = float(mc * mc / cc)
        tol = eps * ma * mb * (1 + k) ** 2
    close(got, want, tol + 1e-300, "partial_distance_covariance")
    got = num(call(dcor.partial_distance_covariance, y, x, z))
    close(got, want, tol + 1e-300, "partial_distance_covariance(y, x, z)")
    if not zconst:
        g = num(call(dcor.partial_distance_covariance, x, z, z))
        expect(abs(g) <= eps * ma * mc * (1 + k) ** 2 + 1e-300,
               f"partial_distance_covariance(x, z, z) = {float(g)!r}, expected 0")

    # correlation
    if not np.any(da) or not np.any(db):
        g = num(call(dcor.partial_distance_correlation, x, y, z))
        expect(abs(g) <= 1e-9, f"partial_distance_correlation = {float(g)!r} with a "
                               "constant sample")
        return labels + ["trivial"]
    if zconst:
        naa, nbb = aa, bb
    else:
        naa, nbb = uprod(pa, pa), uprod(pb, pb)
    ok = (naa > 1e-6 * aa and nbb > 1e-6 * bb
          and aa > 1e4 * eps * ma * ma and bb > 1e4 * eps * mb * mb)
    g = num(call(dcor.partial_distance_correlation, x, y, z))
    if ok:
        want = want / np.sqrt(naa * nbb)
        ra = float(ma * ma / aa * aa / naa)
        rb = float(mb * mb / bb * bb / nbb)
        rc = 0.0 if zconst else k
        tol = eps * 20 * (ra + rb + (1 + rc) * np.sqrt(ra * rb)) + 1e-12
        if tol < 1e-3:
            close(g, want, tol, "partial_distance_correlation")
            close(call(dcor.partial_distance_correlation, y, x, z), want, tol,
                  "partial_distance_correlation(y, x, z)")
            expect(-1 - 1e-9 - tol <= g <= 1 + 1e-9 + tol,
                   f"partial_distance_correlation = {float(g)!r} out of [-1, 1]")
            s = num(call(dcor.partial_distance_correlation, x, x, z))
            expect(abs(s - 1) <= 1e-9 + tol,
                   f"partial_distance_correlation(x, x, z) = {float(s)!r}")
            if not zconst:
                s = num(call(dcor.partial_distance_correlation, x, z, z))
                expect(abs(s) <= 1e-5 + tol,
                       f"partial_distance_correlation(x, z, z) = {float(s)!r}, expected 0")
            labels.append("pdcor")
        else:
            trivial = True
    else:
        # 0/0 up to rounding: a number all the same
        expect(np.isfinite(g), f"partial_distance_correlation: {float(g)!r}")
        labels.append("pdcor-degenerate")
    if trivial:
        labels.append("trivial")
    return labels


LEGS = [Leg("partial", cases, check, quick=4000, thorough=100000),
        Leg("larger", lambda: cases(lo=120, hi=500), check, quick=64, thorough=1600),
        Leg("big", lambda: cases(lo=1020, hi=1300), check, quick=8, thorough=160),
        Leg("wide", lambda: cases(hi=40, wide=True), check, quick=300, thorough=8000)]
