"""C06: invariances of the dependence measures and of the energy distance."""
import dcor
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..api import METHOD_ENUM, call, check_corr, close, expect, num
from ..core import Leg
from ..oracle import LD, Ref, cov_tol, dist, energy

ID = "C06"
RULE = (
    "Pairs of samples and a transformation (exchange of the samples, joint "
    "reordering, translation, rotation/reflection, column permutation, "
    "rescaling); oracle: metamorphic relation between the two evaluations, "
    "with a tolerance that includes the rounding of the transformed input as "
    "measured in long double. Non-trivial: the transformation is not the "
    "identity and no sample is constant."
)

FUNS = ("distance_covariance_sqr", "distance_covariance", "u_distance_covariance_sqr",
        "distance_correlation_sqr", "distance_correlation",
        "u_distance_correlation_sqr")


@st.composite
def cases(draw, lo=4, hi=120, wide=False, big=False):
    uni = draw(st.integers(0, 1)) == 0
    case = draw(gen.big_pair() if big else gen.wide_pair() if wide else
                gen.pair(lo=lo, hi=hi, maxd=5, univariate=True if uni else False))
    x, y = gen.build_pair(case)
    uni = all(a.ndim == 1 or a.shape[1] == 1 for a in (x, y))
    case["fun"] = draw(st.sampled_from(FUNS))
    if uni:
        case["m"] = draw(st.sampled_from(["auto", "naive", "avl", "mergesort"]))
        case["e"] = 1.0 if case["m"] != "naive" else draw(gen.exponents())
    else:
        case["m"] = draw(st.sampled_from(["auto", "naive"]))
        case["e"] = draw(gen.exponents())
    case["t"] = draw(st.sampled_from(["swap", "perm", "shift", "rotate", "scale",
                                      "reflect", "columns", "reverse"]))
    case["ts"] = draw(gen.SEED)
    case["b"] = [draw(st.sampled_from([2.0, -1.0, 0.5, 3.0, -0.1, 1e3, 1e-4, 1e8, 1e-9])),
                 draw(st.sampled_from([1.0, 1.0, -2.0, 0.25, 7.0, 1e-6]))]
    case["c"] = draw(st.sampled_from([1.0, -17.5, 1e3, 1e6, -1e9]))
    return case


def _lin(x, q):
    """x @ q with identical results for identical rows."""
    out = np.zeros((x.shape[0], q.shape[1]))
    for k in range(q.shape[1]):
        acc = np.zeros(x.shape[0])
        for j in range(q.shape[0]):
            acc = acc + x[:, j] * q[j, k]
        out[:, k] = acc
    return out


def transform(x, y, case):
    """Return transformed x, y and the factor of the covariance."""
    t = case["t"]
    e = case["e"]
    rng = np.random.RandomState(case["ts"])
    n = x.shape[0]
    if t == "swap":
        return y, x, 1.0
    if t == "perm":
        p = rng.permutation(n)
        return x[p], y[p], 1.0
    if t == "reverse":
        return x[::-1], y[::-1], 1.0
    if t == "shift":
        s = float(np.max(np.abs(x - x.mean(axis=0)))) or 1.0
        c = case["c"] * s
        if abs(case["c"]) >= 1e6:
            c = np.ldexp(1.0, int(np.round(np.log2(abs(c))))) * np.sign(c)
        return x + c, y - 3.0 * (float(np.max(np.abs(y - y.mean(axis=0)))) or 1.0), 1.0
    if t == "scale":
        b1, b2 = case["b"]
        return x * b1, y * b2, float(LD(abs(b1)) ** LD(e) * LD(abs(b2)) ** LD(e))
    if t == "reflect":
        return -x, y, 1.0
    if t == "columns":
        if x.ndim == 2:
            return np.ascontiguousarray(x[:, rng.permutation(x.shape[1])]), y, 1.0
        return x[:, None], y, 1.0
    if t == "rotate":
        if x.ndim == 2 and x.shape[1] > 1:
            q, _ = np.linalg.qr(rng.normal(size=(x.shape[1],) * 2))
            return _lin(x, q), y, 1.0
        return -x, y, 1.0
    raise ValueError(t)


def check(case):
    x, y = gen.build_pair(case)
    e = case["e"]
    fun = case["fun"]
    unb = fun.startswith("u_")
    kw = dict(method=case["m"])
    if e != 1.0:
        kw["exponent"] = e
    x2, y2, factor = transform(x, y, case)
    f = getattr(dcor, fun)
    g1 = num(call(f, x, y, **kw), fun)
    g2 = num(call(f, x2, y2, **kw), fun + f" after {case['t']}")
    r1 = Ref(x, y, e, unbiased=unb)
    r2 = Ref(x2, y2, e, unbiased=unb)
    expect(np.isfinite(g1) and np.isfinite(g2), f"{fun}: {g1}, {g2}")
    what = f"{fun} under {case['t']}"
    labels = [case["t"], fun]
    if "covariance" in fun:
        if not fun.endswith("_sqr"):
            g1, g2 = g1 * g1, g2 * g2
            c1, c2 = max(r1.cov, 0), max(r2.cov, 0)
        else:
            c1, c2 = r1.cov, r2.cov
        tol = r1.tcov * factor + r2.tcov + 4 * abs(c1 * factor - c2)
        expect(abs(g1 * factor - g2) <= tol,
               f"{what}: {float(g1)!r} * {factor!r} became {float(g2)!r} "
               f"(tolerance {float(tol):.3g})")
    else:
        if r1.const or r2.const:
            expect(abs(g1) <= 1e-6 and (abs(g2) <= 1e-6 or not r2.const),
                   f"{what}: {float(g1)!r} and {float(g2)!r} with a constant sample")
        elif not (r1.degenerate or r2.degenerate):
            if not fun.endswith("_sqr"):
                g1, g2 = g1 * g1, g2 * g2
            tol = r1.tr2 + r2.tr2 + 4 * abs(r1.r2 - r2.r2)
            expect(abs(g1 - g2) <= tol,
                   f"{what}: {float(g1)!r} became {float(g2)!r} (tolerance {float(tol):.3g})")
    if r1.const:
        labels.append("trivial")
    return labels


# Energy distance ----------------------------------------------------------

@st.composite
def energy_cases(draw, lo=2, hi=60, wide=False):
    d = draw(gen.wide_dims() if wide else gen.dims(4))
    n, m = draw(gen.sizes(lo, hi)), draw(gen.sizes(lo, hi))
    return {"x": draw(gen.sample(n, d)), "y": draw(gen.sample(m, d)),
            "e": draw(gen.exponents()), "u": draw(st.booleans()),
            "t": draw(st.sampled_from(["swap", "permx", "permy", "shift", "rotate",
                                       "scale", "reflect"])),
            "stat": draw(st.booleans()),
            "b": draw(st.sampled_from([2.0, -3.0, 1e-5, 1e6, 0.1])),
            "c": draw(st.sampled_from([1.0, -20.0, 1e3])), "ts": draw(gen.SEED)}


def check_energy(case):
    x, y = gen.build(case["x"]), gen.build(case["y"])
    e = case["e"]
    rng = np.random.RandomState(case["ts"])
    t = case["t"]
    factor = 1.0
    if t == "swap":
        x2, y2 = y, x
    elif t == "permx":
        x2, y2 = x[rng.permutation(len(x))], y
    elif t == "permy":
        x2, y2 = x, y[rng.permutation(len(y))]
    elif t == "shift":
        s = float(max(np.max(np.abs(x)), np.max(np.abs(y)))) or 1.0
        x2, y2 = x + case["c"] * s, y + case["c"] * s
    elif t == "scale":
        x2, y2 = x * case["b"], y * case["b"]
        factor = float(LD(abs(case["b"])) ** LD(e))
    elif t == "reflect" or x.ndim == 1 or x.shape[1] == 1:
        x2, y2 = -x, -y
    else:
        q, _ = np.linalg.qr(rng.normal(size=(x.shape[1],) * 2))
        x2, y2 = _lin(x, q), _lin(y, q)
    f = dcor.homogeneity.energy_test_statistic if case["stat"] else dcor.energy_distance
    kw = dict(exponent=e, estimation_stat="u" if case["u"] else "v")
    g1 = num(call(f, x, y, **kw))
    g2 = num(call(f, x2, y2, **kw))
    w1, w2 = energy(x, y, e, case["u"]), energy(x2, y2, e, case["u"])
    k = len(x) * len(y) / (len(x) + len(y)) if case["stat"] else 1.0
    dm = max(float(np.max(dist(np.concatenate([x, y]), e=e))), 0.0)
    tol = k * (1e-12 * dm * factor * 4 + 4 * float(abs(w1 * factor - w2))) + 1e-300
    expect(np.isfinite(g1) and np.isfinite(g2) and abs(g1 * factor - g2) <= tol,
           f"{f.__name__} under {t}: {float(g1)!r} * {factor!r} became {float(g2)!r} "
           f"(tolerance {tol:.3g})")
    return [t] + (["trivial"] if dm == 0 else [])


LEGS = [
    Leg("dependence", cases, check, quick=4000, thorough=100000),
    Leg("larger", lambda: cases(lo=100, hi=600), check, quick=96, thorough=2400),
    Leg("wide", lambda: cases(wide=True), check, quick=240, thorough=6000),
    Leg("big", lambda: cases(big=True), check, quick=8, thorough=160),
    Leg("energy-big", lambda: energy_cases(lo=1020, hi=1300), check_energy, quick=6,
        thorough=120),
    Leg("energy-larger", lambda: energy_cases(lo=60, hi=400), check_energy, quick=64, thorough=1600),
    Leg("energy-wide", lambda: energy_cases(hi=30, wide=True), check_energy, quick=160, thorough=4000),
    Leg("energy", energy_cases, check_energy, quick=1500, thorough=30000),
]
