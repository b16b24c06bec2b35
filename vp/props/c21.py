"""C21: zero exactly for independence / equal distributions."""
import dcor
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..api import call, close, expect, num
from ..core import Leg
from ..oracle import Ref, cov_tol, dist, energy

ID = "C21"
RULE = (
    "Joint samples that are exactly a product (every value of x with every "
    "value of y, with product multiplicities, in any order) and samples that "
    "are not (one cell changed, dependent data); pairs of samples with equal "
    "empirical distribution (permuted, repeated) and with different ones; any "
    "exponent, dimension and method; samples with every observation repeated. "
    "Oracle: the biased distance covariance/correlation (V energy distance) "
    "is zero up to rounding in the first case and positive in the second, and "
    "unchanged by repeating every observation. Non-trivial: at least two "
    "different values in each sample."
)


def _distinct(draw, k, d):
    m = max(d, 1)
    pts = st.tuples(*[st.integers(-8, 8)] * m)
    return [list(map(float, p)) for p in draw(st.lists(pts, min_size=k, max_size=k, unique=True))]


@st.composite
def product_cases(draw, lo=2, hi=5):
    p, q = draw(st.integers(lo, hi)), draw(st.integers(lo, hi))
    dx, dy = draw(st.sampled_from([0, 0, 1, 2])), draw(st.sampled_from([0, 0, 1, 2]))
    case = {"u": _distinct(draw, p, dx), "w": _distinct(draw, q, dy), "dx": dx, "dy": dy,
            "a": draw(st.lists(st.integers(1, 3), min_size=p, max_size=p)),
            "b": draw(st.lists(st.integers(1, 3), min_size=q, max_size=q)),
            "s": draw(gen.SEED), "change": draw(st.booleans()),
            "k": draw(st.sampled_from([1.0, 1.0, 0.1, 1e3, 1e-4, 1e-9, 1e-14, 1e9])),
            "l": draw(st.sampled_from([1.0, 1.0, 1.0, 0.1, 1e-5, 1e-9, 1e-14, 1e9])),
            "o": draw(st.sampled_from([0.0, 0.0, 5.3, 1e5]))}
    e = draw(st.one_of(st.none(), gen.exponents()))
    if e is not None:
        case["e"] = e
    if dx < 2 and dy < 2 and case.get("e", 1.0) == 1.0:
        case["m"] = draw(st.sampled_from(["auto", "avl", "mergesort", "naive"]))
    return case


def check_product(case):
    u, w = np.array(case["u"]) * case["k"] + case["o"] * case["k"], np.array(case["w"]) * case["l"]
    rng = np.random.RandomState(case["s"])
    i, j = [], []
    for s, a in enumerate(case["a"]):
        for t, b in enumerate(case["b"]):
            i += [s] * (a * b)
            j += [t] * (a * b)
    i, j = np.array(i), np.array(j)
    if case["change"]:
        # move one observation to another cell: no longer a product
        r = rng.randint(len(i))
        j[r] = (j[r] + 1 + rng.randint(len(w) - 1)) % len(w)
    order = rng.permutation(len(i))
    x, y = u[i[order]], w[j[order]]
    if case["dx"] == 0:
        x = x[:, 0]
    if case["dy"] == 0:
        y = y[:, 0]
    e = case.get("e", 1.0)
    kw = {}
    if "e" in case:
        kw["exponent"] = e
    if "m" in case:
        kw["method"] = case["m"]
    a, b = dist(x, e=e), dist(y, e=e)
    t = cov_tol(a, b)
    c2 = num(call(dcor.distance_covariance_sqr, x, y, **kw), "distance_covariance_sqr")
    c = num(call(dcor.distance_covariance, x, y, **kw), "distance_covariance")
    r = num(call(dcor.distance_correlation_sqr, x, y, **kw), "distance_correlation_sqr")
    st_ = call(dcor.independence.distance_covariance_test, x, y, num_resamples=0,
               **({"exponent": e} if "e" in case else {}))
    if not case["change"]:
        expect(abs(c2) <= t, f"distance_covariance_sqr {float(c2)!r} of an exact product sample")
        expect(0 <= c <= np.sqrt(t) * 1.01, f"distance_covariance {float(c)!r} of an exact product")
        expect(abs(num(st_.statistic)) <= len(x) * t, f"test statistic {st_.statistic!r} of an "
                                                      "exact product sample")
        ref = Ref(x, y, e)
        expect(abs(r) <= ref.tr2 + 1e-12, f"distance_correlation_sqr {float(r)!r} of an exact product")
        return ["product", f"m={case.get('m')}"]
    ref = Ref(x, y, e)
    if ref.const:
        return ["trivial"]
    if ref.cov > 100 * ref.tcov:
        expect(c2 > 0 and c > 0 and r > 0,
               f"dependent sample: distance covariance {float(c2)!r}, correlation {float(r)!r}")
        expect(num(st_.statistic) > 0, f"dependent sample: statistic {st_.statistic!r}")
        return ["dependent", f"m={case.get('m')}"]
    return ["trivial"]


@st.composite
def repeat_cases(draw, lo=2, hi=40):
    case = draw(gen.pair(lo=lo, hi=hi, maxd=3))
    case["r"] = draw(st.integers(2, 4))
    case["s"] = draw(gen.SEED)
    case["how"] = draw(st.sampled_from(["tile", "repeat", "shuffle"]))
    e = draw(st.one_of(st.none(), gen.exponents()))
    if e is not None:
        case["e"] = e
    case["m"] = draw(st.sampled_from(["auto", "naive", "avl", "mergesort"]))
    return case


def check_repeat(case):
    x, y = gen.build_pair(case)
    n, r, e = len(x), case["r"], case.get("e", 1.0)
    kw = {}
    if "e" in case:
        kw["exponent"] = e
    uni = all(a.ndim == 1 or a.shape[1] == 1 for a in (x, y))
    if uni and e == 1.0 and n >= 4:
        kw["method"] = case["m"]
    idx = np.tile(np.arange(n), r) if case["how"] == "tile" else np.repeat(np.arange(n), r)
    if case["how"] == "shuffle":
        idx = np.random.RandomState(case["s"]).permutation(idx)
    big = Ref(x[idx], y[idx], e)
    t = big.tcov * 2
    s1 = call(dcor.distance_stats_sqr, x, y, **kw)
    s2 = call(dcor.distance_stats_sqr, x[idx], y[idx], **kw)
    close(s2.covariance_xy, num(s1.covariance_xy), t, "covariance of repeated observations")
    close(s2.variance_x, num(s1.variance_x), 2 * big.tvx, "variance of repeated observations")
    close(s2.variance_y, num(s1.variance_y), 2 * big.tvy, "variance of repeated observations")
    close(call(dcor.distance_covariance_sqr, x[idx], y[idx], **kw), num(s1.covariance_xy), t,
          "distance_covariance_sqr of repeated observations")
    if not (big.const or big.degenerate):
        close(s2.correlation_xy, num(s1.correlation_xy), 2 * big.tr2,
              "correlation of repeated observations")
    ekw = {"exponent": e} if "e" in case else {}
    if x.reshape(n, -1).shape[1] == y.reshape(n, -1).shape[1]:
        mx = float(max(dist(x, y, e).max(), big.a.max(), big.b.max()))
        e1 = call(dcor.energy_distance, x, y, **ekw)
        e2 = call(dcor.energy_distance, x[idx], y, **ekw)
        close(e2, num(e1), 2e-13 * (20 + n * (r + 1)) * mx + 1e-300,
              "energy distance with the observations of a sample repeated")
    return [f"m={kw.get('method')}"] + (["trivial"] if big.const else [])


@st.composite
def same_cases(draw, lo=1, hi=30):
    d = draw(gen.dims(3))
    return {"x": draw(gen.sample(draw(gen.sizes(lo, hi)), d)), "s": draw(gen.SEED),
            "r": draw(st.sampled_from([(1, 1), (1, 2), (3, 2), (2, 2)])),
            "change": draw(st.sampled_from([None, None, "move", "move"] + list(gen.RELATED))),
            "e": draw(gen.exponents()),
            "stat": draw(st.sampled_from([None, "v", "V_STATISTIC"]))}


def check_same(case):
    x = gen.build(case["x"])
    rng = np.random.RandomState(case["s"])
    n = len(x)
    ra, rb = case["r"]
    a = x[rng.permutation(np.repeat(np.arange(n), ra))]
    b = x[rng.permutation(np.repeat(np.arange(n), rb))].copy()
    e = case["e"]
    spread = float(np.max(dist(x))) or float(np.max(np.abs(x))) or 1.0
    change = case["change"]
    if change == "move":
        b[rng.randint(len(b))] += spread * rng.choice([0.5, 1.0, -2.0])
    elif change:
        # another distribution with the same margins, moments, ...
        b = gen.related(b, change, case["s"])
    kw = {"exponent": e}
    if case["stat"]:
        kw["estimation_stat"] = case["stat"]
    mx = float(max(dist(a, b, e).max(), dist(b, e=e).max()))
    t = 1e-13 * (20 + len(a) + len(b)) * mx + 1e-300
    got = num(call(dcor.energy_distance, a, b, **kw), "energy_distance")
    c = len(a) * len(b) / (len(a) + len(b))
    stat = num(call(dcor.homogeneity.energy_test_statistic, a, b, **kw))
    stat2 = num(call(dcor.homogeneity.energy_test, a, b, **kw).statistic)
    if change in (None, "perm", "reverse", "copy"):
        expect(abs(got) <= t, f"energy distance {float(got)!r} of equal distributions")
        expect(abs(stat) <= c * t and abs(stat2) <= c * t * 4,
               f"energy test statistic {float(stat)!r}, {float(stat2)!r} of equal distributions")
        return ["equal"] + (["trivial"] if mx == 0 else [])
    want = energy(a, b, e)
    if want > 100 * t:
        expect(got > 0 and stat > 0 and stat2 > 0,
               f"energy distance {float(got)!r} of different distributions")
        return ["different", f"change={change}"]
    return ["trivial"]


LEGS = [
    Leg("independence", product_cases, check_product, quick=3500, thorough=80000),
    Leg("independence-larger", lambda: product_cases(4, 10), check_product, quick=100,
        thorough=2500),
    Leg("repeated", repeat_cases, check_repeat, quick=2500, thorough=50000),
    Leg("repeated-larger", lambda: repeat_cases(50, 250), check_repeat, quick=60,
        thorough=1500),
    Leg("equal-distributions", same_cases, check_same, quick=3000, thorough=60000),
    Leg("equal-big", lambda: same_cases(500, 700), check_same, quick=6, thorough=120),
    Leg("equal-larger", lambda: same_cases(40, 400), check_same, quick=120, thorough=3000),
]
