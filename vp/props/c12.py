"""C12: permutation p-values."""
import itertools
import math

import dcor
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..api import call, close, expect
from ..core import Leg
from ..oracle import dcenter, ucenter
from ..perm import InjectGenerator, InjectRandomState, Problem, data

ID = "C12"
RULE = (
    "The three permutation tests on generated samples with drawn (injected "
    "through a RandomState/Generator subclass) or recorded permutations; "
    "oracle: (1 + number of permuted statistics above the observed one) / "
    "(resamples + 1), statistics in long double, exact arithmetic (ties "
    "decided exactly) for dyadic data; the statistical leg compares the "
    "frequency with the enumeration of all permutations (Hoeffding bound, "
    "1e-9), at any sample size for data of which one or two observations are "
    "marked (the permuted statistic only depends on where those go). Non-trivial: permutations were consumed and at least one permuted "
    "statistic differs from the observed one."
)


@st.composite
def injected(draw):
    case = draw(data())
    n = len(_pooled(case))
    r = draw(st.one_of(st.integers(0, 6), st.integers(1, 25)))
    perms = []
    for _ in range(r):
        kind = draw(st.sampled_from(["explicit", "seed", "seed", "identity", "reverse", "swap"]))
        if kind == "explicit" and n <= 8:
            perms.append(list(draw(st.permutations(range(n)))))
        elif kind == "identity":
            perms.append(list(range(n)))
        elif kind == "reverse":
            perms.append(list(range(n))[::-1])
        elif kind == "swap":
            p = list(range(n))
            i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
            p[i], p[j] = p[j], p[i]
            perms.append(p)
        else:
            perms.append([int(v) for v in
                          np.random.RandomState(draw(gen.SEED)).permutation(n)])
    case["perms"] = perms
    case["rng"] = draw(st.sampled_from(["RandomState", "RandomState", "Generator"]))
    case["n_jobs"] = draw(st.sampled_from([None, "default", 1]))
    return case


def _pooled(case):
    if case["test"] == "energy":
        return np.zeros(sum(_len(s) for s in case["samples"]))
    return np.zeros(_len(case["samples"][0]))


def _len(s):
    return s["n"] if "n" in s else len(s["v"]) // max(s["d"], 1)


def _kw(case):
    if case.get("n_jobs", "default") == "default":
        return {}
    return {"n_jobs": case["n_jobs"]}


def on_grid(p, r, what):
    k = p * (r + 1)
    expect(math.isfinite(p) and abs(k - round(k)) < 1e-6 and 1 <= round(k) <= r + 1,
           f"{what}: pvalue {p!r} is not a multiple of 1/{r + 1} in (0, 1]")
    return int(round(k))


def judge(pb, res, rng, r, labels):
    what = f"{pb.fun.__name__} with {r} resamples"
    p = float(res.pvalue)
    k = on_grid(p, r, what)
    close(res.statistic, pb.observed, max(pb.tol, 1e-12 * pb.scale), what + ": statistic")
    expect(rng.foreign or not 0 < len(rng.used) < r or any(
        sorted(q) != list(range(pb.n)) for q in rng.used),
        f"{what}: only {len(rng.used)} permutations were drawn")
    if rng.foreign or len(rng.used) != r:
        return labels + ["trivial", "not-consumed"]
    for q in rng.used:
        if sorted(q) != list(range(pb.n)):
            return labels + ["trivial", "not-consumed"]
    lo, hi = pb.bounds(rng.used)
    if not lo + 1 <= k <= hi + 1:
        # the same test may apply the inverse permutations
        lo2, hi2 = pb.bounds([np.argsort(q) for q in rng.used])
        expect(lo2 + 1 <= k <= hi2 + 1,
               f"{what}: pvalue {p!r} = {k}/{r + 1}, but {lo}..{hi} of the {r} permuted "
               f"statistics are above the observed one (expected {lo + 1}..{hi + 1} over {r + 1})")
        labels.append("inverse")
    if lo != hi:
        labels.append("rounding-ties")
    if lo == 0 and hi == r or r == 0 or pb.scale == 0:
        labels.append("trivial")
    return labels


def check(case):
    pb = Problem(case)
    if not pb.ok:
        return ["trivial", "degenerate"]
    cls = InjectGenerator if case["rng"] == "Generator" else InjectRandomState
    rng = cls(case["perms"])
    r = len(case["perms"])
    res = pb.run(num_resamples=r, random_state=rng, **_kw(case))
    return judge(pb, res, rng, r, [case["test"], "exact" if case["exact"] else "rounded"])


@st.composite
def recorded(draw, lo=4, hi=30, large=False, many=False):
    case = draw(data(lo=lo, hi=hi, exact=False if large else None))
    if large:
        case["r"] = draw(st.one_of(st.integers(1, 300), st.sampled_from(
            [500, 512, 513, 999, 1000, 1001, 1024, 1025, 1500])))
    elif many:
        case["r"] = draw(st.one_of(st.integers(400, 3000), st.sampled_from(
            [512, 600, 1000, 1023, 1025, 2000, 2049, 2500, 4097, 5000])))
    else:
        case["r"] = draw(st.one_of(st.integers(1, 60),
                                   st.sampled_from([64, 99, 100, 128, 199, 250, 500, 999])))
    case["seed"] = draw(gen.SEED)
    case["rng"] = draw(st.sampled_from(["RandomState", "Generator"]))
    case["n_jobs"] = draw(st.sampled_from(["default", 1, None]))
    return case


def check_recorded(case):
    pb = Problem(case)
    if not pb.ok:
        return ["trivial", "degenerate"]
    cls = InjectGenerator if case["rng"] == "Generator" else InjectRandomState
    rng = cls(None, case["seed"])
    res = pb.run(num_resamples=case["r"], random_state=rng, **_kw(case))
    return judge(pb, res, rng, case["r"], [case["test"]])


@st.composite
def frequency(draw):
    case = draw(data(tests=("dcov", "dcov", "energy", "pdcov"), hi=6, exact=False, lo=4))
    case["seed"] = draw(gen.SEED)
    case["rng"] = draw(st.sampled_from(["RandomState", "Generator", "int"]))
    case["r"] = 2500
    return case


def check_frequency(case):
    pb = Problem(case)
    if not pb.ok or pb.n > 6:
        return ["trivial"]
    lo, hi = pb.bounds([np.array(p) for p in itertools.permutations(range(pb.n))])
    tot = math.factorial(pb.n)
    rng = {"RandomState": np.random.RandomState, "Generator": np.random.default_rng,
           "int": int}[case["rng"]](case["seed"])
    r = case["r"]
    res = pb.run(num_resamples=r, random_state=rng)
    k = on_grid(float(res.pvalue), r, pb.fun.__name__) - 1
    eps = math.sqrt(math.log(2 / 1e-9) / (2 * r))
    expect(lo / tot - eps <= k / r <= hi / tot + eps,
           f"{pb.fun.__name__}: {k} of {r} random permutations exceed the observed statistic, "
           f"but {lo}..{hi} of all {tot} do")
    return ["trivial"] if lo == 0 and hi == tot else [case["test"]]


@st.composite
def tiny(draw):
    """So few observations that every single permutation counts."""
    test = draw(st.sampled_from(["energy", "energy", "dcov"]))
    if test == "energy":
        sizes = list(draw(st.sampled_from([(1, 2), (2, 1), (2, 1), (2, 2)])))
        n = sum(sizes)
    else:
        n = draw(st.sampled_from([2, 4, 4]))
        sizes = [n, n]
    # small integers and sizes: the statistics are exact up to a common factor
    case = {"test": test, "exact": True, "samples": [
        {"v": draw(st.lists(gen.values("int"), min_size=k, max_size=k)), "d": 0}
        for k in sizes]}
    case["seed"] = draw(gen.SEED)
    case["rng"] = draw(st.sampled_from(["RandomState", "Generator", "int"]))
    case["r"] = 6000 if n < 4 else 25000
    return case


@st.composite
def marked(draw, lo=7, hi=300, r=(1500, 3000)):
    """One or two marked observations: the statistic depends only on where they go."""
    test = draw(st.sampled_from(["dcov", "energy", "pdcov"]))
    n = draw(gen.sizes(lo, hi))
    case = {"test": test, "n": n, "s": draw(gen.SEED), "seed": draw(gen.SEED),
            "order": draw(st.sampled_from(["sorted", "reversed", "middle", "random"])),
            "rng": draw(st.sampled_from(["RandomState", "Generator", "int"])),
            "r": draw(st.sampled_from(r)),
            "n_jobs": draw(st.sampled_from(["default", 1, None]))}
    k = 2 if test == "pdcov" else draw(st.sampled_from([1, 1, 2]))
    pos = st.one_of(st.integers(0, n - 1), st.sampled_from([0, 1, n // 2, n - 2, n - 1]))
    case["at"] = sorted(draw(st.lists(pos, min_size=k, max_size=k, unique=True)))
    return case


def check_marked(case):
    n, at = case["n"], case["at"]
    k = len(at)
    v = np.sort(np.exp(np.random.RandomState(case["s"]).normal(size=n)))
    if case["order"] == "reversed":
        v = v[::-1].copy()
    elif case["order"] == "middle":
        v = np.concatenate([v[::2], v[1::2][::-1]])
    elif case["order"] == "random":
        v = np.random.RandomState(case["s"] + 1).permutation(v)
    rng = {"RandomState": np.random.RandomState, "Generator": np.random.default_rng,
           "int": int}[case["rng"]](case["seed"])
    r = case["r"]
    kw = dict(_kw(case), num_resamples=r, random_state=rng)
    d = np.abs(v[:, None] - v[None, :])
    test = case["test"]
    if test == "energy":
        res = call(dcor.homogeneity.energy_test, v[at], np.delete(v, at), **kw)
        # the marked observations are the first sample
        rows, total = d.sum(axis=1), d.sum()
        if k == 1:
            own, cross = np.zeros(n), rows
        else:
            own, cross = 2 * d, rows[:, None] + rows[None, :] - 2 * d
        m = n - k
        value = k * m / n * (2 * cross / (k * m) - own / k ** 2
                             - (total - 2 * cross - own) / m ** 2)
    else:
        x = np.zeros(n)
        x[at] = 1
        if test == "dcov":
            res = call(dcor.independence.distance_covariance_test, x, v, **kw)
            b = dcenter(d).astype(float)
            t = np.diag(b)
            value = -2 / n * (t if k == 1 else t[:, None] + t[None, :] + 2 * b)
        else:
            res = call(dcor.independence.partial_distance_covariance_test, x, v,
                       np.ones(n), **kw)
            value = -4 / (n - 3) * ucenter(d).astype(float)
    obs = value[tuple(at)]
    values = value if k == 1 else value[np.triu_indices(n, 1)]
    tol = 1e-11 * n * float(v.max())
    name = f"{test} test with {n} observations of which {at} are marked"
    close(res.statistic, obs, tol, name)
    above = on_grid(float(res.pvalue), r, name) - 1
    lo, hi = np.mean(values > obs + tol), np.mean(values >= obs - tol)
    eps = math.sqrt(math.log(2 / 1e-9) / (2 * r))
    expect(lo - eps <= above / r <= hi + eps,
           f"{name}: {above} of {r} random permutations exceed the observed statistic; "
           f"a proportion {lo:.3f}..{hi:.3f} of all do")
    return [test, case["order"]] + (["trivial"] if lo < eps and hi > 1 - eps else [])


LEGS = [
    Leg("injected", injected, check, quick=2400, thorough=60000),
    Leg("recorded", recorded, check_recorded, quick=500, thorough=12000),
    Leg("recorded-large", lambda: recorded(lo=30, hi=220, large=True), check_recorded,
        quick=40, thorough=1200, shards=8),
    Leg("many-resamples", lambda: recorded(hi=16, many=True), check_recorded,
        quick=48, thorough=1500, shards=8),
    Leg("marked", marked, check_marked, quick=160, thorough=6000, shards=8),
    Leg("marked-large", lambda: marked(lo=400, hi=1300, r=(400, 600)), check_marked,
        quick=32, thorough=800, shards=8),
    Leg("tiny-samples", tiny, check_frequency, quick=48, thorough=3000, shards=8),
    Leg("frequency", frequency, check_frequency, quick=40, thorough=1500),
]
