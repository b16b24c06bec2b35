"""C11: energy test statistic, also for several samples."""
import dcor
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..api import call, close, expect, num
from ..core import Leg
from ..oracle import LD, dist
from .c10 import AVERAGES, STATS, is_u, stat_arg

ID = "C11"
RULE = (
    "2 to 20 samples of different sizes; oracle: sum over pairs of "
    "n m / (n + m) times the energy distance in long double, for "
    "energy_test_statistic (two samples) and for the statistic of energy_test "
    "(any number), whatever the number of resamples. Non-trivial: not all "
    "points equal."
)


@st.composite
def cases(draw, ks=(2, 2, 2, 3, 3, 4, 5, 6), hi=25, d=gen.dims(4), lo=1):
    stat = draw(STATS)
    lo = max(lo, 2 if is_u(stat) else 1)
    k = draw(st.sampled_from(ks))
    d = draw(d)
    samples = []
    for _ in range(k):
        dd = d if d > 1 else draw(st.sampled_from([0, 1]))
        samples.append(draw(gen.sample(draw(st.one_of(
            st.integers(lo, max(lo, 6)), st.integers(lo, hi))), dd, scales=k == 2)))
    case = {"s": samples, "stat": stat,
            "resamples": draw(st.sampled_from([0, 0, 0, 1, 5])), "rs": draw(gen.SEED)}
    e = draw(st.one_of(st.none(), gen.exponents()))
    if e is not None:
        case["e"] = e
    if draw(st.integers(0, 3)) == 0:
        case["avg"] = draw(st.sampled_from(sorted(AVERAGES)))
    if draw(st.integers(0, 3)) == 0:
        # a sample given twice (the same object) or related to another
        i, j = draw(st.integers(0, k - 1)), draw(st.integers(0, k - 1))
        if i != j:
            case["rel"] = [i, j, draw(st.sampled_from(("object", "object") + gen.RELATED)),
                           draw(gen.SEED)]
    return case


def energy_stat(matrix, sizes, u, avg=None):
    """k-sample statistic from the distance matrix of the pooled sample."""
    avg = avg or np.mean
    ends = np.cumsum(sizes)
    starts = ends - np.asarray(sizes)
    total = LD(0)

    def within(i):
        m = matrix[starts[i]:ends[i], starts[i]:ends[i]]
        return avg(m[np.triu_indices(m.shape[0], 1)] if u else m)
    w = [within(i) for i in range(len(sizes))]
    for i in range(len(sizes)):
        for j in range(i + 1, len(sizes)):
            m = matrix[starts[i]:ends[i], starts[j]:ends[j]]
            total = total + LD(sizes[i] * sizes[j]) / LD(sizes[i] + sizes[j]) * (
                2 * avg(m) - w[i] - w[j])
    return total


def check(case):
    samples = [gen.build(s) for s in case["s"]]
    if "rel" in case:
        i, j, how, seed = case["rel"]
        samples[j] = samples[i] if how == "object" else gen.related(samples[i], how, seed)
        if is_u(case["stat"]) and len(samples[j]) < 2:
            samples[j] = np.concatenate([samples[j]] * 2)
    pooled = np.concatenate([s[:, None] if s.ndim == 1 else s for s in samples])
    sizes = [len(s) for s in samples]
    e = case.get("e", 1.0)
    u = is_u(case["stat"])
    kw = stat_arg(case["stat"])
    if "e" in case:
        kw["exponent"] = e
    avg = None
    if "avg" in case:
        avg = kw["average"] = AVERAGES[case["avg"]]
    m = dist(pooled, e=e)
    dm = float(np.max(m))
    want = energy_stat(m, sizes, u, avg)
    tol = 1e-13 * (20 + len(pooled)) * dm * sum(sizes) * len(sizes) + 1e-300
    if len(samples) == 2:
        close(call(dcor.homogeneity.energy_test_statistic, *samples, **kw), want, tol,
              "energy_test_statistic")
    res = call(dcor.homogeneity.energy_test, *samples, num_resamples=case["resamples"],
               random_state=case["rs"], **kw)
    close(res.statistic, want, tol, f"energy_test of {len(samples)} samples")
    if case["resamples"] == 0:
        expect(float(res.pvalue) == 1.0, f"energy_test without resamples: pvalue {res.pvalue!r}")
    order = np.random.RandomState(case["rs"]).permutation(len(samples))
    res = call(dcor.homogeneity.energy_test, *[samples[i] for i in order], **kw)
    close(res.statistic, want, tol, "energy_test with the samples in another order")
    if avg is None and not u:
        expect(num(res.statistic) >= -tol, f"V statistic {res.statistic!r} is negative")
    labels = [f"k={len(samples)}"]
    if len(set(sizes)) > 1:
        labels.append("unbalanced")
    if "rel" in case:
        labels.append("related=" + case["rel"][2])
    if dm == 0:
        labels.append("trivial")
    return labels


LEGS = [Leg("statistic", cases, check, quick=4000, thorough=80000),
        Leg("many-samples", lambda: cases(ks=(7, 8, 9, 10, 12, 15, 17, 20), hi=15), check,
            quick=200, thorough=5000),
        Leg("larger", lambda: cases(ks=(2, 3, 4), hi=250), check, quick=100, thorough=2500),
        Leg("big", lambda: cases(ks=(2, 2, 3), lo=500, hi=900), check, quick=8, thorough=160),
        Leg("wide", lambda: cases(hi=12, d=gen.wide_dims()), check, quick=200, thorough=5000)]
