"""C10: energy distance."""
import dcor
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..api import call, close, expect, num
from ..core import Leg
from ..oracle import dist, energy

ID = "C10"
RULE = (
    "Two samples of different sizes (n, m >= 1 for V, >= 2 for U), same "
    "columns, exponent, estimation statistic as enum or string in any case, "
    "optional average function; oracle: 2 avg|X-Y| - avg|X-X'| - avg|Y-Y'| "
    "in long double (U: without the diagonal), symmetry and, for the plain V "
    "statistic, non-negativity. Non-trivial: the samples are not all one point."
)

AVERAGES = {
    "mean": np.mean, "median": np.median, "max": np.max,
    "rms": lambda a: np.sqrt(np.mean(np.asarray(a) ** 2)),
    "half": lambda a: 0.5 * np.mean(a),
    "trim": lambda a: np.mean(np.sort(np.asarray(a).reshape(-1))[: max(1, (np.asarray(a).size + 1) // 2)]),
}
U = ("u", "U", "u_statistic", "U_STATISTIC", "U_Statistic")
V = ("v", "V", "v_statistic", "V_STATISTIC", "V_Statistic")


def stat_arg(spec):
    """None (default), enum or string."""
    if spec is None:
        return {}
    if spec.startswith("!"):
        return {"estimation_stat": dcor.EstimationStatistic.U_STATISTIC
                if spec == "!u" else dcor.EstimationStatistic.V_STATISTIC}
    return {"estimation_stat": spec}


def is_u(spec):
    return spec is not None and spec.strip("!").lower().startswith("u")


STATS = st.sampled_from([None, "!u", "!v", "!u", "!v"] + list(U) + list(V))


@st.composite
def cases(draw, hi=80, wide=False, lo=1):
    stat = draw(STATS)
    lo = max(lo, 2 if is_u(stat) else 1)
    d = draw(gen.wide_dims() if wide else gen.dims(5))
    d2 = d if d > 1 else draw(st.sampled_from([0, 1]))
    case = {"x": draw(gen.sample(draw(gen.sizes(lo, hi)), d)),
            "y": draw(gen.sample(draw(gen.sizes(lo, hi)), d2)), "stat": stat}
    e = draw(st.one_of(st.none(), gen.exponents()))
    if e is not None:
        case["e"] = e
    if draw(st.integers(0, 3)) == 0:
        case["avg"] = draw(st.sampled_from(sorted(AVERAGES)))
    if draw(st.integers(0, 4)) == 0:
        case["dup"] = draw(gen.SEED)
    elif draw(st.integers(0, 3)) == 0:
        case["rel"] = draw(st.sampled_from(gen.RELATED))
        case["s"] = draw(gen.SEED)
    return case


def build(case):
    x, y = gen.build(case["x"]), gen.build(case["y"])
    if "dup" in case:      # y is made of points of x
        rng = np.random.RandomState(case["dup"])
        y = x[rng.randint(len(x), size=len(y))]
    if "rel" in case:
        y = gen.related(x, case["rel"], case["s"])
        if is_u(case["stat"]) and len(y) < 2:
            y = np.concatenate([y, y])
    return x, y


def check(case):
    x, y = build(case)
    e = case.get("e", 1.0)
    u = is_u(case["stat"])
    kw = stat_arg(case["stat"])
    if "e" in case:
        kw["exponent"] = e
    avg = None
    if "avg" in case:
        avg = kw["average"] = AVERAGES[case["avg"]]
    x2 = x[:, None] if x.ndim == 1 else x
    y2 = y[:, None] if y.ndim == 1 else y
    dm = float(np.max(dist(np.concatenate([x2, y2]), e=e)))
    want = energy(x, y, e, u, avg)
    tol = 1e-13 * (20 + len(x2) + len(y2)) * dm + 1e-300
    g = call(dcor.energy_distance, x, y, **kw)
    close(g, want, tol, "energy_distance")
    close(call(dcor.energy_distance, y, x, **kw), want, tol, "energy_distance(y, x)")
    if avg is None and not u:
        expect(num(g) >= -tol, f"V energy distance {g!r} is negative")
    want = energy(x, x, e, u, avg)
    close(call(dcor.energy_distance, x, x.copy(), **kw), want, tol, "energy_distance(x, x)")
    close(call(dcor.energy_distance, x, x, **kw), want, tol,
          "energy_distance(x, x) of the same object")
    labels = ["U" if u else "V"]
    if "rel" in case:
        labels.append("related=" + case["rel"])
    if "avg" in case:
        labels.append("avg")
    if len(x2) != len(y2):
        labels.append("n!=m")
    if dm == 0:
        labels.append("trivial")
    return labels


NAMES = U + V


def check_names(case):
    s = "".join(c.upper() if up else c.lower() for c, up in zip(case["name"], case["up"]))
    got = call(dcor.EstimationStatistic.from_string, s)
    want = (dcor.EstimationStatistic.U_STATISTIC if s.lower().startswith("u")
            else dcor.EstimationStatistic.V_STATISTIC)
    expect(got is want, f"EstimationStatistic.from_string({s!r}) = {got!r}")
    return []


LEGS = [
    Leg("energy", cases, check, quick=4000, thorough=100000),
    Leg("larger", lambda: cases(hi=600), check, quick=100, thorough=3000),
    Leg("big", lambda: cases(lo=1020, hi=1300), check, quick=8, thorough=160),
    Leg("wide", lambda: cases(hi=30, wide=True), check, quick=300, thorough=8000),
    Leg("names", lambda: st.fixed_dictionaries({
        "name": st.sampled_from(["u", "v", "u_statistic", "v_statistic"]),
        "up": st.lists(st.booleans(), min_size=11, max_size=11)}),
        check_names, quick=100, thorough=400),
]
