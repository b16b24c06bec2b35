"""C13: reproducibility of the permutation tests."""
import copy
import random

import joblib
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..api import expect
from ..core import Leg, Violation
from ..perm import Problem, data

ID = "C13"
RULE = (
    "The three permutation tests with integer seeds, RandomState and "
    "Generator objects, any n_jobs and joblib backend, repeated and "
    "interleaved; oracle: equal results for equal random states whatever "
    "n_jobs, a generator is advanced by the test, the global NumPy generator neither read nor changed, equality "
    "of an integer seed and RandomState(seed). Non-trivial: at least 5 "
    "resamples and a p-value strictly between the extremes is possible "
    "(non-constant data)."
)


@st.composite
def cases(draw, loky=False, large=False):
    case = draw(data(lo=30, hi=220, exact=False) if large else data(hi=20, exact=False))
    case["r"] = (draw(st.integers(2, 8)) if loky else
                 draw(st.sampled_from([100, 128, 129, 200, 256, 300, 512, 600])) if large
                 else draw(st.integers(1, 40)))
    case["seed"] = draw(st.one_of(st.integers(0, 2 ** 32 - 1),
                                  st.sampled_from([0, 0, 1, 2, 42, 2 ** 31, 2 ** 32 - 1])))
    case["jobs"] = draw(st.lists(st.sampled_from([None, 1, 2, 3, 4, -1, -2]),
                                 min_size=1, max_size=3))
    case["kind"] = draw(st.sampled_from(["int", "np.int64", "RandomState", "Generator"]))
    case["noise"] = draw(gen.SEED)
    return case


def _state(case):
    s = case["seed"]
    return {"int": lambda: s, "np.int64": lambda: np.int64(s),
            "RandomState": lambda: np.random.RandomState(s),
            "Generator": lambda: np.random.default_rng(s)}[case["kind"]]()


def _advance(case, pb, r):
    """A generator with the draws of r permutations behind it."""
    g = _state(case)
    pb.run(num_resamples=r, random_state=g)
    return g


def _get(g):
    return g.get_state() if isinstance(g, np.random.RandomState) else g.bit_generator.state


def _set(g, state):
    if isinstance(g, np.random.RandomState):
        g.set_state(state)
    else:
        g.bit_generator.state = state


def _global_state():
    st_ = np.random.get_state()
    return (st_[0], st_[1].tobytes(), st_[2], st_[3], st_[4], random.getstate())


def _same(a, b, what):
    expect(float(a.pvalue) == float(b.pvalue),
           f"{what}: p-values {a.pvalue!r} and {b.pvalue!r}")
    s, t = float(a.statistic), float(b.statistic)
    expect(s == t or abs(s - t) <= 1e-12 * abs(s), f"{what}: statistics {s!r} and {t!r}")


def check(case):
    pb = Problem(case)
    if not pb.ok:
        return ["trivial", "degenerate"]
    name = pb.fun.__name__
    r = case["r"]
    np.random.seed(case["noise"] % 2 ** 32)
    before = _global_state()
    base = pb.run(num_resamples=r, random_state=_state(case))
    expect(_global_state() == before,
           f"{name} changed the global random state (random_state={case['kind']})")
    pb.run(num_resamples=min(r, 3))
    expect(_global_state() == before,
           f"{name} changed the global random state (no random_state given)")
    pb.run(num_resamples=min(r, 3), random_state=None)
    expect(_global_state() == before,
           f"{name} changed the global random state (random_state=None)")
    # same random state, other global state and other calls in between
    np.random.seed((case["noise"] + 1) % 2 ** 32)
    pb.run(num_resamples=1, random_state=case["noise"] % 2 ** 32)
    _same(base, pb.run(num_resamples=r, random_state=_state(case)), name + " repeated")
    if case["kind"] in ("int", "np.int64"):
        _same(base, pb.run(num_resamples=r,
                           random_state=np.random.RandomState(case["seed"])),
              name + " with RandomState(seed) instead of the seed")
    for backend in ("threading",) if not case.get("loky") else ("loky",):
        for j in case["jobs"]:
            with joblib.parallel_config(backend=backend):
                res = pb.run(num_resamples=r, random_state=_state(case), n_jobs=j)
            _same(base, res, f"{name} with n_jobs={j} ({backend})")
    # the state of a generator is all that counts, not the object or its past
    if case["kind"] in ("RandomState", "Generator"):
        g = _state(case)
        saved, copied = _get(g), copy.deepcopy(g)
        _same(base, pb.run(num_resamples=r, random_state=g), name + " with a generator")
        _set(g, saved)
        _same(base, pb.run(num_resamples=r, random_state=g),
              name + " with a generator whose state was restored")
        _same(base, pb.run(num_resamples=r, random_state=copied),
              name + " with a copy of the generator")
    # a shared generator continues its stream deterministically
    if case["kind"] in ("RandomState", "Generator"):
        g1, g2 = _state(case), _state(case)
        saved = copy.deepcopy(g1)
        once = pb.run(num_resamples=r, random_state=g1)
        expect(saved.random_sample(4).tolist() != copy.deepcopy(g1).random_sample(4).tolist()
               if case["kind"] == "RandomState" else
               saved.random(4).tolist() != copy.deepcopy(g1).random(4).tolist(),
               f"{name} did not advance the generator that it was given")
        with joblib.parallel_config(backend="threading"):
            pb.run(num_resamples=r, random_state=g2, n_jobs=case["jobs"][0])
        after = copy.deepcopy(g1)
        _same(pb.run(num_resamples=r, random_state=g1), pb.run(num_resamples=r, random_state=g2),
              name + " with a shared generator, second call")
        _same(pb.run(num_resamples=r, random_state=after),
              pb.run(num_resamples=r, random_state=_advance(case, pb, r)),
              name + " with a shared generator, from a copy")
        _same(once, base, name + " with a shared generator, first call")
        g1, g2 = _state(case), _state(case)
        seq1 = [pb.run(num_resamples=r, random_state=g1) for _ in range(2)]
        seq2 = [pb.run(num_resamples=r, random_state=g2, n_jobs=None) for _ in range(2)]
        for a, b in zip(seq1, seq2):
            _same(a, b, name + " with a shared generator")
        _same(seq1[0], base, name + " with a shared generator, first call")
    labels = [case["kind"], case["test"]]
    if r < 5 or pb.scale == 0:
        labels.append("trivial")
    return labels


@st.composite
def loky_cases(draw):
    case = draw(cases(loky=True))
    case["loky"] = True
    case["jobs"] = [draw(st.sampled_from([2, 3]))]
    if case.get("avg") in ("half", "rms"):
        del case["avg"]
    return case


@st.composite
def seeds_case(draw):
    return {"s": draw(gen.SEED), "seeds": draw(st.lists(st.integers(0, 2 ** 32 - 1),
                                                        min_size=12, max_size=12, unique=True)),
            "test": draw(st.sampled_from(["dcov", "pdcov", "energy"]))}


def check_seeds(case):
    """Different seeds give different permutations (not a frozen stream)."""
    rng = np.random.RandomState(case["s"])
    n = 12
    x, y, z = rng.normal(size=(3, n))
    y = y + 0.5 * x
    samples = {"dcov": [x, y], "pdcov": [x, y, z], "energy": [x, y]}[case["test"]]
    pb = Problem({"test": case["test"], "exact": False, "samples": [
        {"v": [float(t) for t in a], "d": 0} for a in samples]})
    seen = {}
    for mk in (int, np.random.RandomState, np.random.default_rng):
        ps = [float(pb.run(num_resamples=60, random_state=mk(s)).pvalue)
              for s in case["seeds"]]
        seen[mk.__name__] = ps
    if all(p in (1.0, 1 / 61) for ps in seen.values() for p in ps):
        return ["trivial"]
    for k, ps in seen.items():
        other = [p for kk, pp in seen.items() if kk != k for p in pp]
        # identical results for 12 seeds while another kind varies a lot
        if len(set(ps)) == 1 and len(set(other)) > 3:
            raise Violation(f"{pb.fun.__name__}: random_state={k}(...) gives the same "
                            f"p-value {ps[0]} for 12 seeds; others vary: {sorted(set(other))}")
    if all(len(set(ps)) == 1 for ps in seen.values()) and 0.05 < seen["int"][0] < 0.95:
        raise Violation(f"{pb.fun.__name__}: p-value {seen['int'][0]} with 60 resamples for "
                        "each of 36 different seeds")
    return [case["test"]]


LEGS = [
    Leg("reproducible", cases, check, quick=500, thorough=15000),
    Leg("larger", lambda: cases(large=True), check, quick=32, thorough=800, shards=8),
    Leg("processes", loky_cases, check, quick=4, thorough=60, shards=2),
    Leg("seeds-matter", seeds_case, check_seeds, quick=24, thorough=600),
]
