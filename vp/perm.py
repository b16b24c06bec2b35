"""The three permutation tests: cases, reference statistics, injected draws."""
import dcor
import numpy as np
from hypothesis import strategies as st

from . import gen
from .api import call
from .oracle import LD, dcenter, dist, ucenter, uprod
from .props.c10 import AVERAGES, is_u, stat_arg
from .props.c11 import energy_stat

TESTS = ("dcov", "pdcov", "energy")


@st.composite
def data(draw, tests=TESTS, hi=14, exact=None, lo=4):
    """Data of a test; exact: statistics are dyadic rationals, no rounding."""
    test = draw(st.sampled_from(tests))
    if exact is None:
        exact = test != "pdcov" and draw(st.integers(0, 2)) == 0
    case = {"test": test, "exact": exact}
    if test == "energy":
        k = draw(st.sampled_from([2, 2, 3, 4]))
        d = 0 if exact else draw(gen.dims(3))
        if exact:
            size = draw(st.sampled_from([1, 2, 2, 4, 4]))
            sizes = [size] * k
        else:
            stat = draw(st.sampled_from([None, "u", "!u", "v", "!v"]))
            if stat:
                case["stat"] = stat
            mn = 2 if is_u(stat) else 1
            sizes = [draw(st.integers(mn, max(2, hi // k))) for _ in range(k)]
            if draw(st.integers(0, 4)) == 0:
                case["avg"] = draw(st.sampled_from(["median", "half", "rms"]))
        n_list = sizes
    else:
        n = draw(st.sampled_from([4, 8, 16])) if exact else draw(gen.sizes(lo, hi))
        n_list = [n, n] + ([n] if test == "pdcov" else [])
        d = 0 if exact else None
    samples = []
    for i, n in enumerate(n_list):
        if exact:
            samples.append({"v": draw(st.lists(st.integers(-4, 4).map(float), min_size=n,
                                               max_size=n)), "d": draw(st.sampled_from([0, 1]))})
        else:
            dd = d if d is not None else draw(gen.dims(3))
            fam = gen.RICH if test == "pdcov" else gen.FAMILIES
            if test != "energy" and i and draw(st.integers(0, 3)) == 0:
                samples.append({"dep": draw(st.sampled_from(gen.DEPS)), "d": dd,
                                "s": draw(gen.SEED)})
            else:
                samples.append(draw(gen.sample(n, dd, fam, True)))
    case["samples"] = samples
    if not exact and draw(st.booleans()):
        case["e"] = draw(gen.exponents())
    return case


class Problem:
    """A test, its samples and its reference statistic."""

    def __init__(self, case):
        self.case = case
        self.test = case["test"]
        arrays = [gen.build(case["samples"][0])]
        for s in case["samples"][1:]:
            arrays.append(gen.build_dep(s, arrays[0]))
        self.arrays = arrays
        e = self.e = case.get("e", 1.0)
        self.kw = {}
        if "e" in case:
            self.kw["exponent"] = e
        self.ok = True
        if self.test == "energy":
            self.fun = dcor.homogeneity.energy_test
            u = is_u(case.get("stat"))
            self.kw.update(stat_arg(case.get("stat")))
            avg = None
            if "avg" in case:
                avg = self.kw["average"] = AVERAGES[case["avg"]]
            pooled = np.concatenate([a[:, None] if a.ndim == 1 else a for a in arrays])
            self.sizes = [len(a) for a in arrays]
            m = dist(pooled, e=e)
            self.m = m
            self._stat = lambda mm: energy_stat(mm, self.sizes, u, avg)
            self.scale = float(np.max(m)) * sum(self.sizes) * len(self.sizes)
        else:
            a, b = dist(arrays[0], e=e), dist(arrays[1], e=e)
            n = a.shape[0]
            if self.test == "dcov":
                self.fun = dcor.independence.distance_covariance_test
                m, y = dcenter(a), dcenter(b)
                self._stat = lambda mm: n * np.mean(mm * y)
                self.scale = n * float(np.max(a)) * float(np.max(b))
            else:
                self.fun = dcor.independence.partial_distance_covariance_test
                c = dist(arrays[2], e=e)
                ua, ub, uc = ucenter(a), ucenter(b), ucenter(c)
                cc = uprod(uc, uc)
                amp = 0.0
                if np.any(c):
                    amp = float(np.max(c) ** 2 / cc) if cc > 0 else np.inf
                    if amp < 1e6:
                        ua = ua - uprod(ua, uc) / cc * uc
                        ub = ub - uprod(ub, uc) / cc * uc
                    else:
                        self.ok = False
                m, y = ua, ub
                self._stat = lambda mm: n * uprod(mm, y)
                self.scale = n * float(np.max(a)) * float(np.max(b)) * (1 + amp) ** 2
            self.m = m
        self.n = self.m.shape[0]
        self.tol = 0.0 if case.get("exact") else 1e-12 * (20 + self.n) * self.scale + 1e-300
        self.observed = self._stat(self.m)

    def stat(self, p):
        return self._stat(self.m[np.ix_(p, p)])

    def run(self, **kw):
        return call(self.fun, *self.arrays, **self.kw, **kw)

    def bounds(self, perms):
        """Smallest and largest number of permutations above the statistic."""
        lo = hi = 0
        for p in perms:
            s = self.stat(p)
            lo += bool(s > self.observed + self.tol)
            if self.tol:
                hi += bool(s >= self.observed - self.tol)
        return lo, (hi if self.tol else lo)


class _Inject:
    """Returns the given permutations, or records random ones."""

    def _setup(self, perms, seed):
        self.perms = perms
        self.inner = np.random.RandomState(seed)
        self.used = []
        self.foreign = 0

    def _next(self, n):
        if self.perms is None:
            p = self.inner.permutation(n)
        elif len(self.used) < len(self.perms) and len(self.perms[len(self.used)]) == n:
            p = np.array(self.perms[len(self.used)])
        else:
            self.foreign += 1
            return self.inner.permutation(n)
        self.used.append(p)
        return p.copy()

    def permutation(self, x, axis=0):
        if np.ndim(x) == 0:
            return self._next(int(x))
        x = np.asarray(x)
        return x[self._next(len(x))]

    def shuffle(self, x, axis=0):
        x[:] = np.asarray(x)[self._next(len(x))]


class InjectRandomState(_Inject, np.random.RandomState):
    def __new__(cls, perms=None, seed=0):
        return np.random.RandomState.__new__(cls, seed)

    def __init__(self, perms=None, seed=0):
        np.random.RandomState.__init__(self, seed)
        self._setup(perms, seed)


class InjectGenerator(_Inject, np.random.Generator):
    def __new__(cls, perms=None, seed=0):
        return np.random.Generator.__new__(cls, np.random.PCG64(seed))

    def __init__(self, perms=None, seed=0):
        np.random.Generator.__init__(self, np.random.PCG64(seed))
        self._setup(perms, seed)
