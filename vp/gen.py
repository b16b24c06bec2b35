"""Strategies for JSON-able cases, and the arrays that the cases stand for.

A sample spec is either explicit ({"v": [...], "d": d}) or derived from a
drawn seed ({"n": n, "d": d, "f": family, "s": seed}); "k" multiplies and "o"
(times |k|) shifts it.  d == 0 is a one-dimensional array, d >= 1 an n x d
matrix.  Everything random is drawn by Hypothesis.
"""
import numpy as np
from hypothesis import strategies as st

# --------------------------------------------------------------------------
# arrays

FAMILIES = (
    "normal", "uniform", "int", "wideint", "bin", "const", "onehot", "sorted",
    "rsorted", "cauchy", "atoms", "dyadic", "steps", "nearconst", "cluster",
    "arange", "zigzag", "outlier", "signs", "revsteps", "twohot", "symm",
    "cycle",
)
RICH = ("normal", "uniform", "wideint", "sorted", "cauchy", "dyadic",
        "cluster", "outlier", "rsorted", "atoms")


def _family(f, n, d, rng):
    dd = max(d, 1)
    shape = (n, dd)
    if f == "normal":
        a = rng.normal(size=shape)
    elif f == "uniform":
        a = rng.uniform(-1, 1, size=shape)
    elif f == "int":
        a = rng.randint(-4, 5, size=shape).astype(float)
    elif f == "wideint":
        a = rng.randint(-1000, 1001, size=shape).astype(float)
    elif f == "bin":
        a = (rng.uniform(size=shape) < rng.choice([0.1, 0.5, 0.8])).astype(float)
    elif f == "const":
        a = np.full(shape, rng.choice([0.0, 0.1, 1.0, -7.3]))
    elif f == "onehot":
        a = np.zeros(shape)
        a[rng.randint(n)] = 1.0
    elif f == "twohot":
        a = np.zeros(shape)
        a[rng.randint(n, size=2)] = 1.0
    elif f == "sorted":
        a = np.sort(rng.normal(size=shape), axis=0)
    elif f == "rsorted":
        a = np.sort(rng.normal(size=shape), axis=0)[::-1].copy()
    elif f == "cauchy":
        a = np.clip(rng.standard_cauchy(size=shape), -1e3, 1e3)
    elif f == "atoms":
        atoms = rng.normal(size=(rng.randint(2, 6), dd))
        a = atoms[rng.randint(len(atoms), size=n)]
    elif f == "dyadic":
        a = rng.randint(-40, 41, size=shape) / 8.0
    elif f == "steps":
        a = np.sort(rng.randint(0, max(2, n // 3 + 1), size=shape), axis=0).astype(float)
    elif f == "revsteps":
        a = np.sort(rng.randint(0, max(2, n // 3 + 1), size=shape), axis=0)[::-1].astype(float)
    elif f == "nearconst":
        a = np.full(shape, 1.0)
        a[rng.randint(n)] += rng.choice([1e-3, 1e-6, -1e-2])
    elif f == "cluster":
        a = rng.normal(size=shape) * 0.01 + 100.0 * rng.randint(0, 2, size=(n, 1))
    elif f == "arange":
        a = np.repeat(np.arange(n, dtype=float)[:, None], dd, axis=1)
        a = a * rng.choice([1.0, -1.0, 0.5])
    elif f == "zigzag":
        a = np.repeat(((np.arange(n) % 2) * 2.0 - 1)[:, None], dd, axis=1)
        a = a * (1 + np.arange(n)[:, None])
    elif f == "outlier":
        a = rng.normal(size=shape)
        a[rng.randint(n)] *= 1e4
    elif f == "signs":
        a = rng.choice([-1.0, 0.0, 1.0], size=shape)
    elif f == "symm":
        # symmetric around 0: uncorrelated with its even functions
        h = rng.randint(1, 9, size=(n // 2, dd)).astype(float)
        a = np.concatenate([h, -h, np.zeros((n % 2, dd))])[rng.permutation(n)]
    elif f == "cycle":
        a = np.repeat((np.arange(n) % rng.randint(2, 6))[:, None], dd, axis=1)
    else:
        raise ValueError(f)
    return np.ascontiguousarray(a, dtype=float)


def build(spec):
    d = spec["d"]
    if "v" in spec:
        a = np.array(spec["v"], dtype=float).reshape(-1, max(d, 1))
    else:
        a = _family(spec["f"], spec["n"], d, np.random.RandomState(spec["s"]))
    k = spec.get("k", 1.0)
    o = spec.get("o", 0.0)
    if k != 1.0:
        a = a * k
    if o != 0.0:
        a = a + o * abs(k)
    return a[:, 0].copy() if d == 0 else a


def build_dep(spec, x):
    """Second sample: independent spec, or a function of the first one."""
    dep = spec.get("dep")
    if dep is None:
        return build(spec)
    x2 = x.reshape(x.shape[0], -1)
    n = x2.shape[0]
    rng = np.random.RandomState(spec["s"])
    m = x2.mean(axis=0)
    s = np.max(np.abs(x2 - m)) or 1.0
    z = (x2 - m) / s
    d = spec["d"]
    if dep == "same":
        a = x2.copy()
    elif dep == "neg":
        a = -x2
    elif dep == "affine":
        a = 2.5 * x2 - 3 * s
    elif dep == "square":
        a = z ** 2
    elif dep == "abs":
        a = np.abs(z)
    elif dep == "noisy":
        a = z + 0.3 * rng.normal(size=z.shape)
    elif dep == "perm":
        a = x2[rng.permutation(n)]
    elif dep == "rank":
        a = np.argsort(np.argsort(x2, axis=0), axis=0).astype(float)
    elif dep == "round":
        a = np.round(z * 3)
    elif dep == "signs":
        a = x2 * rng.choice([-1.0, 1.0], size=(n, 1))
    elif dep == "absraw":
        a = np.abs(x2)
    elif dep == "reverse":
        a = x2[::-1].copy()
    elif dep == "sorted":
        a = np.sort(x2, axis=0)
    elif dep == "cols":
        a = np.stack([c[rng.permutation(n)] for c in x2.T], axis=1)
    elif dep == "swap":
        a = x2.copy()
        a[[0, n - 1]] = a[[n - 1, 0]]
    elif dep == "flip1":
        a = x2.copy()
        a[rng.randint(n)] *= -1
    else:
        raise ValueError(dep)
    if d == 0:
        return np.ascontiguousarray(a[:, 0])
    if a.shape[1] != d:
        a = np.ascontiguousarray(np.resize(a.T, (d, n)).T)
    return np.ascontiguousarray(a)


DEPS = ("same", "neg", "affine", "square", "abs", "noisy", "perm", "rank",
        "round", "flip1", "signs", "absraw", "reverse", "sorted", "cols", "swap")
RELATED = ("perm", "cols", "onecol", "reflect", "signs", "neg", "swaprow", "same-moments",
           "one-moved", "reverse", "copy", "sub")


def related(x, how, seed):
    """A second sample that shares much with x (margins, moments, points)."""
    rng = np.random.RandomState(seed)
    n = len(x)
    a = np.array(x)
    if how == "perm":
        return a[rng.permutation(n)]
    if how == "cols":              # the same margins
        if a.ndim == 1:
            return a[rng.permutation(n)]
        return np.stack([c[rng.permutation(n)] for c in a.T], axis=1)
    if how == "onecol":
        if a.ndim == 1:
            return a[rng.permutation(n)]
        j = rng.randint(a.shape[1])
        a[:, j] = a[rng.permutation(n), j]
        return a
    if how == "reflect":           # the same mean and covariance
        return 2 * a.mean(axis=0) - a
    if how == "signs":             # the same absolute values
        return a * rng.choice([-1.0, 1.0], size=(n,) + (1,) * (a.ndim - 1))
    if how == "neg":
        return -a
    if how == "swaprow":           # one point with its coordinates exchanged
        i = rng.randint(n)
        if a.ndim == 2:
            a[i] = a[i][::-1].copy()
        else:
            a[i] = -a[i]
        return a
    if how == "same-moments":      # the same first two moments of each column
        m, s = a.mean(axis=0), a.std(axis=0)
        b = rng.choice([-1.0, 1.0], size=a.shape)
        t = b.std(axis=0)
        return m + (b - b.mean(axis=0)) / np.where(t > 0, t, 1.0) * s
    if how == "one-moved":
        i = rng.randint(n)
        a[i] = a[i] + (np.max(np.abs(a)) or 1.0) * rng.choice([0.01, -0.5])
        return a
    if how == "reverse":
        return a[::-1].copy()
    if how == "sub":
        return a[rng.permutation(n)[: 2 + rng.randint(max(n - 1, 1))]]
    return a

# --------------------------------------------------------------------------
# strategies

SEED = st.integers(0, 2 ** 31 - 1)
SCALES = st.sampled_from([1.0, 1.0, 1.0, 1.0, 1.0, -1.0, 1e-3, 1e3, 1e-6, 1e6,
                          1e-12, 1e-30, 1e12, 1e30, 0.1, 7.3])
OFFSETS = st.sampled_from([0.0, 0.0, 0.0, 0.0, 0.0, 1.0, -3.0, 10.0, 1e3,
                           -1e6, 1e9])


def sizes(lo=1, hi=300):
    """Sample sizes: mostly small, powers of two and their neighbours."""
    pows = [p + e for p in (4, 8, 16, 32, 64, 128, 256, 512, 1024)
            for e in (-1, 0, 1) if lo <= p + e <= hi]
    parts = [] if lo > 40 else [st.integers(lo, min(hi, max(lo, 8))),
                                st.integers(lo, min(hi, max(lo, 40)))]
    if pows:
        parts.append(st.sampled_from(pows))
    if hi > 40:
        parts.append(st.integers(max(lo, 1), hi))
    return st.one_of(*parts)


def big_sizes(top=False):
    """Sizes beyond a million of pairs of observations."""
    parts = [st.integers(1020, 1300), st.integers(2040, 2300)]
    if top:
        parts = parts * 2 + [st.integers(4090, 4200)]
    return st.one_of(*parts)


def exponents(one=True):
    choices = [
        st.sampled_from([0.5, 1.5, 0.01, 0.1, 0.25, 1.9, 1.99, 1.999, 0.9, 1.1,
                         1.001, 0.75, 1.25, 0.3, 1.7]),
        st.floats(0.02, 1.99).map(lambda v: round(v, 6)),
    ]
    if one:
        choices = [st.just(1.0), st.just(1.0)] + choices
        return st.one_of(*choices)
    return st.one_of(*choices).map(lambda v: 1.001 if v == 1 else v)


def values(kind):
    return {
        "tiny": st.integers(-2, 2).map(float),
        "int": st.integers(-9, 9).map(float),
        "dyadic": st.integers(-64, 64).map(lambda v: v / 8.0),
        "float": st.floats(-1e4, 1e4, allow_nan=False).map(
            lambda v: 0.0 if abs(v) < 1e-4 else v),
    }[kind]


@st.composite
def sample(draw, n, d, families=FAMILIES, scales=True, explicit=True):
    if explicit and n * max(d, 1) <= 24 and draw(st.booleans()):
        kind = draw(st.sampled_from(["tiny", "int", "dyadic", "float"]))
        m = n * max(d, 1)
        spec = {"v": draw(st.lists(values(kind), min_size=m, max_size=m)), "d": d}
    else:
        spec = {"n": n, "d": d, "f": draw(st.sampled_from(families)),
                "s": draw(SEED)}
    if scales and draw(st.booleans()):
        k = draw(SCALES)
        o = draw(OFFSETS)
        if k != 1.0:
            spec["k"] = k
        if o != 0.0:
            spec["o"] = o
    return spec


@st.composite
def second(draw, n, d, families=FAMILIES, scales=True, explicit=True, dep=True):
    if dep and draw(st.integers(0, 3)) == 0:
        return {"dep": draw(st.sampled_from(DEPS)), "d": d, "s": draw(SEED)}
    return draw(sample(n, d, families, scales, explicit))


def dims(hi=5):
    return st.sampled_from([0, 0, 1, 1, 2, 3] + [d for d in (4, 5, 7, 10) if d <= hi])


WIDE = (8, 11, 12, 15, 16, 17, 24, 31, 32, 33, 50, 63, 64, 65, 100, 128, 129, 200, 257, 300)


def wide_dims():
    """Numbers of columns above those of `dims`."""
    return st.one_of(st.sampled_from(WIDE), st.integers(6, 40))


@st.composite
def wide_pair(draw, lo=4, hi=40, families=FAMILIES):
    """Pairs in which at least one sample has many columns."""
    n = draw(sizes(lo, hi))
    dx, dy = draw(wide_dims()), draw(st.one_of(dims(5), wide_dims()))
    if draw(st.booleans()):
        dx, dy = dy, dx
    return {"x": draw(sample(n, dx, families, True, False)),
            "y": draw(second(n, dy, families, True, False))}


@st.composite
def pair(draw, lo=1, hi=300, maxd=5, families=FAMILIES, scales=True, dep=True,
         univariate=None, explicit=True):
    n = draw(sizes(lo, hi))
    if univariate is None:
        univariate = draw(st.integers(0, 2)) == 0
    if univariate:
        dx, dy = draw(st.sampled_from([0, 0, 1])), draw(st.sampled_from([0, 0, 1]))
    else:
        dx, dy = draw(dims(maxd)), draw(dims(maxd))
    return {"x": draw(sample(n, dx, families, scales, explicit)),
            "y": draw(second(n, dy, families, scales, explicit, dep))}


@st.composite
def big_pair(draw, dims_=(2, 3, 1, 5), families=FAMILIES, top=False):
    """Pairs with many observations, for the quadratic algorithms."""
    n = draw(big_sizes(top))
    dx, dy = draw(st.sampled_from(dims_)), draw(st.sampled_from(dims_))
    return {"x": draw(sample(n, dx, families, True, False)),
            "y": draw(second(n, dy, families, True, False))}


def build_pair(case):
    x = build(case["x"])
    y = build_dep(case["y"], x)
    return x, y


# Discrete joint samples of any size: counts of atoms --------------------

@st.composite
def atoms_case(draw, nmin, nmax, scales=True):
    p = draw(st.integers(2, 5))
    q = draw(st.integers(2, 5))
    case = {
        "n": draw(st.integers(nmin, nmax)),
        "u": draw(st.lists(values("dyadic"), min_size=p, max_size=p, unique=True)),
        "w": draw(st.lists(values("dyadic"), min_size=q, max_size=q, unique=True)),
        "s": draw(SEED),
        "order": draw(st.sampled_from(["random", "sorted", "blocks", "reversed"])),
        "mix": draw(st.sampled_from(["indep", "dep", "skew"])),
    }
    if scales and draw(st.booleans()):
        case["k"] = draw(st.sampled_from([1e-3, 1e3, 1e6, 0.1]))
        case["o"] = draw(st.sampled_from([0.0, 1.0, 1e6, -1e3]))
    return case


def build_atoms(case):
    """Return (u, w, i, j): atom values and the atom index of every element."""
    rng = np.random.RandomState(case["s"])
    n = case["n"]
    k = case.get("k", 1.0)
    u = np.array(case["u"]) * k + case.get("o", 0.0) * k
    w = np.array(case["w"])
    p, q = len(u), len(w)
    if case["mix"] == "indep":
        i = rng.randint(p, size=n)
        j = rng.randint(q, size=n)
    elif case["mix"] == "dep":
        i = rng.randint(p, size=n)
        j = np.where(rng.uniform(size=n) < 0.6, i % q, rng.randint(q, size=n))
    else:
        i = (rng.uniform(size=n) < 3.0 / n).astype(int) * rng.randint(1, p, size=n)
        j = (rng.uniform(size=n) < 0.3).astype(int) * rng.randint(1, q, size=n)
        j = np.where(i > 0, 0, j)
    if case["order"] == "sorted":
        o = np.lexsort((w[j], u[i]))
    elif case["order"] == "reversed":
        o = np.lexsort((w[j], u[i]))[::-1]
    elif case["order"] == "blocks":
        o = np.argsort(j, kind="stable")
    else:
        o = np.arange(n)
    return u, w, i[o], j[o]
