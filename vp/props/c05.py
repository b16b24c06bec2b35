"""C05: rowwise computation equals the computation element by element."""
import dcor
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..api import (COMPILE, METHOD_ENUM, call, close, expect, num)
from ..core import Leg, Violation
from ..oracle import Atoms, Ref, energy, dist
from .c17 import lay

ID = "C05"
RULE = (
    "Sequences of 1..1025 pairs of samples, as lists, tuples, stacked 2-D/3-D "
    "(possibly strided or integer) arrays, equal or different sizes and "
    "shapes, evaluated with rowwise in every rowwise and compilation mode, "
    "method and exponent; oracle: the definition in long double for every "
    "element (and agreement with the plain call). Non-trivial: at least two "
    "elements and a non-constant pair."
)

FUNS = ("distance_covariance_sqr", "distance_covariance",
        "u_distance_covariance_sqr", "distance_correlation_sqr",
        "distance_correlation", "u_distance_correlation_sqr")


@st.composite
def cases(draw, rows=st.one_of(st.integers(1, 5), st.integers(1, 40)), hi=100):
    shape = draw(st.sampled_from(["vec", "vec", "vec", "col", "mixcol", "multi",
                                  "ragged", "raggedcol", "shapes", "columns"]))
    k = draw(rows)
    n = draw(gen.sizes(4, hi))
    xs, ys = [], []
    for i in range(k):
        m = n
        dx = dy = 0
        if shape == "col":
            dx = dy = 1
        elif shape == "mixcol":
            dx, dy = 0, 1
        elif shape == "multi":
            dx, dy = 2, 3
        elif shape in ("ragged", "raggedcol"):
            m = draw(st.integers(4, 20))
            if shape == "raggedcol":
                dx = dy = 1
        elif shape == "columns":
            # vectors and column matrices among the x or among the y
            if n % 2:
                dx = draw(st.integers(0, 1))
            else:
                dy = draw(st.integers(0, 1))
        elif shape == "shapes":
            m = draw(st.integers(4, 20))
            dx, dy = draw(st.integers(0, 3)), draw(st.integers(0, 3))
        fam = ("int", "wideint", "bin", "steps", "onehot", "signs", "arange",
               "const") if draw(st.integers(0, 3)) == 0 else gen.FAMILIES
        xs.append(draw(gen.sample(m, dx, fam, k <= 5, False)))
        ys.append(draw(gen.second(m, dy, fam, k <= 5, False)))
    case = {"fun": draw(st.sampled_from(FUNS)), "x": xs, "y": ys,
            "mode": draw(st.sampled_from(["AUTO", "AUTO", "NAIVE", "OPTIMIZED", None]))}
    uniform = shape in ("vec", "col", "mixcol", "multi")
    case["box"] = draw(st.sampled_from(
        ["list", "tuple", "stack", "strided", "fortran", "int", "readonly", "unaligned"] if uniform
        else ["list", "tuple"]))
    if draw(st.booleans()):
        case["method"] = draw(st.sampled_from(["auto", "avl", "naive", "mergesort",
                                               "!auto", "!avl", "!naive", "!mergesort"]))
    if draw(st.booleans()):
        case["compile"] = draw(st.sampled_from(list(COMPILE)))
    if draw(st.integers(0, 3)) == 0:
        case["e"] = draw(gen.exponents())
    if shape in ("multi", "shapes") or case.get("e", 1.0) != 1.0:
        # fast algorithms do not apply
        if case.get("method", "auto").strip("!") in ("avl", "mergesort"):
            case["method"] = "auto"
    meth = case.get("method", "auto").strip("!")
    naive = (meth == "naive" or shape in ("multi", "shapes")
             or case.get("e", 1.0) != 1.0)
    comp = case.get("compile")
    if comp == "COMPILE_PARALLEL" or (comp == "COMPILE_CPU" and naive):
        # only the optimized implementation is parallel
        if naive or meth == "mergesort" or case.get("mode") == "NAIVE" \
                or "method" in case and not case["method"].startswith("!") \
                or shape in ("ragged", "raggedcol", "mixcol", "shapes", "columns"):
            del case["compile"]
    if comp == "NO_COMPILE" and n * k > 600:
        del case["compile"]
    if uniform and draw(st.integers(0, 3)) == 0:
        case["boxy"] = draw(st.sampled_from(["list", "tuple", "stack", "strided",
                                               "readonly", "unaligned"]))
    return case


@st.composite
def cases_few(draw):
    """Samples of one to three observations: only the definition applies."""
    k, n = draw(st.integers(1, 6)), draw(st.integers(1, 3))
    d = draw(st.sampled_from([0, 0, 1, 2]))
    fun = draw(st.sampled_from([f for f in FUNS if not f.startswith("u_")]))
    case = {"fun": fun, "mode": draw(st.sampled_from(["AUTO", "NAIVE", None])),
            "x": [draw(gen.sample(n, d, gen.FAMILIES, True, False)) for _ in range(k)],
            "y": [draw(gen.second(n, d, gen.FAMILIES, True, False)) for _ in range(k)],
            "box": draw(st.sampled_from(["list", "tuple", "stack", "strided"]))}
    if draw(st.integers(0, 2)) == 0:
        case["e"] = draw(gen.exponents())
    if draw(st.integers(0, 2)) == 0:
        case["method"] = draw(st.sampled_from(["auto", "naive", "!auto", "!naive"]))
    return case


def _box(arrays, box):
    if box == "list":
        return list(arrays)
    if box == "tuple":
        return tuple(arrays)
    a = np.array(arrays)
    if box == "int":
        s = np.max(np.abs(a)) or 1.0
        return np.rint(a / s * 50).astype(np.int64)
    if box in ("readonly", "unaligned"):
        return lay(a, box)
    if box == "fortran":
        return np.asfortranarray(a)
    if box == "strided":
        b = np.zeros((a.shape[0] * 2, a.shape[1] * 2) + a.shape[2:])
        b[::2, ::2] = a
        return b[::2, ::2]
    return a


def _kwargs(case):
    kw = {}
    if "method" in case:
        m = case["method"]
        kw["method"] = METHOD_ENUM[m[1:]] if m.startswith("!") else m
    if "compile" in case:
        kw["compile_mode"] = COMPILE[case["compile"]]
    if "e" in case:
        kw["exponent"] = case["e"]
    return kw


def compare(fun, got, x, y, e, what):
    r = Ref(x, y, e, unbiased=fun.startswith("u_"))
    if "covariance" in fun:
        if fun.endswith("_sqr"):
            close(got, r.cov, r.tcov, what)
        else:
            g = num(got, what)
            expect(np.isfinite(g) and g >= 0 and
                   abs(g * g - max(r.cov, 0)) <= r.tcov + 1e-14 * r.cov,
                   f"{what}: got {float(g)!r}, squared should be {float(r.cov)!r}")
    else:
        g = num(got, what)
        expect(np.isfinite(g), f"{what}: {got!r} is not finite")
        sq = g if fun.endswith("_sqr") else g * g
        if r.const:
            expect(abs(sq) <= 1e-12, f"{what}: {got!r} with a constant sample")
        elif not r.degenerate:
            want = r.r2 if fun.endswith("_sqr") else max(r.r2, 0)
            expect(abs(sq - want) <= r.tr2,
                   f"{what}: got {float(g)!r}, expected "
                   f"{float(want)!r}{'' if fun.endswith('_sqr') else ' (squared)'}")
    return r


def check(case):
    arrays_x, arrays_y = [], []
    for sx, sy in zip(case["x"], case["y"]):
        x = gen.build(sx)
        arrays_x.append(x)
        arrays_y.append(gen.build_dep(sy, x))
    bx = _box(arrays_x, case["box"])
    by = _box(arrays_y, case.get("boxy", case["box"]))
    f = getattr(dcor, case["fun"])
    kw = _kwargs(case)
    labels = [f"mode={case['mode']}", f"box={case['box']}"]
    if case["mode"]:
        kw["rowwise_mode"] = dcor.RowwiseMode[case["mode"]]
    if case["mode"] == "OPTIMIZED":
        try:
            res = dcor.rowwise(f, bx, by, **kw)
        except NotImplementedError:
            return labels + ["trivial", "not-optimized"]
        except Exception as exc:  # noqa: BLE001
            raise Violation(f"rowwise raised {type(exc).__name__}: {exc}") from exc
    else:
        res = call(dcor.rowwise, f, bx, by, **kw)
    res = np.asarray(res)
    k = len(arrays_x)
    expect(res.shape == (k,), f"rowwise of {k} pairs has shape {res.shape}")
    nontrivial = False
    for i in range(k):
        r = compare(case["fun"], res[i], np.asarray(bx[i]), np.asarray(by[i]),
                    case.get("e", 1.0), f"rowwise({case['fun']})[{i}] of {k}")
        nontrivial = nontrivial or not (r.const or r.degenerate)
    if k < 2 or not nontrivial:
        labels.append("trivial")
    return labels


@st.composite
def cases_many(draw):
    """Hundreds of rows of the same kind."""
    case = {"fun": draw(st.sampled_from(FUNS)), "n": draw(st.integers(4, 12)),
            "k": draw(st.one_of(st.integers(40, 700), st.sampled_from(
                [63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1025]))),
            "f": [draw(st.sampled_from(gen.FAMILIES)), draw(st.sampled_from(gen.FAMILIES))],
            "s": draw(gen.SEED), "d": draw(st.sampled_from([0, 0, 1, 2])),
            "mode": draw(st.sampled_from(["AUTO", "AUTO", "NAIVE", None])),
            "box": draw(st.sampled_from(["list", "stack", "strided", "fortran"]))}
    if case["d"] < 2 and draw(st.booleans()):
        case["method"] = draw(st.sampled_from(["avl", "!avl", "mergesort", "!auto", "naive"]))
    if case["d"] == 0 and case["mode"] != "NAIVE" and case["box"] != "list" \
            and case.get("method", "!avl") in ("!avl", "!auto") and draw(st.booleans()):
        case["compile"] = draw(st.sampled_from(["COMPILE_CPU", "COMPILE_PARALLEL"]))
    return case


def check_many(case):
    rng = np.random.RandomState(case["s"])
    seeds = rng.randint(2 ** 31 - 1, size=(2, case["k"]))
    full = dict(case)
    for name, f, row in (("x", case["f"][0], seeds[0]), ("y", case["f"][1], seeds[1])):
        full[name] = [{"n": case["n"], "d": case["d"], "f": f, "s": int(s)} for s in row]
    return check(full)


@st.composite
def other(draw):
    k = draw(st.integers(1, 6))
    fun = draw(st.sampled_from(["energy_distance", "af_inv", "lambda", "partial",
                                "mean_product", "energy_test_statistic"]))
    n = draw(st.integers(5, 15))
    return {"fun": fun, "e": draw(gen.exponents()),
            "s": draw(st.lists(gen.SEED, min_size=k, max_size=k)), "n": n,
            "mode": draw(st.sampled_from(["AUTO", "NAIVE", None]))}


def check_other(case):
    n = case["n"]
    xs, ys = [], []
    for s in case["s"]:
        rng = np.random.RandomState(s)
        xs.append(rng.normal(size=(n, 2)))
        ys.append(rng.normal(size=(n, 2)))
    kw = {}
    if case["mode"]:
        kw["rowwise_mode"] = dcor.RowwiseMode[case["mode"]]
    fun = case["fun"]
    if fun in ("energy_distance", "energy_test_statistic"):
        f = (dcor.energy_distance if fun == "energy_distance"
             else dcor.homogeneity.energy_test_statistic)
        kw["exponent"] = case["e"]
        want = [energy(a, b, case["e"]) * (1 if fun == "energy_distance" else n / 2)
                for a, b in zip(xs, ys)]
    elif fun == "mean_product":
        f = dcor.mean_product
        want = [np.mean(a * b) for a, b in zip(xs, ys)]
    elif fun == "af_inv":
        f = dcor.distance_correlation_af_inv
        want = [call(f, a, b) for a, b in zip(xs, ys)]
    elif fun == "partial":
        z = np.random.RandomState(0).normal(size=(n, 1))

        def f(a, b, c=None):
            return dcor.partial_distance_covariance(a, b, c)
        kw["c"] = z
        want = [call(dcor.partial_distance_covariance, a, b, z) for a, b in zip(xs, ys)]
    else:
        def f(a, b, scale=1.0):
            return float(np.sum(a) - scale * np.sum(b))
        kw["scale"] = 3.0
        want = [float(np.sum(a) - 3.0 * np.sum(b)) for a, b in zip(xs, ys)]
    res = np.asarray(call(dcor.rowwise, f, xs, ys, **kw))
    expect(res.shape == (len(xs),), f"rowwise({fun}) has shape {res.shape}")
    for i, w in enumerate(want):
        close(res[i], w, 1e-10 * (1 + abs(float(w))), f"rowwise({fun})[{i}]")
    return ["trivial"] if len(xs) < 2 else [fun]


@st.composite
def large(draw):
    case = draw(gen.atoms_case(2000, 60000))
    case["k"] = draw(st.sampled_from([1.0, 0.1, 1e3]))
    case["fun"] = draw(st.sampled_from(FUNS))
    case["compile"] = draw(st.sampled_from(["AUTO", "COMPILE_CPU", "COMPILE_PARALLEL"]))
    return case


def check_large(case):
    u, w, i, j = gen.build_atoms(case)
    fun = case["fun"]
    x, y = u[i], w[j]
    res = np.asarray(call(dcor.rowwise, getattr(dcor, fun), np.stack([x, x[::-1]]),
                          np.stack([y, y]), compile_mode=COMPILE[case["compile"]]))
    expect(res.shape == (2,), f"rowwise has shape {res.shape}")
    for k, (ii, jj) in enumerate(((i, j), (i[::-1], j))):
        r = Atoms(u, w, ii, jj)
        unb = fun.startswith("u_")
        c, vx, vy = r.cov(unb), r.varx(unb), r.vary(unb)
        tc, tx, ty = r.tol(r.A, r.B), r.tol(r.A, r.A), r.tol(r.B, r.B)
        g = num(res[k])
        expect(np.isfinite(g), f"rowwise({fun})[{k}] = {float(g)}")
        sq = g if fun.endswith("_sqr") else g * g
        if "covariance" in fun:
            want, tol = c, tc
        else:
            if not (vx > 1e3 * tx and vy > 1e3 * ty):
                continue
            den = np.sqrt(vx * vy)
            want = c / den
            tol = tc / den + abs(want) * (tx / vx + ty / vy)
        if not fun.endswith("_sqr"):
            want = max(want, 0)
        expect(abs(sq - want) <= tol, f"rowwise({fun})[{k}] for n={case['n']}: "
                                      f"got (squared) {float(sq)!r}, expected {float(want)!r}")
    return []


LEGS = [
    Leg("rowwise", cases, check, quick=1800, thorough=45000, fixed=[
        {"fun": "u_distance_correlation_sqr", "mode": "AUTO", "box": "stack",
         "x": [{"v": [0, 0, 0, 1, 0], "d": 0}, {"v": [1, 2, 5, 3, 4], "d": 0}],
         "y": [{"v": [3, 1, 2, 5, 4], "d": 0}, {"v": [3, 1, 2, 5, 4], "d": 0}]},
    ]),
    Leg("few-observations", cases_few, check, quick=300, thorough=6000),
    Leg("many-rows", lambda: cases_many(), check_many, quick=120, thorough=3000),
    Leg("longer", lambda: cases(rows=st.integers(1, 4), hi=700), check, quick=80, thorough=2000),
    Leg("other-functions", other, check_other, quick=250, thorough=4000),
    Leg("large", large, check_large, quick=48, thorough=1500, fixed=[
        # n ** 3 does not fit in 64 bits
        {"n": 2200000, "u": [0.0, 1.0], "w": [0.0, 2.0, 5.0], "s": 3, "k": 1.0,
         "order": "random", "mix": "dep", "fun": "distance_covariance_sqr",
         "compile": "AUTO"},
    ]),
]
