"""C09: centring, inner products and projections."""
import dcor
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..api import arrays_close, call, close, expect, num
from ..core import Leg
from ..oracle import LD, dcenter, dist, ucenter, uprod

ID = "C09"
RULE = (
    "Symmetric matrices (integers, dyadics, floats, distance matrices; n from "
    "1, n >= 3 for U-centring, n >= 4 for U-products), every form of `out` "
    "(none, the matrix itself, another array, strided, Fortran ordered or "
    "overlapping the matrix), "
    "projections over (null, U-centred and arbitrary) matrices; oracle: the "
    "formulas in long double and the laws of centring and projection. "
    "Non-trivial: n >= 4 and a non-constant matrix."
)


@st.composite
def matrix(draw, lo=1, hi=40, n=None, asym=False):
    if n is None:
        n = draw(gen.sizes(lo, hi))
    kind = draw(st.sampled_from(["explicit", "int", "normal", "dist", "zero", "offset",
                                 "dist2"] + ["asym", "asymint"] * asym))
    spec = {"kind": kind, "n": n, "k": draw(gen.SCALES)}
    if kind == "explicit" and n <= 6:
        m = n * (n + 1) // 2
        spec["v"] = draw(st.lists(gen.values(draw(st.sampled_from(["int", "dyadic", "float"]))),
                                  min_size=m, max_size=m))
    else:
        if kind == "explicit":
            spec["kind"] = "normal"
        spec["s"] = draw(gen.SEED)
    return spec


def build(spec):
    n = spec["n"]
    if "v" in spec:
        a = np.zeros((n, n))
        iu = np.triu_indices(n)
        a[iu] = spec["v"]
        a = np.maximum(np.abs(a), np.abs(a.T)) * np.sign(a + np.triu(a, 1).T)
    else:
        rng = np.random.RandomState(spec["s"])
        if spec["kind"] == "int":
            a = rng.randint(-9, 10, size=(n, n)).astype(float)
            a = np.triu(a) + np.triu(a, 1).T
        elif spec["kind"] in ("normal", "offset"):
            a = rng.normal(size=(n, n))
            a = np.triu(a) + np.triu(a, 1).T
            if spec["kind"] == "offset":
                a = a + 100
        elif spec["kind"] == "asym":
            a = rng.normal(size=(n, n))
        elif spec["kind"] == "asymint":
            a = rng.randint(-9, 10, size=(n, n)).astype(float)
        elif spec["kind"] == "zero":
            a = np.zeros((n, n))
        else:
            p = rng.normal(size=(n, 2 if spec["kind"] == "dist" else 1))
            a = np.array(dist(p), dtype=float)
            a = np.triu(a) + np.triu(a, 1).T
    return a * spec.get("k", 1.0)


@st.composite
def center_cases(draw, hi=40, lo=0):
    which = draw(st.sampled_from(["double", "u"]))
    return {"which": which,
            "a": draw(matrix(lo=max(lo, 1 if which == "double" else 3), hi=hi)),
            "out": draw(st.sampled_from(["none", "self", "other", "fortran", "strided",
                                         "int-in", "int-in-other", "f32", "readonly-in", "view",
                                         "view-in", "strided-in", "fortran-in",
                                         "transposed", "reversed", "shifted", "shifted-up"]))}


def check_center(case):
    a = build(case["a"])
    n = a.shape[0]
    f = dcor.double_centered if case["which"] == "double" else dcor.u_centered
    ref = dcenter if case["which"] == "double" else ucenter
    out = case["out"]
    if out.startswith("int-in"):
        s = float(np.max(np.abs(a))) or 1.0
        a = np.rint(a / s * 20).astype(np.int64)
    orig = a.copy()
    want = ref(orig)
    s = float(np.max(np.abs(orig)))
    tol = 1e-14 * (20 + n) * s + 1e-300
    if out in ("view-in", "strided-in"):
        k = 1 if out == "view-in" else 2
        big = np.full((n * k + 3, n * k + 2), np.inf)
        big[1:1 + n * k:k, 2:2 + n * k:k] = a
        a = big[1:1 + n * k:k, 2:2 + n * k:k]
    elif out == "fortran-in":
        a = np.asfortranarray(a)
    if out in ("none", "int-in", "view-in", "strided-in", "fortran-in"):
        res = call(f, a)
    elif out == "readonly-in":
        a.flags.writeable = False
        res = call(f, a)
    elif out == "self":
        res = call(f, a, out=a)
        expect(res is a, f"{f.__name__}(a, out=a) does not return a")
    elif out in ("view", "transposed", "reversed", "shifted", "shifted-up"):
        # the output is other memory that overlaps the matrix
        if out.startswith("shifted"):
            big = np.zeros((n + 1, n + 1))
            a, buf = big[:n, :n], big[1:, 1:]
            if out == "shifted-up":
                a, buf = buf, a
            a[...] = orig
        else:
            buf = {"view": a[:], "transposed": a.T, "reversed": a[::-1, ::-1]}[out]
        res = call(f, a, out=buf)
        expect(res is buf, f"{f.__name__}(a, out=buf) does not return buf")
        a = orig
    else:
        if out == "fortran":
            buf = np.full((n, n), 77.0, order="F")
        elif out == "strided":
            buf = np.full((2 * n, 3 * n), -5.0)[::2, ::3]
        elif out == "f32":
            if not 1e-3 <= s <= 1e6:
                return ["trivial"]
            buf = np.full((n, n), 3.0, dtype=np.float32)
            tol = 1e-5 * (20 + n) * s
        else:
            buf = np.full((n, n), np.nan)
        res = call(f, a, out=buf)
        expect(res is buf, f"{f.__name__}(a, out=buf) does not return buf")
        arrays_close(buf, want, tol, f"{f.__name__} in out")
    arrays_close(res, want, tol, f.__name__)
    expect(np.issubdtype(np.asarray(res).dtype, np.floating),
           f"{f.__name__}: dtype {np.asarray(res).dtype}")
    if out != "self":
        expect(np.array_equal(a, orig), f"{f.__name__} with out={out} changed its input")
        expect(not np.shares_memory(np.asarray(res), a),
               f"{f.__name__} with out={out} returns a view of its input")
    # laws
    r = np.asarray(res).astype(LD)
    if case["which"] == "double":
        expect(np.max(np.abs(r.sum(axis=0))) <= tol * n
               and np.max(np.abs(r.sum(axis=1))) <= tol * n,
               "double centred rows/columns do not sum to 0")
        arrays_close(call(f, np.array(r, dtype=float)), r, 4 * tol, "double centring twice")
    else:
        expect(not np.any(np.diagonal(r)), "U-centred diagonal is not 0")
        if not np.any(np.diagonal(orig)):
            expect(np.max(np.abs(r.sum(axis=0))) <= 10 * tol * n,
                   "U-centred rows do not sum to 0")
            if n > 3:
                arrays_close(call(f, np.array(r, dtype=float)), r, 10 * tol,
                             "U-centring twice")
    labels = [f"out={out}", case["which"]]
    if n < 4 or s == 0:
        labels.append("trivial")
    return labels


@st.composite
def prod_cases(draw, lo=4, hi=40):
    n = draw(gen.sizes(lo, hi))
    centered = draw(st.booleans())
    m = matrix(n=n, asym=not centered)
    lay = st.sampled_from(["C", "C", "F", "T", "strided", "neg"])
    return {"a": draw(m), "b": draw(m), "c": draw(m), "la": draw(lay), "lb": draw(lay),
            "centered": centered, "rect": draw(st.integers(0, 5)),
            "t": draw(st.sampled_from([2.0, -0.5, 3.7]))}


def _lay(a, how):
    """The same matrix in another memory layout."""
    if how == "F":
        return np.asfortranarray(a)
    if how == "T":
        return np.ascontiguousarray(a.T).T
    if how == "strided":
        b = np.full((2 * a.shape[0], 3 * a.shape[1]), 1e300)
        b[::2, 1::3] = a
        return b[::2, 1::3]
    if how == "neg":
        return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    return a


def check_prod(case):
    a, b, c = build(case["a"]), build(case["b"]), build(case["c"])
    n = a.shape[0]
    if case["centered"]:
        a, b, c = (call(dcor.u_centered, m * 1.0) for m in (a, b, c))
    a, b = _lay(a, case["la"]), _lay(b, case["lb"])
    sa, sb, sc = (float(np.max(np.abs(m))) for m in (a, b, c))
    eps = 1e-14 * (20 + n)
    if case["rect"] and case["rect"] < n:
        k = case["rect"]
        close(call(dcor.mean_product, a[:k], b[:k]),
              np.mean(a[:k].astype(LD) * b[:k]), eps * sa * sb + 1e-300,
              "mean_product of rectangular matrices")
    close(call(dcor.mean_product, a, b), np.mean(a.astype(LD) * b),
          eps * sa * sb + 1e-300, "mean_product")
    close(call(dcor.u_product, a, b), uprod(a, b), 5 * eps * sa * sb + 1e-300, "u_product")
    orig = (a.copy(), b.copy(), c.copy())
    proj = call(dcor.u_projection, a)
    comp = call(dcor.u_complementary_projection, a)
    aa = uprod(a, a)
    labels = []
    if not np.any(a):
        want = lambda m: np.zeros((n, n), dtype=LD)  # noqa: E731
        amp = 0.0
        labels.append("null")
    elif aa < 1e-9 * sa * sa:
        return ["trivial"]
    else:
        want = lambda m: uprod(m, a) / aa * a.astype(LD)  # noqa: E731
        amp = float(sa * sa / aa)
    for m, s in ((b, sb), (c, sc), (b, sb), (a, sa)):
        t = eps * 20 * s * (1 + amp) + 1e-300
        arrays_close(call(proj, m), want(m), t, "u_projection")
        arrays_close(call(comp, m), m.astype(LD) - want(m), t,
                     "u_complementary_projection")
        # the results are new arrays: changing one does not change the next
        for f, w in ((proj, want(m)), (comp, m.astype(LD) - want(m))):
            r = call(f, m)
            r[...] = 1e300
            arrays_close(call(f, m), w, t, "projection after changing an earlier result")
    # laws
    pb = np.asarray(call(proj, b), dtype=float)
    cb = np.asarray(call(comp, b), dtype=float)
    t = eps * 40 * sb * (1 + amp) ** 2 + 1e-300
    arrays_close(call(proj, pb), pb, t, "u_projection twice")
    arrays_close(call(comp, cb), cb, t, "u_complementary_projection twice")
    arrays_close(pb + cb, b, t, "u_projection + u_complementary_projection")
    expect(abs(uprod(cb, a)) <= eps * 100 * sa * sb * (1 + amp) + 1e-300,
           "the complementary projection is not orthogonal")
    expect(all(np.array_equal(p, q) for p, q in zip((a, b, c), orig)),
           "the projections changed their arguments")
    labels.append("centered" if case["centered"] else "raw")
    if sb == 0:
        labels.append("trivial")
    return labels


LEGS = [
    Leg("centring", center_cases, check_center, quick=4000, thorough=80000),
    Leg("centring-larger", lambda: center_cases(lo=41, hi=600), check_center, quick=120,
        thorough=3000),
    Leg("products-larger", lambda: prod_cases(lo=41, hi=400), check_prod, quick=80,
        thorough=2000),
    Leg("centring-big", lambda: center_cases(lo=1020, hi=1300), check_center, quick=10,
        thorough=200),
    Leg("products-big", lambda: prod_cases(lo=1020, hi=1300), check_prod, quick=6, thorough=120),
    Leg("products", prod_cases, check_prod, quick=3000, thorough=60000),
]
