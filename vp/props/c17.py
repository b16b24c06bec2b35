"""C17: the functions are pure: no input changes, no memory, no layout."""
import contextlib
import decimal
import io
import os
import random
import sys
import warnings

import dcor
import numba
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..api import (COMPILE, arrays_close, call, check_corr, check_corr_root, close,
                   close_root, expect, num)
from ..core import Leg, Violation
from ..oracle import Ref, cov_tol, dcenter, dist, energy, ucenter, uprod

ID = "C17"
RULE = (
    "Histories: a pool of samples and a sequence of calls (every public "
    "function, positional/keyword options, arguments in any memory layout: C, "
    "Fortran, strided, reversed, read-only, unaligned, 1-D or column, same "
    "object twice) interleaved with in-place changes of the samples and of "
    "earlier results; oracle after each step: the definition in long double "
    "(or the call on fresh copies), inputs bit-for-bit unchanged, earlier "
    "results unchanged. Also: the settings of NumPy, warnings, decimal, random, "
    "the environment and the output streams are the same after a call. "
    "Non-trivial: at least two calls (a call, for the settings)."
)

LAYOUTS = ("C", "C", "F", "strided", "neg", "readonly", "unaligned", "view", "shape",
           "rowview")
SHARES = ("columns", "rows", "halves", "lag", "same-start")
DEP = ("distance_covariance_sqr", "distance_covariance", "u_distance_covariance_sqr",
       "distance_correlation_sqr", "distance_correlation", "u_distance_correlation_sqr",
       "distance_stats_sqr", "u_distance_stats_sqr", "distance_stats")
OTHER = ("energy_distance", "energy_test_statistic", "pairwise_distances",
         "pairwise_distances1", "partial_distance_covariance",
         "partial_distance_correlation", "af_inv", "dcov_test", "pdcov_test",
         "energy_test", "energy_test3", "t_statistic", "t_test", "double_centered", "u_centered",
         "rowwise", "rowwise_stack", "products", "projection")


@st.composite
def cases(draw, lo=5, hi=40):
    n = draw(gen.sizes(lo, hi))
    d = draw(st.sampled_from([0, 0, 1, 2]))
    k = draw(st.integers(2, 4))
    pool = [draw(gen.sample(n, d if d == 2 else draw(st.sampled_from([0, 1])),
                            gen.FAMILIES, False)) for _ in range(k)]
    idx = st.integers(0, k - 1)
    lay = st.sampled_from(LAYOUTS)
    ops = []
    for _ in range(draw(st.integers(2, 9))):
        kind = draw(st.sampled_from(["call", "call", "call", "other", "other", "mutate",
                                     "spoil", "repeat", "touch", "touch"]))
        if kind == "call":
            op = {"op": "call", "f": draw(st.sampled_from(DEP)), "i": draw(idx),
                  "j": draw(idx), "li": draw(lay), "lj": draw(lay)}
            if draw(st.integers(0, 3)) == 0:
                op["e"] = draw(gen.exponents())
            if d < 2 and "e" not in op and draw(st.booleans()):
                op["m"] = draw(st.sampled_from(["avl", "mergesort", "naive", "auto"]))
                if op["m"] in ("avl", "mergesort") and draw(st.booleans()):
                    op["c"] = draw(st.sampled_from(["NO_COMPILE", "COMPILE_CPU", "COMPILE_CPU"]))
            if draw(st.integers(0, 2)) == 0:
                op["share"] = draw(st.sampled_from(SHARES))
        elif kind == "other":
            op = {"op": "call", "f": draw(st.sampled_from(OTHER)), "i": draw(idx),
                  "j": draw(idx), "k": draw(idx), "li": draw(lay), "lj": draw(lay)}
            if draw(st.integers(0, 3)) == 0:
                op["e"] = draw(gen.exponents())
            if draw(st.integers(0, 2)) == 0:
                op["share"] = draw(st.sampled_from(SHARES))
        elif kind == "touch":
            # change an argument of the last call and call again, with the
            # arguments in other positions
            op = {"op": "touch", "which": draw(st.integers(0, 2)), "s": draw(gen.SEED),
                  "how": draw(st.sampled_from(["one", "scale", "swap", "new", "sort"])),
                  "rot": draw(st.integers(0, 2))}
            if draw(st.integers(0, 2)) == 0:
                op["f"] = draw(st.sampled_from(DEP + OTHER))
        elif kind == "mutate":
            op = {"op": "mutate", "i": draw(idx), "s": draw(gen.SEED),
                  "how": draw(st.sampled_from(["one", "scale", "swap", "new", "sort"]))}
        elif kind == "spoil":
            op = {"op": "spoil"}
        else:
            op = {"op": "repeat"}
        ops.append(op)
    return {"pool": pool, "ops": ops}


def lay(a, how):
    """An array with the values of a in another memory layout."""
    if how == "F":
        return np.asfortranarray(a.copy())
    if how == "strided":
        b = np.full((a.shape[0] * 3,) + a.shape[1:], 1e300)
        b[1::3] = a
        return b[1::3]
    if how == "neg":
        return a[::-1].copy()[::-1]
    if how == "readonly":
        b = a.copy()
        b.flags.writeable = False
        return b
    if how == "unaligned":
        buf = np.zeros(a.nbytes + 1, dtype=np.uint8)
        b = buf[1:].view(a.dtype).reshape(a.shape) if a.size else a.copy()
        b[...] = a
        return b
    if how == "view":
        b = np.full((a.shape[0] + 4,) + a.shape[1:], -1e300)
        b[2:-2] = a
        return b[2:-2]
    if how == "rowview":
        b = np.full((a.shape[0], 3) + a.shape[1:], 7e200)
        b[:, 1] = a
        return b[:, 1]
    if how == "shape":
        if a.ndim == 1:
            return a.copy()[:, None]
        if a.shape[1] == 1:
            return a[:, 0].copy()
        return a.copy()
    return a


def share(a, b, how):
    """Views of one array with the values of a and b (lag: of a only)."""
    n = a.shape[0]
    if how == "columns":
        t = np.concatenate([a.reshape(n, -1), b.reshape(n, -1)], axis=1)
        k = t.shape[1] - (b.shape[1] if b.ndim == 2 else 1)
        x, y = t[:, :k], t[:, k:]
        return (x[:, 0] if a.ndim == 1 else x), (y[:, 0] if b.ndim == 1 else y)
    if how in ("lag", "same-start") or a.shape != b.shape:
        return (a[:-1], a[1:]) if how == "lag" else (a, a[::-1])
    t = np.empty((2 * n,) + a.shape[1:])
    if how == "rows":
        t[::2], t[1::2] = a, b
        return t[::2], t[1::2]
    t[:n], t[n:] = a, b
    return t[:n], t[n:]


def base_of(a):
    while isinstance(a.base, np.ndarray):
        a = a.base
    return a


def snapshot(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    return v


def flat(v):
    """A result as a list of floats."""
    if hasattr(v, "pvalue"):
        v = (v.pvalue, v.statistic)
    if hasattr(v, "covariance_xy"):
        v = (v.covariance_xy, v.correlation_xy, v.variance_x, v.variance_y)
    if isinstance(v, (tuple, list)):
        return np.concatenate([flat(t) for t in v])
    return np.array(np.asarray(v, dtype=float).reshape(-1))


def evaluate(op, x, y, z):
    """Run the call of op on x, y, z."""
    f = op["f"]
    kw = {}
    if "e" in op:
        kw["exponent"] = op["e"]
    if "m" in op:
        kw["method"] = op["m"]
    if "c" in op and f in DEP:
        kw["compile_mode"] = COMPILE[op["c"]]
    if f in DEP:
        return call(getattr(dcor, f), x, y, **kw)
    if f == "energy_distance":
        return call(dcor.energy_distance, x, y, **kw)
    if f == "energy_test_statistic":
        return call(dcor.homogeneity.energy_test_statistic, x, y, **kw)
    if f == "pairwise_distances":
        return call(dcor.distances.pairwise_distances, x, y, **kw)
    if f == "pairwise_distances1":
        return call(dcor.distances.pairwise_distances, x, **kw)
    if f == "partial_distance_covariance":
        return call(dcor.partial_distance_covariance, x, y, z)
    if f == "partial_distance_correlation":
        return call(dcor.partial_distance_correlation, x, y, z)
    if f == "af_inv":
        return call(dcor.distance_correlation_af_inv, x, y)
    if f == "dcov_test":
        return call(dcor.independence.distance_covariance_test, x, y, num_resamples=3,
                    random_state=5, **kw)
    if f == "pdcov_test":
        return call(dcor.independence.partial_distance_covariance_test, x, y, z,
                    num_resamples=3, random_state=5, **kw)
    if f == "energy_test":
        return call(dcor.homogeneity.energy_test, x, y, num_resamples=3, random_state=5, **kw)
    if f == "energy_test3":
        return call(dcor.homogeneity.energy_test, x, y, z, num_resamples=3, random_state=5,
                    estimation_stat="u", **kw)
    if f == "t_statistic":
        return call(dcor.independence.distance_correlation_t_statistic, x, y)
    if f == "t_test":
        return call(dcor.independence.distance_correlation_t_test, x, y)
    if f in ("double_centered", "u_centered"):
        m = call(dcor.distances.pairwise_distances, x, **kw)
        if op.get("li") and op["li"] != "shape":
            m = lay(m, op["li"])
        keep = m.copy()
        res = call(getattr(dcor, f), m)
        expect(np.array_equal(m, keep), f"{f} changed its input")
        return res
    if f == "rowwise":
        return call(dcor.rowwise, dcor.distance_covariance_sqr, [x, y, z], [y, z, x], **kw)
    if f == "rowwise_stack":
        cols = [t.reshape(t.shape[0], -1) for t in (x, y, z)]
        if cols[0].shape[1] == 1 and x.ndim == 1:
            cols = [t[:, 0] for t in cols]
        xs = lay(np.stack(cols), op.get("li", "C").replace("shape", "C"))
        ys = lay(np.stack(cols[1:] + cols[:1]), op.get("lj", "C").replace("shape", "C"))
        keep = xs.copy(), ys.copy()
        res = call(dcor.rowwise, dcor.distance_covariance_sqr, xs, ys, **kw)
        more = [call(dcor.rowwise, g, xs, ys, **kw) for g in (
            dcor.u_distance_covariance_sqr, dcor.distance_correlation,
            dcor.distance_covariance)]
        expect(np.array_equal(xs, keep[0]) and np.array_equal(ys, keep[1]),
               "rowwise changed its argument")
        held = [m.copy() for m in more]
        for m in more:
            m[...] = -12345.0
        again = call(dcor.rowwise, dcor.u_distance_covariance_sqr, xs, ys, **kw)
        expect(np.array_equal(again, held[0]), "the result of rowwise changes with what is done "
                                               "to earlier ones")
        return res
    if f in ("products", "projection"):
        a = call(dcor.u_centered, call(dcor.distances.pairwise_distances, x, **kw))
        b = call(dcor.u_centered, call(dcor.distances.pairwise_distances, y, **kw))
        if op.get("li") and op["li"] != "shape":
            a = lay(a, op["li"])
        if op.get("lj") and op["lj"] != "shape":
            b = lay(b, op["lj"])
        ka, kb = a.copy(), b.copy()
        if f == "products":
            res = (call(dcor.mean_product, a, b), call(dcor.u_product, a, b))
        else:
            p, q = call(dcor.u_projection, a), call(dcor.u_complementary_projection, a)
            res = (call(p, b), call(q, b))
            again = (call(p, a), call(q, a))
            keep = [r.copy() for r in res]
            for r in again:
                r[...] = -12345.0
            expect(all(np.array_equal(r, k) for r, k in zip(res, keep)),
                   "a result of a projection shares its memory with another one")
            expect(np.array_equal(call(p, b), res[0]) and np.array_equal(call(q, b), res[1]),
                   "the result of a projection changes with what is done to earlier ones")
        expect(np.array_equal(a, ka) and np.array_equal(b, kb), f"{f} changed its input")
        return res
    raise ValueError(f)


def judge(op, res, x, y, z):
    """Compare with the definition where there is a direct one."""
    f = op["f"]
    e = op.get("e", 1.0)
    if f in DEP:
        unb = f.startswith("u_")
        r = Ref(x, y, e, unbiased=unb)
        if "stats" in f:
            sq = f != "distance_stats"
            cmp_ = close if sq else close_root
            cmp_(res.covariance_xy, r.cov, r.tcov, f + ".covariance_xy")
            cmp_(res.variance_x, r.vx, r.tvx, f + ".variance_x")
            cmp_(res.variance_y, r.vy, r.tvy, f + ".variance_y")
            (check_corr if sq else check_corr_root)(res.correlation_xy, r, f + ".correlation_xy")
        elif "covariance" in f:
            (close if f.endswith("_sqr") else close_root)(res, r.cov, r.tcov, f)
        else:
            (check_corr if f.endswith("_sqr") else check_corr_root)(res, r, f)
        return True
    if f == "energy_distance" or f == "energy_test_statistic":
        n, m = len(x), len(y)
        k = 1.0 if f == "energy_distance" else n * m / (n + m)
        dm = float(np.max(dist(np.concatenate([x.reshape(n, -1), y.reshape(m, -1)]), e=e)))
        close(res, energy(x, y, e) * k, k * (1e-12 * dm) * 4 + 1e-300, f)
        return True
    if f in ("pairwise_distances", "pairwise_distances1"):
        want = dist(x, y if f == "pairwise_distances" else None, e)
        arrays_close(res, want, 1e-12 * want + 1e-290, f)
        return True
    if f in ("double_centered", "u_centered"):
        a = dist(x, e=e)
        want = dcenter(a) if f == "double_centered" else ucenter(a)
        arrays_close(res, want, 1e-12 * float(np.max(a)) + 1e-290, f)
        return True
    if f in ("rowwise", "rowwise_stack"):
        expect(np.asarray(res).shape == (3,), f"rowwise returned {res!r} for three pairs")
        for v, (p, q) in zip(np.asarray(res), ((x, y), (y, z), (z, x))):
            r = Ref(p, q, e)
            close(v, r.cov, r.tcov, f)
        return True
    if f == "partial_distance_covariance":
        return False
    return False


def mutate(a, op):
    rng = np.random.RandomState(op["s"])
    if op["how"] == "one":
        a[rng.randint(a.shape[0])] += rng.choice([1.0, -3.5, 0.25])
    elif op["how"] == "scale":
        a *= rng.choice([-2.0, 0.5, 3.0])
    elif op["how"] == "swap":
        i, j = rng.randint(a.shape[0], size=2)
        a[[i, j]] = a[[j, i]]
    elif op["how"] == "sort":
        a.sort(axis=0)
    else:
        a[...] = rng.normal(size=a.shape)


def check(case):
    pool = [gen.build(s) for s in case["pool"]]
    history = []       # (op, result object, snapshot)
    deferred = []
    last = None
    calls = 0
    labels = set()
    for step, op in enumerate(case["ops"]):
        if op["op"] == "mutate":
            mutate(pool[op["i"]], op)
            labels.add("mutate")
            continue
        if op["op"] == "spoil":
            # overwrite the arrays that earlier calls returned
            for _, res, _ in history:
                for v in res if isinstance(res, tuple) else (res,):
                    if isinstance(v, np.ndarray) and v.ndim and v.flags.writeable:
                        v[...] = -12345.0
            history = []
            labels.add("spoil")
            continue
        if op["op"] == "repeat":
            if last is None:
                continue
            op = last
        if op["op"] == "touch":
            if last is None:
                continue
            args = [last["i"], last["j"], last.get("k", 0)]
            mutate(pool[args[op["which"]]], op)
            r = op["rot"]
            args = args[r:] + args[:r]
            new = dict(last, i=args[0], j=args[1], k=args[2], li="C", lj="C")
            if "f" in op:
                new["f"] = op["f"]
                if op["f"] not in DEP:
                    new.pop("m", None)
            op = new
            labels.add("touch")
        last = op
        i, j, k = op["i"], op["j"], op.get("k", 0)
        keep = [a.copy() for a in pool]
        x = lay(pool[i], op["li"])
        y = x if (i == j and op["li"] == op["lj"]) else lay(pool[j], op["lj"])
        z = pool[k]
        if "share" in op:
            x, y = share(pool[i], pool[j], op["share"])
            if op["share"] == "lag":
                z = z[1:]
            labels.add("share=" + op["share"])
        bases = [base_of(t) for t in (x, y)]
        kb = [b.copy() for b in bases]
        res = evaluate(op, x, y, z)
        calls += 1
        for b, c in zip(bases, kb):
            expect(np.array_equal(b, c), f"step {step}: {op['f']} changed its argument")
        for a, c in zip(pool, keep):
            expect(a.tobytes() == c.tobytes(), f"step {step}: {op['f']} changed a sample")
        rx, ry, rz = keep[i], keep[j], keep[k]
        if "share" in op:
            rx, ry = np.array(x), np.array(y)
            rz = np.array(z)
        try:
            if not judge(op, res, rx, ry, rz):
                # compared at the end, not to disturb the history
                deferred.append((step, op, flat(res), np.array(rx), np.array(ry), np.array(rz)))
        except Violation as exc:
            raise Violation(f"step {step} ({op['f']}, layouts {op['li']}/{op['lj']}): {exc}") from exc
        for o, r, s in history:
            expect(np.array_equal(flat(r), s, equal_nan=True),
                   f"step {step}: the result of an earlier {o['f']} changed")
        history.append((op, res, flat(res)))
        labels.add(op["f"])
        labels.add("layout=" + op["li"])
    for step, op, a, rx, ry, rz in deferred:
        b = flat(evaluate(op, rx.copy(), ry.copy(), rz.copy()))
        s = scale(op, rx, ry, rz)
        if s is None:
            continue
        if op["f"].endswith(("_test", "_test3")) \
                and op["f"] != "t_test" and ties(op, rx, ry, rz):
            # the p-value may depend on ties up to rounding
            a, b = a[1:], b[1:]
        expect(a.shape == b.shape and np.all(
            (np.abs(a - b) <= s) | (a == b) | (np.isnan(a) & np.isnan(b))),
            f"step {step} ({op['f']}, layouts {op['li']}/{op['lj']}): gives {a[:4]!r}, "
            f"on fresh copies after the history {b[:4]!r}")
    if calls < 2:
        labels.add("trivial")
    return labels


def scale(op, x, y, z):
    """Tolerance against the call on fresh copies (None: ill conditioned)."""
    f = op["f"]
    e = op.get("e", 1.0)
    n = len(x)
    a, b, c = (dist(t, e=e) for t in (x, y, z))
    ma, mb = float(np.max(a)), float(np.max(b))
    if f in ("partial_distance_covariance", "pdcov_test", "partial_distance_correlation"):
        # projections on z: skip the badly conditioned ones
        ua, ub, uc = ucenter(a), ucenter(b), ucenter(c)
        cc = uprod(uc, uc)
        if np.any(c) and cc < 1e-6 * float(np.max(c)) ** 2:
            return None
        if f == "partial_distance_correlation":
            aa, bb = uprod(ua, ua), uprod(ub, ub)
            if not (aa > 1e-6 * ma ** 2 and bb > 1e-6 * mb ** 2):
                return None
            if np.any(c):
                for u, uu in ((ua, aa), (ub, bb)):
                    if 1 - uprod(u, uc) ** 2 / (uu * cc) < 1e-6:
                        return None
            return 1e-6
        if f == "pdcov_test":
            return 1e-7 * n * ma * mb
        return 1e-7 * ma * mb
    if f in ("dcov_test", "energy_test", "energy_test3"):
        m = max(ma, mb, float(np.max(c)), 1.0) + 10 * float(
            max(np.max(np.abs(t)) for t in (x, y, z)) + 1) ** e
        return 1e-9 * n * n * max(m, m * m)
    if f == "af_inv":
        for t in (x, y):
            t2 = t.reshape(n, -1)
            t2 = t2 - t2.mean(axis=0)
            s = np.linalg.svd(t2, compute_uv=False)
            if s[-1] < 1e-3 * s[0] or s[0] == 0:
                return None
        return 1e-6
    if f in ("t_statistic", "t_test"):
        r = Ref(x, y, unbiased=True)
        if r.const:
            return 1e-3
        if r.degenerate or 1 - abs(r.r2) < 1e-3:
            return None
        return 1e-5 * n
    if f in ("products", "projection"):
        if f == "projection":
            ua = ucenter(a)
            if np.any(a) and uprod(ua, ua) < 1e-6 * ma ** 2:
                return None
        return 1e-9 * (1 + ma) * (1 + mb) * n
    return None


def ties(op, x, y, z):
    """Discrete data: permuted statistics can tie up to rounding."""
    return any(len(np.unique(t, axis=0)) < len(t) for t in (x, y, z)) or len(x) <= 8 \
        or np.array_equal(x.reshape(-1), y.reshape(-1))


# The surroundings of the call ----------------------------------------------

@st.composite
def around_cases(draw):
    n = draw(gen.sizes(5, 20))
    d = draw(st.sampled_from([0, 0, 1, 2]))
    fam = ("const", "normal", "bin", "int", "onehot")
    op = {"op": "call", "f": draw(st.sampled_from(DEP + OTHER + (
        "rowwise_corr", "rowwise_corr", "rowwise_corr_sqr", "rowwise_u"))), "li": "C", "lj": "C"}
    if draw(st.booleans()):
        op["e"] = draw(st.one_of(gen.exponents(), st.sampled_from([2.0, 2.5, 0.0, -0.5])))
    elif d < 2 and op["f"] in DEP:
        op["m"] = draw(st.sampled_from(["avl", "mergesort", "naive", "auto"]))
    return {"samples": [draw(gen.sample(n, d, fam, False)) for _ in range(3)], "call": op,
            "err": draw(st.sampled_from(["warn", "ignore"]))}


def surroundings():
    """What a call must leave alone."""
    ctx = decimal.getcontext()
    s = np.random.get_state()
    return {
        "NumPy error handling": np.geterr(), "NumPy error callback": np.geterrcall(),
        "NumPy print options": repr(sorted(np.get_printoptions().items())),
        "warning filters": list(warnings.filters),
        "decimal context": (ctx.prec, ctx.rounding, ctx.Emin, ctx.Emax),
        "recursion limit": sys.getrecursionlimit(), "working directory": os.getcwd(),
        "environment": dict(os.environ), "random state": random.getstate(),
        "NumPy random state": (s[0], s[1].tobytes()) + s[2:],
        "Numba threads": numba.get_num_threads(),
    }


def _run_around(case):
    x, y, z = (gen.build(s) for s in case["samples"])
    op = case["call"]
    out = io.StringIO()
    with warnings.catch_warnings(record=True), np.errstate(
            divide=case["err"], invalid=case["err"], over=case["err"]), \
            contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        warnings.simplefilter("always")
        before = surroundings()
        f = {"rowwise_corr": dcor.distance_correlation,
             "rowwise_corr_sqr": dcor.distance_correlation_sqr,
             "rowwise_u": dcor.u_distance_correlation_sqr}.get(op["f"])
        if f:
            kw = {"exponent": op["e"]} if "e" in op else {}
            call(dcor.rowwise, f, [x, y, z], [y, z, x], **kw)
        else:
            with contextlib.suppress(Violation):
                evaluate(op, x, y, z)
        after = surroundings()
    return before, after, out.getvalue()


_WARM = set()


def check_around(case):
    f = case["call"]["f"]
    if f not in _WARM:         # imports and compilation, the first time
        _run_around(case)
        _WARM.add(f)
    before, after, out = _run_around(case)
    for k in before:
        expect(before[k] == after[k], f"{f} changed the {k}: {str(before[k])[:200]} became "
                                      f"{str(after[k])[:200]}")
    expect(not out, f"{f} wrote {out[:100]!r}")
    return [f]


LEGS = [Leg("histories", cases, check, quick=7000, thorough=120000),
        Leg("surroundings", around_cases, check_around, quick=1500, thorough=20000),
        Leg("larger", lambda: cases(lo=60, hi=300), check, quick=160, thorough=4000)]
