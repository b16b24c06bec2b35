"""Calls into the code under test and comparisons."""
import numpy as np

import dcor
from .core import Violation


def call(f, *args, **kwargs):
    """Call dcor with valid arguments: an exception is a violation."""
    try:
        return f(*args, **kwargs)
    except Exception as exc:  # noqa: BLE001
        name = getattr(f, "__name__", repr(f))
        raise Violation(
            f"{name}({', '.join(_short(a) for a in args)}, "
            f"{', '.join(f'{k}={v!r}' for k, v in kwargs.items())}) "
            f"raised {type(exc).__name__}: {exc}") from exc


def _short(a):
    if isinstance(a, np.ndarray):
        return f"<{a.dtype} {a.shape}>"
    r = repr(a)
    return r if len(r) < 60 else r[:57] + "..."


def num(v, what="result"):
    """A scalar result as a long double."""
    try:
        arr = np.asarray(v)
        if arr.ndim and arr.size != 1:
            raise Violation(f"{what}: expected one number, got shape {arr.shape}")
        item = arr.reshape(-1)[0]
        return np.longdouble(item) if not isinstance(item, complex) else _bad(what, v)
    except Violation:
        raise
    except Exception as exc:  # noqa: BLE001
        raise Violation(f"{what}: {v!r} is not a number ({exc})") from exc


def _bad(what, v):
    raise Violation(f"{what}: {v!r} is not a real number")


def close(got, want, tol, what):
    g = num(got, what)
    if not np.isfinite(g):
        raise Violation(f"{what}: got {got!r}, expected {float(want)!r}")
    if not abs(g - want) <= tol:
        raise Violation(f"{what}: got {float(g)!r}, expected {float(want)!r} "
                        f"(difference {float(abs(g - want)):.3g} > {tol:.3g})")


def close_root(got, want_sq, tol_sq, what):
    """got is the root of a (clipped) squared quantity known up to tol_sq."""
    g = num(got, what)
    if not np.isfinite(g) or g < 0:
        raise Violation(f"{what}: got {got!r}, expected a root of {float(want_sq)!r}")
    want = max(want_sq, 0)
    # relative rounding of the root itself
    if not abs(g * g - want) <= tol_sq + 1e-14 * abs(want):
        raise Violation(f"{what}: got {float(g)!r}, whose square is not "
                        f"{float(want)!r} (tolerance {tol_sq:.3g})")


def finite(got, what):
    g = num(got, what)
    if not np.isfinite(g):
        raise Violation(f"{what}: got {got!r}, which is not finite")


def check_corr(got, ref, what):
    """Squared correlation against the reference."""
    if ref.const:
        g = num(got, what)
        if not abs(g) <= 1e-12:
            raise Violation(f"{what}: {got!r} with a constant sample, expected 0")
    elif ref.degenerate:
        finite(got, what)
    else:
        close(got, ref.r2, ref.tr2, what)


def check_corr_root(got, ref, what):
    if ref.const:
        g = num(got, what)
        if not abs(g) <= 1e-6:
            raise Violation(f"{what}: {got!r} with a constant sample, expected 0")
    elif ref.degenerate:
        finite(got, what)
    else:
        close_root(got, ref.r2, ref.tr2, what)


def arrays_close(got, want, tol, what):
    g = np.asarray(got)
    w = np.asarray(want)
    if g.shape != w.shape:
        raise Violation(f"{what}: shape {g.shape}, expected {w.shape}")
    if g.size == 0:
        return
    try:
        g = g.astype(np.longdouble)
    except (TypeError, ValueError) as exc:
        raise Violation(f"{what}: not numeric ({exc})") from exc
    diff = np.abs(g - w)
    ok = np.isfinite(g) & (diff <= tol)
    if not ok.all():
        k = tuple(int(t) for t in np.argwhere(~ok)[0])
        raise Violation(f"{what}: element {k} is {float(g[k])!r}, expected "
                        f"{float(w[k])!r} (tolerance {float(np.max(tol)):.3g})")


def expect(cond, msg):
    if not cond:
        raise Violation(msg)


METHODS = ("auto", "naive", "avl", "mergesort")
COMPILE = {
    "AUTO": dcor.CompileMode.AUTO,
    "NO_COMPILE": dcor.CompileMode.NO_COMPILE,
    "COMPILE_CPU": dcor.CompileMode.COMPILE_CPU,
    "COMPILE_PARALLEL": dcor.CompileMode.COMPILE_PARALLEL,
}
METHOD_ENUM = {m: dcor.DistanceCovarianceMethod[m.upper()] for m in METHODS}
