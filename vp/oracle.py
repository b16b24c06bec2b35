"""Reference implementations, straight from the definitions, in long double."""
import numpy as np

LD = np.longdouble


def col(x):
    x = np.asarray(x)
    return x[:, None] if x.ndim == 1 else x


def _power(m):
    """A power of two close to m: scaling by it is exact."""
    return np.ldexp(LD(1), int(np.frexp(m)[1]))


def dist(x, y=None, e=1.0):
    x = col(x).astype(LD)
    y = x if y is None else col(y).astype(LD)
    if len(x) * len(y) * x.shape[1] > 1000000:
        return _dist_columns(x, y, e)
    diff = x[:, None, :] - y[None, :, :]
    # scale so that squares neither overflow nor underflow
    m = np.max(np.abs(diff)) if diff.size else LD(0)
    if m == 0:
        return np.zeros(diff.shape[:2], dtype=LD)
    m = _power(m)
    diff = diff / m
    d = np.sqrt(np.sum(diff * diff, axis=-1)) * m
    if e != 1:
        d = np.where(d > 0, d, LD(0)) ** LD(e)
    return d


def _dist_columns(x, y, e):
    """The same, without the three dimensional array."""
    m = max(abs(x[:, c].max() - y[:, c].min()) for c in range(x.shape[1]))
    m = max(m, max(abs(y[:, c].max() - x[:, c].min()) for c in range(x.shape[1])))
    if m == 0:
        return np.zeros((len(x), len(y)), dtype=LD)
    m = _power(m)
    s = np.zeros((len(x), len(y)), dtype=LD)
    for c in range(x.shape[1]):
        d = (x[:, c, None] - y[None, :, c]) / m
        d *= d
        s += d
    np.sqrt(s, out=s)
    s *= m
    return s if e == 1 else s ** LD(e)


def dcenter(a):
    a = np.asarray(a, dtype=LD)
    return (a - a.mean(axis=1, keepdims=True) - a.mean(axis=0, keepdims=True)
            + a.mean())


def ucenter(a):
    a = np.asarray(a, dtype=LD)
    n = a.shape[0]
    out = (a - a.sum(axis=1, keepdims=True) / (n - 2)
           - a.sum(axis=0, keepdims=True) / (n - 2)
           + a.sum() / ((n - 1) * (n - 2)))
    np.fill_diagonal(out, 0)
    return out


def uprod(a, b):
    n = a.shape[0]
    return np.sum(np.asarray(a, dtype=LD) * np.asarray(b, dtype=LD)) / LD(n * (n - 3))


def cov_b(a, b):
    """Biased squared distance covariance from two distance matrices."""
    return np.mean(dcenter(a) * dcenter(b))


def cov_u(a, b):
    return uprod(ucenter(a), ucenter(b))


EPS = 1e-13


def floor_of(x, e=1.0):
    """Distance that rounding of the coordinates (e.g. a common shift) gives."""
    x = np.asarray(x)
    if x.dtype.kind not in "fiub" or not x.size:
        return 0.0
    return (64 * 2.0 ** -53 * float(np.max(np.abs(x.astype(float))))) ** e


def cov_tol(a, b, fa=0.0, fb=0.0):
    """Rounding allowed for a (co)variance computed in double precision."""
    n = a.shape[0]
    return float(EPS * (10 + n)) * (max(float(np.max(a)), fa)
                                    * max(float(np.max(b)), fb)) + 1e-300


class Ref:
    """All reference quantities of a pair of samples."""

    def __init__(self, x, y, e=1.0, unbiased=False, tolx=1.0):
        self.a = dist(x, e=e)
        self.b = dist(y, e=e)
        self.n = self.a.shape[0]
        f = cov_u if unbiased else cov_b
        self.unbiased = unbiased
        self.cov = f(self.a, self.b)
        self.vx = f(self.a, self.a)
        self.vy = f(self.b, self.b)
        u = 6.0 if unbiased else 1.0
        fa, fb = floor_of(x, e), floor_of(y, e)
        self.tcov = cov_tol(self.a, self.b, fa, fb) * u * tolx
        self.tvx = cov_tol(self.a, self.a, fa, fa) * u * tolx
        self.tvy = cov_tol(self.b, self.b, fb, fb) * u * tolx
        self.constx = not np.any(self.a)
        self.consty = not np.any(self.b)
        self.const = self.constx or self.consty
        # variance so small that rounding can dominate it
        self.degenerate = (not self.const) and (
            self.vx < 1e4 * self.tvx or self.vy < 1e4 * self.tvy)
        if self.const or self.degenerate:
            self.r2 = LD(0)
            self.tr2 = 0.0
        else:
            den = np.sqrt(self.vx * self.vy)
            self.r2 = self.cov / den
            self.tr2 = float(
                self.tcov / den
                + abs(self.r2) * (self.tvx / self.vx + self.tvy / self.vy)
            ) + 1e-14


class Atoms:
    """Reference for a discrete joint sample given by counts: any n."""

    def __init__(self, u, w, i, j):
        n = len(i)
        self.n = n
        N = np.zeros((len(u), len(w)), dtype=LD)
        np.add.at(N, (i, j), LD(1))
        A = np.abs(u[:, None].astype(LD) - u[None, :].astype(LD))
        B = np.abs(w[:, None].astype(LD) - w[None, :].astype(LD))
        self.A, self.B, self.N = A, B, N
        self.fu, self.fw = floor_of(u), floor_of(w)

    def _cov(self, N, A, B, unbiased):
        n = LD(self.n)
        # S1 = sum_{kl} a_kl b_kl ; row sums by atom
        S1 = np.sum(N * (A @ N @ B))
        ra = A @ N.sum(axis=1)
        rb = B @ N.sum(axis=0)
        S2 = np.sum(N * ra[:, None] * rb[None, :])
        S3 = (ra @ N.sum(axis=1)) * (rb @ N.sum(axis=0))
        if unbiased:
            return (S1 - 2 * S2 / (n - 2) + S3 / ((n - 1) * (n - 2))) / (n * (n - 3))
        return S1 / n ** 2 - 2 * S2 / n ** 3 + S3 / n ** 4

    def cov(self, unbiased=False):
        return self._cov(self.N, self.A, self.B, unbiased)

    def varx(self, unbiased=False):
        return self._cov(np.diag(self.N.sum(axis=1)), self.A, self.A, unbiased)

    def vary(self, unbiased=False):
        return self._cov(np.diag(self.N.sum(axis=0)), self.B, self.B, unbiased)

    def tol(self, A, B):
        # summation errors grow like sqrt(n) at most for pairwise/compensated
        # data; n * eps is the worst case that is accepted.
        fa = self.fu if A is self.A else self.fw
        fb = self.fu if B is self.A else self.fw
        return float(1e-13 * 10 + 4e-16 * self.n) * (max(float(A.max()), fa)
                                                     * max(float(B.max()), fb))


def energy(x, y, e=1.0, unbiased=False, average=None):
    dxx, dyy, dxy = dist(x, e=e), dist(y, e=e), dist(x, y, e=e)
    if average is None:
        average = np.mean
    if unbiased:
        dxx = dxx[np.triu_indices(dxx.shape[0], 1)]
        dyy = dyy[np.triu_indices(dyy.shape[0], 1)]
    return 2 * average(dxy) - average(dxx) - average(dyy)
