"""Contracts standing in for compiled library routines when their operands are symbolic (used on the symbolic side
only; the replay runs the real library)."""
import numpy as np


def _median_sorted(S, xs, rank):
    """element of given rank of a list (selection by a min/max network)"""
    xs = list(xs)
    n = len(xs)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = xs[j], xs[j + 1]
            c = b < a
            xs[j], xs[j + 1] = S.ite(c, b, a), S.ite(c, a, b)
    return xs[rank]


def median_filter(S):
    def f(x, size=None, footprint=None, output=None, mode='reflect', cval=0.0, origin=0, **kw):
        assert footprint is None and output is None and origin == 0
        x = S.np.asarray(x)
        if x.ndim == 1:
            k = size if not isinstance(size, (tuple, list)) else size[0]
            n = x.shape[0]
            out = []
            for i in range(n):
                w = []
                for j in range(i - k // 2, i - k // 2 + k):
                    w.append(x[_edge(j, n, mode)])
                out.append(_median_sorted(S, w, k // 2))
            return S.np.array(out)
        ks = size if isinstance(size, (tuple, list)) else (size, size)
        n, m = x.shape
        out = S.np.zeros((n, m))
        for i in range(n):
            for j in range(m):
                w = []
                for a in range(i - ks[0] // 2, i - ks[0] // 2 + ks[0]):
                    for b in range(j - ks[1] // 2, j - ks[1] // 2 + ks[1]):
                        w.append(x[_edge(a, n, mode), _edge(b, m, mode)])
                out[i, j] = _median_sorted(S, w, len(w) // 2)
        return out
    return f


def _edge(j, n, mode):
    if mode == 'nearest':
        return min(max(j, 0), n - 1)
    if mode == 'reflect':
        while j < 0 or j >= n:
            j = -j - 1 if j < 0 else 2 * n - 1 - j
        return j
    if mode == 'mirror':
        while j < 0 or j >= n:
            j = -j if j < 0 else 2 * n - 2 - j
        return j
    if mode == 'wrap':
        return j % n
    raise NotImplementedError(mode)


def lin1(S, xs, ys, x, clamp=True, lo=None, hi=None):
    """piecewise linear interpolation through (xs, ys), xs increasing; outside: edge values (or lo/hi)"""
    n = len(xs)
    lo = ys[0] if lo is None else lo
    hi = ys[n - 1] if hi is None else hi
    r = hi
    for i in range(n - 2, -1, -1):
        seg = ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])
        r = S.ite(x <= xs[i + 1], seg, r)
    return S.ite(x < xs[0], lo, r)


def interp1d(S):
    class I1:
        def __init__(self, x, y, kind='linear', bounds_error=None, fill_value=None, **k):
            assert kind == 'linear'
            self.x, self.y, self.be, self.fv = x, y, bounds_error, fill_value

        def __call__(self, q):
            q = S.np.asarray(q)
            n = len(self.x)
            if isinstance(self.fv, tuple):
                lo, hi = self.fv
            elif isinstance(self.fv, str) and self.fv == 'extrapolate':
                lo = hi = 'x'
            elif self.fv is None:
                lo = hi = float('nan')
            else:
                lo = hi = self.fv

            def one(v):
                if lo == 'x':
                    l = self.y[0] + (self.y[1] - self.y[0]) * (v - self.x[0]) / (self.x[1] - self.x[0])
                    h = self.y[n - 2] + (self.y[n - 1] - self.y[n - 2]) * (v - self.x[n - 2]) / (self.x[n - 1] - self.x[n - 2])
                    return lin1(S, self.x, self.y, v, lo=l, hi=h)
                return lin1(S, self.x, self.y, v, lo=lo, hi=hi)
            if q.ndim == 0:
                return S.np.array(one(q[()]))
            out = S.np.zeros(q.shape)
            for i in np.ndindex(q.shape):
                out[i] = one(q[i])
            return out
    return I1


def bilinear_spline(S):
    class RBS:
        """RectBivariateSpline with kx=ky=1: bilinear inside, edge values outside"""
        def __init__(self, x, y, z, bbox=None, kx=3, ky=3, s=0):
            assert kx == 1 and ky == 1 and s == 0
            self.x, self.y, self.z = x, y, z

        def __call__(self, xq, yq, dx=0, dy=0, grid=True):
            xs = np.atleast_1d(S.np.asarray(xq))
            ys = np.atleast_1d(S.np.asarray(yq))

            def val(xv, yv):
                col = [lin1(S, self.y, self.z[i], yv) for i in range(len(self.x))]
                return lin1(S, self.x, col, xv)
            if not grid:
                return S.np.array([val(a, b) for a, b in zip(xs, ys)])
            out = S.np.zeros((len(xs), len(ys)))
            for i in range(len(xs)):
                for j in range(len(ys)):
                    out[i, j] = val(xs[i], ys[j])
            return out
    return RBS


def use(S, **qual):
    """register stubs for the symbolic run: use(S, **{'scipy.ndimage.median_filter': f})"""
    if not S.symbolic:
        return
    from symnp import patch
    for k, v in qual.items():
        patch.STUBS[k] = v


def standard(S):
    use(S, **{'scipy.ndimage.median_filter': median_filter(S),
              'scipy.interpolate.interp1d': interp1d(S),
              'scipy.interpolate.RectBivariateSpline': bilinear_spline(S)})
