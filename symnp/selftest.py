"""The encoding against numpy: each operation runs once on plain arrays and once on symbolic arrays whose variables are
pinned to the same values; the two results must agree.  Exits non-zero on a disagreement."""
import os
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.environ.setdefault('HOME', '/root')
os.environ['HOME'] = tempfile.mkdtemp(prefix='vrf_st_', dir='/tmp')

import shutil
import warnings
import numpy as np

warnings.simplefilter('ignore')
nan = float('nan')

A = np.array([[1.5, -2.0, nan], [0.0, 4.25, -2.0]])
B = np.array([[2.0, 3.0, 1.0], [-1.0, 0.5, 2.0]])
C = np.array([3.5, -1.0, 2.0, 2.0, 0.25])
Q = np.array([[3, 128, 0], [65535, 7, 32]], dtype=np.uint16)
I = np.array([4, -2, 7, 0], dtype=np.int64)
M = np.array([[True, False, True], [False, False, True]])


def ops(np):
    yield 'add', lambda a, b, c, q, i, m: a + b
    yield 'sub', lambda a, b, c, q, i, m: a - b * 2
    yield 'div', lambda a, b, c, q, i, m: a / b
    yield 'rdiv', lambda a, b, c, q, i, m: 1 / b
    yield 'pow2', lambda a, b, c, q, i, m: a ** 2
    yield 'sqrt', lambda a, b, c, q, i, m: np.sqrt(np.abs(b))
    yield 'hypot', lambda a, b, c, q, i, m: np.sqrt(a ** 2 + b ** 2)
    yield 'cmp', lambda a, b, c, q, i, m: (a > b) | (a == -2)
    yield 'ne', lambda a, b, c, q, i, m: a != a
    yield 'isnan', lambda a, b, c, q, i, m: np.isnan(a)
    yield 'isfinite', lambda a, b, c, q, i, m: np.isfinite(a)
    yield 'where', lambda a, b, c, q, i, m: np.where(m, a, b)
    yield 'nansum0', lambda a, b, c, q, i, m: np.nansum(a, axis=0)
    yield 'nansum', lambda a, b, c, q, i, m: np.nansum(a)
    yield 'nanmean', lambda a, b, c, q, i, m: np.nanmean(a, axis=0)
    yield 'nanmedian', lambda a, b, c, q, i, m: np.nanmedian(a, axis=1)
    yield 'median', lambda a, b, c, q, i, m: np.median(c)
    yield 'median0', lambda a, b, c, q, i, m: np.median(b, axis=0)
    yield 'mediannan', lambda a, b, c, q, i, m: np.median(a, axis=1)
    yield 'std', lambda a, b, c, q, i, m: np.std(b, axis=1)
    yield 'std1', lambda a, b, c, q, i, m: np.std(c, ddof=1)
    yield 'nanstd', lambda a, b, c, q, i, m: np.nanstd(a, axis=0)
    yield 'var', lambda a, b, c, q, i, m: np.var(c)
    yield 'mean', lambda a, b, c, q, i, m: b.mean()
    yield 'sum', lambda a, b, c, q, i, m: b.sum(axis=-1)
    yield 'max', lambda a, b, c, q, i, m: np.max(b, axis=0)
    yield 'nanmax', lambda a, b, c, q, i, m: np.nanmax(a, axis=1)
    yield 'min', lambda a, b, c, q, i, m: np.min(c)
    yield 'minimum', lambda a, b, c, q, i, m: np.minimum(a, b)
    yield 'maximum', lambda a, b, c, q, i, m: np.maximum(a, 0)
    yield 'argmax', lambda a, b, c, q, i, m: np.argmax(c)
    yield 'argmin', lambda a, b, c, q, i, m: np.argmin(b, axis=1)
    yield 'argsort', lambda a, b, c, q, i, m: np.argsort(c, kind='stable')
    yield 'sort', lambda a, b, c, q, i, m: np.sort(c)
    yield 'unique', lambda a, b, c, q, i, m: np.unique(c)
    yield 'uniqcnt', lambda a, b, c, q, i, m: np.unique(c, return_counts=True)[1]
    yield 'mask', lambda a, b, c, q, i, m: b[b > 1].sum()
    yield 'maskmean', lambda a, b, c, q, i, m: b[m].mean()
    yield 'nonzero', lambda a, b, c, q, i, m: np.array(np.nonzero(c > 1)[0])
    yield 'clip', lambda a, b, c, q, i, m: np.clip(a, -1, 2)
    yield 'floor', lambda a, b, c, q, i, m: np.floor(c)
    yield 'round', lambda a, b, c, q, i, m: np.round(c)
    yield 'floordiv', lambda a, b, c, q, i, m: i // 3
    yield 'mod', lambda a, b, c, q, i, m: i % 3
    yield 'fmod', lambda a, b, c, q, i, m: c % 2
    yield 'and', lambda a, b, c, q, i, m: q & 128
    yield 'or', lambda a, b, c, q, i, m: q | 1
    yield 'orbool', lambda a, b, c, q, i, m: np.bitwise_or(q, m * 4)
    yield 'xor', lambda a, b, c, q, i, m: q ^ 7
    yield 'redor', lambda a, b, c, q, i, m: np.bitwise_or.reduce(q, axis=0)
    yield 'shift', lambda a, b, c, q, i, m: (q >> 1) | (q << 2)
    yield 'astype', lambda a, b, c, q, i, m: c.astype(int)
    yield 'uint8', lambda a, b, c, q, i, m: q.astype(np.uint8)
    yield 'boolsum', lambda a, b, c, q, i, m: np.sum(m, axis=1)
    yield 'any', lambda a, b, c, q, i, m: np.any(a > 4, axis=1)
    yield 'all', lambda a, b, c, q, i, m: np.all(b > -3)
    yield 'cumsum', lambda a, b, c, q, i, m: np.cumsum(c)
    yield 'diff', lambda a, b, c, q, i, m: np.diff(c)
    yield 'dot', lambda a, b, c, q, i, m: np.dot(b, b.T)
    yield 'matmul', lambda a, b, c, q, i, m: b @ c[:3]
    yield 'outer', lambda a, b, c, q, i, m: np.outer(c, i)
    yield 'interp', lambda a, b, c, q, i, m: np.interp(c, [0., 1., 3.], [5., 7., 1.])
    yield 'searchsorted', lambda a, b, c, q, i, m: np.searchsorted(np.sort(c), [0., 2.])
    yield 'digitize', lambda a, b, c, q, i, m: np.digitize(c, [0., 1., 3.])
    yield 'concat', lambda a, b, c, q, i, m: np.concatenate([a, b], axis=0)
    yield 'stack', lambda a, b, c, q, i, m: np.stack([b, b * 2], axis=1)
    yield 'append', lambda a, b, c, q, i, m: np.append(c, 4)
    yield 'tile', lambda a, b, c, q, i, m: np.tile(c, (2, 1))
    yield 'transpose', lambda a, b, c, q, i, m: np.transpose(b).reshape(2, 3)
    yield 'flip', lambda a, b, c, q, i, m: np.flip(b, axis=0)
    yield 'roll', lambda a, b, c, q, i, m: np.roll(c, 2)
    yield 'rot90', lambda a, b, c, q, i, m: np.rot90(b)
    yield 'pad', lambda a, b, c, q, i, m: np.pad(b, 1)
    yield 'average', lambda a, b, c, q, i, m: np.average(c, weights=[1, 2, 3, 4, 5])
    yield 'quantile', lambda a, b, c, q, i, m: np.percentile(c, 30)
    yield 'nan_to_num', lambda a, b, c, q, i, m: np.nan_to_num(a, nan=-9.)
    yield 'isclose', lambda a, b, c, q, i, m: np.isclose(b, [2., 3., 1.])
    yield 'isin', lambda a, b, c, q, i, m: np.isin(i, [7, 0])
    yield 'sign', lambda a, b, c, q, i, m: np.sign(b)
    yield 'masum', lambda a, b, c, q, i, m: np.ma.sum(np.ma.masked_array(b, m), axis=0).filled(-1)
    yield 'unpack', lambda a, b, c, q, i, m: np.unpackbits(q.astype(np.uint8), axis=1)
    yield 'packbits', lambda a, b, c, q, i, m: np.packbits(m)
    yield 'trapz', lambda a, b, c, q, i, m: np.trapezoid(c, [0., 1., 3., 4., 9.])
    yield 'norm', lambda a, b, c, q, i, m: np.linalg.norm(c)
    yield 'count', lambda a, b, c, q, i, m: np.count_nonzero(b > 1)
    yield 'allclose', lambda a, b, c, q, i, m: np.array([np.array_equal(b, b), np.allclose(c, c + 1)])

    def setm(a, b, c, q, i, m):
        z = b.copy()
        z[m] = 7
        z[z > 2.5] += 1
        z[1, :2] = c[:2]
        return z
    yield 'setitem', setm

    def inplace(a, b, c, q, i, m):
        z = q.copy()
        z[b > 1] |= 256
        v = z[0]
        v[1] = 5
        return z
    yield 'inplace', inplace


def main():
    from symnp import patch
    patch.install('/repo' if 'VERIF_REPO' not in os.environ else os.environ['VERIF_REPO'])
    from symnp import core, arr
    from symnp.harness import SymS
    z3 = core.z3

    def pinned(S, name, v):
        def one(i):
            x = v[i]
            nm = '%s%s' % (name, list(i))
            if v.dtype == bool:
                s = S.bool(nm)
                S.assume(s if x else S.not_(s))
                return s
            if v.dtype.kind == 'u':
                s = S.bits(nm, (1,), v.dtype)[0]
                S.assume(s == int(x))
                return s
            if v.dtype.kind == 'i':
                s = S.int(nm, -100, 100)
                S.assume(s == int(x))
                return s
            s = S.real(nm, nan=True)
            if np.isnan(x):
                S.assume(S.isnan(s))
            else:
                S.assume(S.and_(S.not_(S.isnan(s)), s == float(x)))
            return s
        return S._mk(v.shape, v.dtype, one)

    def value(m, x):
        if not core.is_sym(x):
            return x
        if type(x) is core.SymBool:
            return z3.is_true(m.eval(core.tbool(x), model_completion=True))
        if type(x) is core.SymInt:
            return m.eval(x.v, model_completion=True).as_long() if not x.bv or x.dt.kind == 'u' else \
                m.eval(x.v, model_completion=True).as_signed_long()
        v, n, i = core.lift_real(x)
        if n is not False and (n is True or z3.is_true(m.eval(n, model_completion=True))):
            return nan
        r = m.eval(v, model_completion=True)
        if z3.is_algebraic_value(r):
            r = r.approx(20)
        f = float(r.as_fraction())
        if i is not False and (i is True or z3.is_true(m.eval(i, model_completion=True))):
            return float('inf') if f > 0 else float('-inf')
        return f

    class Run:
        def on_check(self, *a, **k):
            pass
    bad, n = [], 0
    conc = dict(ops(np))
    for name, f in ops(patch.NP):
        want = np.asarray(conc[name](A, B, C, Q, I, M))
        ctx = core.Ctx()
        core.Ctx.cur = ctx
        try:
            S = SymS(ctx, Run())
            args = [pinned(S, k, v) for k, v in zip('abcqim', (A, B, C, Q, I, M))]
            got = f(*args)
            if isinstance(got, arr.GSel):
                got = got.materialise()
            got = arr.asarr(got)
            assert ctx._check() == z3.sat, 'unsatisfiable'
            m = ctx.solver.model()
            g = np.array([value(m, x) for x in arr.raw(got).flat], dtype=want.dtype if want.dtype != bool else float).reshape(got.shape)
            n += 1
            if g.shape != want.shape or not np.allclose(np.asarray(g, float), np.asarray(want, float), rtol=1e-9, atol=1e-9, equal_nan=True):
                bad.append((name, g.tolist(), want.tolist()))
        except Exception as e:
            bad.append((name, repr(e)[:300], want.tolist()))
        finally:
            core.Ctx.cur = None
    for b in bad:
        print('DISAGREES', *b)
    print('%d operations compared, %d disagree' % (n, len(bad)))
    return 1 if bad else 0


if __name__ == '__main__':
    try:
        rc = main()
    finally:
        shutil.rmtree(os.environ['HOME'], ignore_errors=True)
    sys.exit(rc)
