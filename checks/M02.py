"""Flat-field division."""
import numpy as np

from symnp.reg import harness
from .common import *
from corgidrp.l2a_to_l2b import flat_division


def make_flat(S, shape, zero=True):
    src = image(S, tag='flatsrc', shape=shape, dat=S.const(np.zeros(shape)), err=S.const(np.zeros((1,) + shape)), dq=S.const(np.zeros(shape, dtype=np.uint16)))
    f = data.FlatField(S.array('flat', shape, 0, 10), hdr(TELESCOP='ROMAN'), hdr(DATALVL='CAL', EXPTIME=1.), data.Dataset([src]))
    f.err, f.dq = S.array('flaterr', (1,) + shape, 0, 10), S.bits('flatdq', shape)
    return f


@harness('M02', quick=[dict(n=1), dict(n=2), dict(n=2, layers=2, shape=(1, 1))], thorough=[dict(n=3, shape=(2, 3)), dict(n=2, layers=3)])
def division(S, n=1, shape=(1, 2), layers=1):
    """Every pixel is divided by the flat; the relative errors of data and flat add in quadrature; a pixel whose flat is zero,
    and only such a pixel, gets the bad-flat flag."""
    shape = tuple(shape)
    tracking(S, layers > 1)
    ds = dataset(S, n, shape=shape, layers=layers, nan=True)
    flat = make_flat(S, shape)
    s0, sf = [snap(f) for f in ds.frames], snap(flat)
    out = flat_division(ds, flat)
    for i in range(n):
        for p in np.ndindex(shape):
            f, fe = sf['data'][p], sf['err'][0][p]
            x, e = s0[i]['data'][p], s0[i]['err'][0][p]
            q0, q1 = s0[i]['dq'][p], out.all_dq[i][p]
            ok = f != 0
            S.eq(S.ite(ok, out.all_data[i][p] * f, 0.), S.ite(ok, x, 0.), 'data divided by the flat', tol=1e-9)
            v = S.ite(ok, out.all_err[i, 0][p] * f, 0.)
            fin = S.and_(ok, S.not_(S.isnan(x)))
            S.eq(S.ite(fin, v ** 2 * f ** 2, 0.), S.ite(fin, e ** 2 * f ** 2 + x ** 2 * fe ** 2, 0.), 'error of the quotient', tol=1e-9)
            for l in range(1, layers):
                S.eq(S.ite(ok, out.all_err[i, l][p] * f, 0.), S.ite(ok, s0[i]['err'][l][p], 0.), 'individual errors divided by the flat', tol=1e-9)
            S.check(S.implies(S.not_(ok), (q1 & 4) != 0), 'zero flat flagged')
            S.eq(S.ite(ok, q1, q0 | 4), q0 | S.ite(ok, q0 & 0, 4), 'no other flag changed')
        S.check(str(sf['filename']) in history(out.frames[i].ext_hdr), 'flat recorded in history')
        unchanged(S, ds.frames[i], s0[i])
    unchanged(S, flat, sf, 'flat')
    coherent(S, out)
