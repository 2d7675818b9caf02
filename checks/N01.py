"""Normalisation by exposure time."""
import numpy as np

from symnp.reg import harness
from .common import *
from corgidrp.l2b_to_l3 import divide_by_exptime


@harness('N01', quick=[dict(n=1), dict(n=2), dict(n=2, layers=2)], thorough=[dict(n=3, shape=(2, 2), layers=3)])
def division(S, n=1, shape=(1, 2), layers=1):
    """Data and every error layer of each frame are divided by its own exposure time; flags stay and the unit is recorded."""
    shape = tuple(shape)
    tracking(S, layers > 1)
    t = [S.real('t%d' % i, 0.001, 10000) for i in range(n)]
    ds = dataset(S, n, shape=shape, layers=layers, nan=True, ext_i=lambda i: dict(EXPTIME=t[i], BUNIT='photoelectrons'))
    s0 = [snap(f) for f in ds.frames]
    out = divide_by_exptime(ds)
    for i in range(n):
        S.eq(out.all_data[i] * t[i], s0[i]['data'], 'data divided by the exposure time of the frame', tol=1e-9)
        for l in range(layers):
            S.eq(out.all_err[i, l] * t[i], s0[i]['err'][l], 'errors divided by the exposure time of the frame', tol=1e-9)
        S.eq(out.all_dq[i], s0[i]['dq'], 'flags kept')
        S.same(out.frames[i].ext_hdr['BUNIT'], 'photoelectrons/s', 'unit recorded')
        S.same(out.frames[i].ext_hdr['EXPTIME'], t[i], 'exposure time kept')
        S.check('exposure time' in history(out.frames[i].ext_hdr), 'recorded')
        unchanged(S, ds.frames[i], s0[i])
    coherent(S, ds, 'input: ')
    coherent(S, out)
