"""Conversion to electrons."""
from types import SimpleNamespace

import numpy as np

from symnp.reg import harness
from .common import *
from corgidrp.l2a_to_l2b import convert_to_electrons


@harness('M03', quick=[dict(n=1), dict(n=2, layers=2)], thorough=[dict(n=3, layers=3, shape=(2, 2))])
def conversion(S, n=1, layers=1, shape=(1, 2)):
    """Data are multiplied by the k gain, every individual error layer with them, and the error of the k gain enters the
    combined error in quadrature; gain and read noise are recorded."""
    shape = tuple(shape)
    tracking(S, layers > 1)
    k, ke, rn, rne = S.real('k', 0.01, 100), S.real('ke', 0, 10), S.real('rn', 0, 1000), S.real('rne', 0, 100)
    kg = SimpleNamespace(value=k, error=S.np.array([ke]) if S.symbolic else np.array([ke]), ext_hdr=dict(RN=rn, RN_ERR=rne), filename='k.fits')
    ds = dataset(S, n, shape=shape, layers=layers, nan=True)
    s0 = [snap(f) for f in ds.frames]
    out = convert_to_electrons(ds, kg)
    for i in range(n):
        S.eq(out.all_data[i], s0[i]['data'] * k, 'data times k gain')
        S.eq(out.all_err[i, 0] ** 2, (s0[i]['err'][0] * k) ** 2 + (s0[i]['data'] * ke) ** 2, 'combined error of the product')
        for l in range(1, layers):
            S.eq(out.all_err[i, l], s0[i]['err'][l] * k, 'individual layers scale with the data')
        S.eq(out.all_dq[i], s0[i]['dq'], 'flags kept')
        h = out.frames[i].ext_hdr
        S.same([h['BUNIT'], h['KGAINPAR'], h['KGAIN_ER'], h['RN'], h['RN_ERR']], ['detected EM electrons', k, ke, rn, rne], 'calibration recorded')
        unchanged(S, ds.frames[i], s0[i])
    coherent(S, out)
