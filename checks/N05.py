"""Flux calibration of the data."""
import warnings
from types import SimpleNamespace

import numpy as np

from symnp.reg import harness
from .common import *
from corgidrp.l4_to_tda import convert_to_flux


@harness('N05', quick=[dict(n=1), dict(n=2), dict(n=1, layers=2)], thorough=[dict(n=3, shape=(2, 2), layers=3)])
def flux(S, n=1, shape=(1, 2), layers=1):
    """Data and every error layer are multiplied by the flux factor divided by the colour correction; the error of the flux
    factor enters in quadrature; flags stay and unit and factor are recorded."""
    shape = tuple(shape)
    tracking(S, layers > 1)
    warnings.simplefilter('ignore')
    fac, facerr = S.real('fac', 0.001, 100), S.real('facerr', 0, 10)
    cc = S.choice('cc', [None, 0.5, 1., 4.])
    cal = SimpleNamespace(fluxcal_fac=fac, fluxcal_err=facerr, filename='cal.fits')
    ds = dataset(S, n, shape=shape, layers=layers, nan=True, ext={} if cc is None else dict(COL_COR=cc))
    s0 = [snap(f) for f in ds.frames]
    out = convert_to_flux(ds, cal)
    k = fac / (cc or 1.)
    ke = facerr / (cc or 1.)
    for i, f in enumerate(out.frames):
        S.eq(out.all_data[i], s0[i]['data'] * k, 'data times flux factor', tol=1e-9)
        S.eq(out.all_err[i, 0] ** 2, (s0[i]['err'][0] * k) ** 2 + (s0[i]['data'] * ke) ** 2, 'error of the product', tol=1e-9)
        for l in range(1, layers):
            S.eq(out.all_err[i, l], s0[i]['err'][l] * k, 'individual layers scale with the data', tol=1e-9)
        S.eq(out.all_dq[i], s0[i]['dq'], 'flags kept')
        S.same((f.ext_hdr['BUNIT'], f.ext_hdr['FLUXFAC']), ('erg/(s*cm^2*AA)', fac), 'unit and factor recorded')
        unchanged(S, ds.frames[i], s0[i])
    coherent(S, out)
