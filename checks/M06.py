"""Desmearing."""
from types import SimpleNamespace

import numpy as np

from symnp.reg import harness
from .common import *
from corgidrp.l2a_to_l2b import desmear


@harness('M06', quick=[dict(n=1), dict(n=2, layers=2), dict(n=1, rows=3)], thorough=[dict(n=3, rows=4), dict(n=1, rows=5)])
def inversion(S, n=1, rows=2, cols=2, layers=1):
    """Desmearing inverts readout smear: smearing the result (each row gains readtime/exptime times all rows below it,
    itself included, as read out) gives the input back, per frame with its own exposure time and column by column."""
    tracking(S, layers > 1)
    rr = S.choice('rr', [0.001, 0.5])
    ts = [S.choice('t%d' % i, [1., 4.]) for i in range(n)]
    ds = dataset(S, n, shape=(rows, cols), layers=layers, ext_i=lambda i: dict(EXPTIME=ts[i]))
    s0 = [snap(f) for f in ds.frames]
    out = desmear(ds, SimpleNamespace(params=dict(ROWREADT=rr)))
    for i in range(n):
        q = rr / ts[i]
        for r in range(rows):
            y = out.all_data[i]
            S.eq(y[r] + q * sum(y[s] for s in range(r + 1)), s0[i]['data'][r], 'smearing the result gives the input', tol=1e-9)
        S.eq(out.all_err[i], s0[i]['err'], 'errors untouched')
        S.eq(out.all_dq[i], s0[i]['dq'], 'flags untouched')
        S.same(out.frames[i].ext_hdr['DESMEAR'], True, 'recorded')
        unchanged(S, ds.frames[i], s0[i])
    coherent(S, out)
