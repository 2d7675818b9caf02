"""Bad-pixel correction."""
from types import SimpleNamespace

import numpy as np

from symnp.reg import harness
from .common import *
from corgidrp.l2a_to_l2b import correct_bad_pixels


@harness('M05', quick=[dict(n=1), dict(n=2), dict(n=1, mask='float'), dict(n=2, shape=(1, 1), layers=2)], thorough=[dict(n=3, shape=(2, 2)), dict(n=2, mask='uint8')])
def correction(S, n=1, shape=(1, 2), mask='uint16', layers=1):
    """A pixel flagged in the frame or in the bad-pixel map becomes NaN and carries both flag words plus the replaced flag;
    every other pixel keeps value and (empty) flags. Errors are untouched."""
    shape = tuple(shape)
    tracking(S, layers > 1)
    ds = dataset(S, n, shape=shape, layers=layers, nan=True)
    m = S.bits('mask', shape, np.uint8 if mask != 'uint16' else np.uint16)
    if mask == 'float':
        m = m.astype(float)
    bp = SimpleNamespace(data=m, filename='bp.fits')
    s0, m0 = [snap(f) for f in ds.frames], m.copy()
    out = correct_bad_pixels(ds, bp)
    for i in range(n):
        for p in np.ndindex(shape):
            w = s0[i]['dq'][p].astype(int) | m0[p].astype(int)
            S.eq(out.all_dq[i][p], S.ite(w != 0, w | 2, w), 'flags combined and replacement flagged')
            S.eq(S.isnan(out.all_data[i][p]), S.or_(w != 0, S.isnan(s0[i]['data'][p])), 'flagged pixels are NaN')
            S.eq(S.ite(w != 0, 0., out.all_data[i][p]), S.ite(w != 0, 0., s0[i]['data'][p]), 'good pixels keep their value')
        S.eq(out.all_err[i], s0[i]['err'], 'errors untouched')
        unchanged(S, ds.frames[i], s0[i])
    S.eq(bp.data, m0, 'bad-pixel map unchanged')
    coherent(S, out)
