"""Combination of subexposures."""
import math

import numpy as np

from symnp.reg import harness
from .common import *
from .L01 import med
from corgidrp.combine import combine_subexposures


@harness('N03', quick=[dict(n=2), dict(n=2, group=1, shape=(1, 1)), dict(n=3, shape=(1, 1)), dict(n=2, collapse='median', shape=(1, 1)), dict(n=3, collapse='Median', shape=(1, 1)), dict(n=2, shape=(1, 1), layers=2), dict(n=4, group=2, shape=(1, 1))],
         thorough=[dict(n=3), dict(n=4, group=2), dict(n=4, group=2, collapse='median'), dict(n=3, layers=2), dict(n=4, shape=(1, 1), collapse='median'), dict(n=6, group=2, shape=(1, 1))])
def combine(S, n=2, group=None, collapse='mean', shape=(1, 2), layers=1):
    """Each group of consecutive frames becomes one frame: mean (median) of the unflagged pixels, scaled to the number of
    frames on request, with the propagated error; a pixel keeps the combined flags only if no frame had a good value; group
    order, headers and file lineage are kept."""
    shape = tuple(shape)
    tracking(S, layers > 1)
    scale = S.choice('scale', [True, False])
    ds = dataset(S, n, shape=shape, layers=layers, filename_i=lambda i: 'f%d.fits' % i, pri_i=lambda i: dict(VISITID='v%d' % i),
                 ext_i=lambda i: dict(EXPTIME=10. + i, BUNIT='x'))
    s0 = [snap(f) for f in ds.frames]
    k = group or n
    out = combine_subexposures(ds, group, collapse=collapse, num_frames_scaling=scale)
    S.same(len(out.frames), n // k, 'one frame per group')
    infl = math.pi / 2 if collapse.lower() == 'median' else 1.
    for g, f in enumerate(out.frames):
        mem = range(g * k, g * k + k)
        for p in np.ndindex(shape):
            bits = [s0[i]['dq'][p] for i in mem]
            good = [not S.truth(b != 0) for b in bits]
            xs = [s0[i]['data'][p] for i, ok in zip(mem, good) if ok]
            m = len(xs)
            fac = k if scale else 1
            if m == 0:
                S.check(S.isnan(f.data[p]), 'no good value: NaN')
                w = bits[0]
                for b in bits[1:]:
                    w = w | b
                S.eq(f.dq[p], w, 'no good value: all flags kept')
                continue
            v = sum(xs) / m if collapse == 'mean' else med(S, xs)
            S.eq(f.data[p], v * fac, 'combined value of the good pixels', tol=1e-9)
            for l in range(layers):
                es = [s0[i]['err'][l][p] for i, ok in zip(mem, good) if ok]
                S.eq(f.err[l][p] ** 2, sum(e ** 2 for e in es) / m / m * fac ** 2 * infl, 'propagated error', tol=1e-6)
            S.eq(f.dq[p], 0, 'replaced pixels are unflagged')
        S.same(f.ext_hdr['NUM_FR'], k, 'number of frames recorded')
        S.same((f.pri_hdr['VISITID'], f.ext_hdr['EXPTIME']), ('v%d' % (g * k), 10. + g * k), 'headers of the first frame')
        S.same(f.filename, 'f%d.fits' % (g * k + k - 1), 'file name of the last frame')
        S.same(sorted(f.ext_hdr['FILE%d' % j] for j in range(f.ext_hdr['DRPNFILE'])), ['f%d.fits' % i for i in mem], 'parents recorded')
    for i in range(n):
        unchanged(S, ds.frames[i], s0[i])
    coherent(S, ds, 'input: ')
    coherent(S, out)


@harness('N03', quick=[dict()])
def refused(S):
    """Group sizes that do not divide the dataset and unknown ways to combine are refused."""
    tracking(S, False)
    ds = dataset(S, S.choice('n', [2, 3, 4]), shape=(1, 1))
    s0 = [snap(f) for f in ds.frames]
    k = S.choice('k', [2, 3, 4, 5])
    if len(ds) % k:
        S.raises(ValueError, lambda: combine_subexposures(ds, k), 'group size refused')
    S.raises(ValueError, lambda: combine_subexposures(ds, None, collapse=S.choice('c', ['sum', 'max', 'means'])), 'unknown combination refused')
    for f, s in zip(ds.frames, s0):
        unchanged(S, f, s)
