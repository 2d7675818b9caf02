"""EM-gain division: the gain that applies to each frame."""
import numpy as np

from symnp.reg import harness
from .common import *
from corgidrp.l2a_to_l2b import em_gain_division


@harness('M04', quick=[dict(n=1), dict(n=2, layers=2)], thorough=[dict(n=3, layers=3)])
def division(S, n=1, layers=1, shape=(1, 2)):
    """Each frame's data and every error layer are divided by its own EM gain: measured, else applied when positive, else
    commanded."""
    shape = tuple(shape)
    tracking(S, layers > 1)
    hs, gs = [], []
    for i in range(n):
        c, a = S.real('gc%d' % i, 1, 1000), S.real('ga%d' % i, -1, 1000)
        h, g = dict(EMGAIN_C=c, EMGAIN_A=a), S.ite(a > 0, a, c)
        if S.choice('m%d' % i, [False, True]):
            g = h['EMGAIN_M'] = S.real('gm%d' % i, 1, 1000)
        hs.append(h)
        gs.append(g)
    ds = dataset(S, n, shape=shape, layers=layers, ext_i=lambda i: hs[i], nan=True)
    s0 = [snap(f) for f in ds.frames]
    out = em_gain_division(ds)
    for i in range(n):
        S.eq(out.all_data[i] * gs[i], s0[i]['data'], 'data divided by the gain of the frame', tol=1e-9)
        for l in range(layers):
            S.eq(out.all_err[i, l] * gs[i], s0[i]['err'][l], 'errors divided by the gain of the frame', tol=1e-9)
        S.eq(out.all_dq[i], s0[i]['dq'], 'flags kept')
        S.same(out.frames[i].ext_hdr['BUNIT'], 'detected electrons', 'unit recorded')
        unchanged(S, ds.frames[i], s0[i])
    coherent(S, ds, 'input: ')
    coherent(S, out)
