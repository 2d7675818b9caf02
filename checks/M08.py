"""Photon noise."""
import numpy as np

from symnp.reg import harness
from .common import *
from corgidrp.l2a_to_l2b import add_photon_noise


@harness('M08', quick=[dict(n=1), dict(n=2), dict(n=1, layers=2, shape=(1, 1))], thorough=[dict(n=2, shape=(2, 2)), dict(n=3), dict(n=2, layers=3)])
def noise(S, n=1, shape=(1, 2), layers=1):
    """The variance of every pixel grows by its signal, doubled when the EM gain that applies exceeds one; pixels without
    signal gain no noise and the error map stays valid."""
    shape = tuple(shape)
    track = layers > 1 or S.choice('track', [False, True])
    tracking(S, track)
    hs, gs = [], []
    for i in range(n):
        c, a = S.real('gc%d' % i, 1, 1000), S.real('ga%d' % i, -1, 1000)
        h, g = dict(EMGAIN_C=c, EMGAIN_A=a), S.ite(a > 0, a, c)
        if S.choice('m%d' % i, [False, True]):
            g = h['EMGAIN_M'] = S.real('gm%d' % i, 1, 1000)
        hs.append(h)
        gs.append(g)
    ds = dataset(S, n, shape=shape, layers=layers, ext_i=lambda i: hs[i])
    s0 = [snap(f) for f in ds.frames]
    out = add_photon_noise(ds)
    for i in range(n):
        for p in np.ndindex(shape):
            x, e, v = s0[i]['data'][p], s0[i]['err'][0][p], out.all_err[i, 0][p]
            S.check(S.not_(S.isnan(v)), 'error stays a number')
            S.eq(v ** 2, e ** 2 + S.ite(x > 0, x, 0.) * S.ite(gs[i] > 1, 2, 1), 'variance grows by the signal', tol=1e-9)
        S.eq(out.all_data[i], s0[i]['data'], 'data untouched')
        for l in range(1, layers):
            S.eq(out.all_err[i, l], s0[i]['err'][l], 'individual error layers kept')
        S.eq(out.all_dq[i], s0[i]['dq'], 'flags untouched')
        S.check('photon noise' in history(out.frames[i].ext_hdr), 'recorded')
        unchanged(S, ds.frames[i], s0[i])
    coherent(S, out)
