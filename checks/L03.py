"""Nonlinearity correction."""
from types import SimpleNamespace

import numpy as np

from symnp.reg import harness
from .common import *
from . import stubs
from corgidrp.l1_to_l2a import correct_nonlinearity
from corgidrp.detector import get_relgains


GAX = {2: [1., 1.5], 3: [1., 10., 1000.]}
CAX = {2: [10., 1010.], 3: [0., 1000., 3000.], 4: [1., 100., 1000., 9000.]}


def table(S, ng=2, nc=2, free=True):
    """a valid correction table: nan corner, increasing axes, curves straddling 1 (free: any values)"""
    t = S.const(np.zeros((nc + 1, ng + 1)))
    t[0, 0] = float('nan')
    g, c = GAX[ng], CAX[nc]
    t[0, 1:] = np.array(g)
    t[1:, 0] = np.array(c)
    if free:
        r = S.array('rel', (nc, ng), 0.5, 1.5)
        for i in range(ng):
            S.assume(S.or_(*[r[j, i] <= 1 for j in range(nc)]))
            S.assume(S.or_(*[r[j, i] >= 1 for j in range(nc)]))
    else:
        r = S.const(np.array([[1 + (-1) ** (i + j) * (0.0625 * (1 + i) + 0.03125 * j) for i in range(ng)] for j in range(nc)]))
    t[1:, 1:] = r
    return t, g, c, r


def nl(t):
    return SimpleNamespace(data=t, filename='nl.fits')


def relgain(S, g, c, r, gain, x):
    """bilinear in gain then counts, edges held"""
    curve = [stubs.lin1(S, g, [r[j, i] for i in range(len(g))], gain) for j in range(len(c))]
    return stubs.lin1(S, c, curve, x)


@harness('L03', quick=[dict(kind='A', mode='gain'), dict(kind='M', mode='gain'), dict(kind='A', mode='pixel', layers=2), dict(mode='table', ng=2), dict(n=2, kind='A', mode='gain')],
         thorough=[dict(n=3, kind='A', mode='gain'), dict(kind='C', ng=3, nc=4, mode='pixel'), dict(kind='M', ng=3, nc=3, mode='gain'),
                   dict(mode='table', ng=3, nc=3)])
def correction(S, n=1, kind='A', ng=2, nc=3, mode='gain', layers=1):
    """Data are multiplied by the relative gain interpolated at the measured, else applied (when positive), else commanded
    EM gain; pixels above the threshold get the nonlinearity flag and no other flag changes."""
    stubs.standard(S)
    tracking(S, layers > 1)
    t, g, c, r = table(S, ng, nc, mode == 'table')
    hs, gains = [], []
    G1 = [g[0] / 2, g[0], (g[0] + g[1]) / 2, g[-1] * 0.9, g[-1] * 1.5]
    X1 = [c[0] - 7., c[0], c[1] * 0.7, (c[-1] + c[-2]) / 2, c[-1] + 100.]
    for i in range(n):
        if mode == 'gain':
            gc, ga, gm = S.real('gc%d' % i, 1, 1000), S.real('ga%d' % i, -1, 1000), S.real('gm%d' % i, 1, 1000)
        else:
            k = S.choice('G%d' % i, G1)
            gc, ga, gm = (k, -1., 7.) if kind == 'C' else (3., k, 7.) if kind == 'A' else (3., 5., k)
        h = dict(EMGAIN_C=gc, EMGAIN_A=ga)
        G = S.ite(ga > 0, ga, gc)
        if kind == 'M':
            G = h['EMGAIN_M'] = gm
        hs.append(h)
        gains.append(G)
    if mode == 'pixel':
        dat = lambda i: S.array('data%d' % i, (1, 2), c[0] - 1000, c[-1] + 1000)
    else:
        dat = lambda i: S.const(np.array([[S.choice('x', X1), 500.]]))
    ds = dataset(S, n, shape=(1, 2), layers=layers, ext_i=lambda i: hs[i], dat_i=dat)
    s0 = [snap(f) for f in ds.frames]
    th = S.real('th')
    out = correct_nonlinearity(ds, nl(t), threshold=th)
    for i in range(n):
        for k in range(2):
            x = s0[i]['data'][0, k]
            q0, q1 = s0[i]['dq'][0, k], out.all_dq[i, 0, k]
            S.eq(out.all_data[i, 0, k], x * relgain(S, g, c, r, gains[i], x), 'data times interpolated relative gain', tol=1e-6)
            S.eq(q1, S.ite(x > th, q0 | 64, q0), 'nonlinearity flag exactly above the threshold')
        S.eq(out.all_err[i], s0[i]['err'], 'err untouched')
        S.check('nl.fits' in history(out.frames[i].ext_hdr), 'calibration file recorded')
        unchanged(S, ds.frames[i], s0[i])
    coherent(S, out)


@harness('L03', quick=[dict(ng=2, nc=2)], thorough=[dict(ng=3, nc=3), dict(ng=2, nc=4)])
def bounded(S, ng=2, nc=2):
    """The relative gain never leaves the range of the table and equals it at the nodes."""
    stubs.standard(S)
    t, g, c, r = table(S, ng, nc)
    gain = S.choice('gain', [g[0] / 2, (g[0] + g[1]) / 2, g[-1] * 2])
    x = S.choice('x', [c[0] - 5, (c[0] + 2 * c[1]) / 3, c[-1] + 5])
    v = get_relgains(S.const(np.array([[x]])), gain, nl(t))
    S.check(S.and_(v[0, 0] >= 0.5 - 1e-6, v[0, 0] <= 1.5 + 1e-6), 'relative gain inside the table range')
    for j in range(nc):
        for i in range(ng):
            w = get_relgains(S.np.array([[c[j]]]), g[i], nl(t))
            S.eq(w[0, 0], r[j, i], 'relative gain at a node is the table value', tol=1e-6)


@harness('L03', quick=[dict()])
def refused(S):
    """Tables with axes that do not increase or curves that never reach one are refused; a missing table changes nothing;
    frames without a commanded gain are refused."""
    stubs.standard(S)
    tracking(S, False)
    kind = S.choice('kind', ['gain', 'count', 'high', 'low', 'none', 'nogain'])
    t, g, c, r = table(S)
    ds = dataset(S, 1, shape=(1, 2), ext=dict(EMGAIN_A=1.) if kind == 'nogain' else dict(EMGAIN_C=1., EMGAIN_A=1.))
    d0 = ds.all_data.copy()
    if kind == 'gain':
        t[0, 2] = g[0] - S.real('dg', 0, 5)
    elif kind == 'count':
        t[2, 0] = c[0] - S.real('dc', 0, 5)
    elif kind in ('high', 'low'):
        col = S.choice('col', [1, 2])
        sg = 1 if kind == 'high' else -1
        for j in (1, 2):
            t[j, col] = 1 + sg * S.real('e%d' % j, 0.01, 0.4)
    elif kind == 'none':
        out = correct_nonlinearity(ds, None)
        S.eq(out.all_data, d0, 'no table, no change')
        return
    S.raises(ValueError, lambda: correct_nonlinearity(ds, nl(t)), 'invalid input refused')
