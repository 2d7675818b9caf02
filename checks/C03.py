"""Detector noise maps by least squares."""
import warnings
from types import SimpleNamespace

import numpy as np

from symnp.reg import harness
from .common import *
from .geom import small
from . import stubs
from corgidrp.darks import calibrate_darks_lsq

GEOM = dict(rows=4, cols=3, im=(2, 2), im0=(1, 1), pre_cols=1, st=0, end=1)
SHAPE = (4, 3)
SETS = [[(1., 1.), (1., 3.), (4., 1.), (4., 2.)], [(2., 0.), (2., 2.), (5., 1.), (1., 2.), (5., 4.)]]


def params(a, b):
    return SimpleNamespace(params=dict(TELRSTRT=a, TELREND=b))


def frame(S, tag, g, t, d, e=None, q=None, k=7., **ext):
    er = S.np.zeros((1,) + SHAPE) if e is None else e
    return image(S, tag=tag, dat=d, err=er, dq=S.const(np.zeros(SHAPE, dtype=np.uint16)) if q is None else q,
                 ext=dict(dict(EXPTIME=t, EMGAIN_C=g, EMGAIN_A=-1., KGAINPAR=k), **ext), filename='CGI_%s_L2a_.fits' % tag)


def run(S, frames, tel=(3, 4)):
    ds = data.Dataset(frames)
    s0 = [snap(f) for f in ds.frames]
    out = calibrate_darks_lsq(ds, params(*tel), small(**GEOM))
    for f, s in zip(ds.frames, s0):
        unchanged(S, f, s)
    coherent(S, ds, 'input: ')
    return out


def stub(S):
    if S.symbolic:
        # only feeds the read-noise estimate, which is not part of the product
        S.setattr(__import__('corgidrp.darks').darks.np, 'corrcoef', lambda *a, **k: S.np.array([[1., 0.5], [0.5, 1.]]))


@harness('C03', quick=[dict(), dict(sets=1), dict(how='EMGAIN_M'), dict(how='EMGAIN_A')], thorough=[dict(n=2), dict(sets=1, n=2)], stubs=['numpy.corrcoef (read-noise estimate only)'])
def recovery(S, sets=0, n=1, how='EMGAIN_C'):
    """Frames made of pattern + gain (clock-induced charge + dark current x time) give back exactly these maps, with no dark
    current outside the imaging area, no bias offset and vanishing errors, whatever the order of the frames."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    stub(S)
    F = S.np.zeros(SHAPE)
    C = S.np.zeros(SHAPE)
    D = S.np.zeros(SHAPE)
    F[...] = np.arange(12.).reshape(SHAPE) - 3
    C[...] = 0.25
    D[1:3, 1:3] = 0.5
    for k, p in enumerate([(1, 1), (2, 2), (0, 0)]):
        F[p], C[p] = S.real('F%d' % k, -10, 10), S.real('C%d' % k, 0, 10)
        if p[0]:
            D[p] = S.real('D%d' % k, 0, 10)
    st = SETS[sets]
    order = S.choice('order', [list(range(len(st))), list(range(len(st)))[::-1]])
    frames = []
    for j in range(n):
        for i in order:
            g, t = st[i]
            e = dict(EMGAIN_C=g) if how == 'EMGAIN_C' else {'EMGAIN_C': 10. + i, 'EMGAIN_A': g if how == 'EMGAIN_A' else -1.}
            if how == 'EMGAIN_M':
                e['EMGAIN_M'] = g
            frames.append(frame(S, '%d%d' % (i, j), g, t, F + g * C + g * t * D, **e))
    out = run(S, frames)
    for p in np.ndindex(SHAPE):
        if p[0] == 3:
            continue
        S.eq(out.data[0][p], F[p], 'fixed pattern recovered', tol=1e-7)
        S.eq(out.data[1][p], C[p], 'clock-induced charge recovered', tol=1e-7)
        S.eq(out.data[2][p], D[p], 'dark current recovered, none outside the imaging area', tol=1e-7)
        S.eq(out.dq[0][p], 0, 'no flag')
    S.eq(out.ext_hdr['B_O'], 0., 'no bias offset', tol=1e-7)
    S.same((out.ext_hdr['DATATYPE'], out.ext_hdr['B_O_UNIT']), ('DetectorNoiseMaps', 'DN'), 'product')
    S.same(sorted(out.ext_hdr['FILE%d' % j] for j in range(out.ext_hdr['DRPNFILE'])), sorted(f.filename for f in frames), 'inputs recorded')


@harness('C03', quick=[dict(), dict(sets=1, errors=False), dict(sets=1, free=(0, 3))], stubs=['numpy.corrcoef (read-noise estimate only)'])
def normal(S, sets=0, errors=True, free=(0, 1, 2, 3, 4)):
    """For any frames the maps are the least-squares solution (the residuals are orthogonal to the three templates), negative
    charge and dark current are cut to zero, and their errors follow from the scatter about the fit."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    stub(S)
    st = SETS[sets]
    p = (1, 2)
    y = [S.real('y%d' % i, -10, 10) if i in free else 1. + i * i / 4 for i in range(len(st))]
    frames = []
    for i, (g, t) in enumerate(st):
        d = S.np.zeros(SHAPE)
        d[...] = 1. + g * t
        d[p] = y[i]
        frames.append(frame(S, str(i), g, t, d))
    out = run(S, frames)
    X = np.array([[1., g, g * t] for g, t in st])
    w = np.linalg.inv(X.T @ X) @ X.T
    f, c, d = [sum(float(w[k, i]) * y[i] for i in range(len(st))) for k in range(3)]
    S.eq(out.data[0][p], f, 'fixed pattern is the least-squares one', tol=1e-6)
    S.eq(out.data[1][p], S.ite(c < 0, 0., c), 'clock-induced charge is the least-squares one, cut at zero', tol=1e-6)
    S.eq(out.data[2][p], S.ite(d < 0, 0., d), 'dark current is the least-squares one, cut at zero', tol=1e-6)
    if not errors:
        return
    H = np.eye(len(st)) - X @ w
    s2 = sum(sum(float(H[i, j]) * y[j] for j in range(len(st))) ** 2 for i in range(len(st))) / (len(st) - 3)
    cov = np.linalg.inv(X.T @ X)
    for k, nm in enumerate(('fixed pattern', 'clock-induced charge', 'dark current')):
        S.eq(out.err[0][k][p] ** 2, s2 * float(cov[k, k]), 'error of the %s from the scatter about the fit' % nm, tol=1e-5)
        S.eq(out.err[0][k][0, 0], 0., 'no error where the fit is perfect', tol=1e-5)


@harness('C03', quick=[dict(), dict(n=2), dict(n=3)], stubs=['numpy.corrcoef (read-noise estimate only)'])
def masks(S, n=1):
    """A pixel is flagged 1 if all frames are bad in all but three (or fewer) stacks, else 256 if most frames are bad in all
    but three (or fewer), else not at all; bad values never enter the maps."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    stub(S)
    st = SETS[1]
    p = (1, 2)
    pattern = S.choice('pattern', [tuple(k >> i & 1 for i in range(5)) for k in range(32)] if n == 1 else
                       [(2, 2, 0, 0, 0), (2, 1, 1, 0, 0), (3, 2, 0, 0, 0), (3, 3, 0, 0, 0), (3, 1, 1, 1, 1), (2, 2, 2, 2, 2)] if n == 3 else
                       [(0, 0, 0, 0, 0), (1, 0, 0, 0, 0), (2, 0, 0, 0, 0), (2, 2, 0, 0, 0), (1, 1, 0, 0, 0), (2, 1, 1, 0, 0), (2, 2, 2, 1, 1), (2, 2, 2, 2, 2)])
    bad = S.real('bad', 100, 200)
    frames = []
    for i, (g, t) in enumerate(st):
        for j in range(n):
            d = S.np.zeros(SHAPE)
            d[...] = 1. + 2 * g + g * t
            q = np.zeros(SHAPE, dtype=np.uint16)
            if j < pattern[i]:
                d[p], q[p] = bad, 64
            frames.append(frame(S, '%d%d' % (i, j), g, t, d, q=S.const(q)))
    out = run(S, frames)
    full = sum(x == n for x in pattern)
    most = sum(2 * x > n for x in pattern)
    S.eq(out.dq[0][p], 1 if full >= len(st) - 3 else 256 if most >= len(st) - 3 else 0, 'flag')
    for m in (1, 2):
        S.eq(out.dq[m], out.dq[0], 'same flags for the three maps')
    if full == 0:
        for m, v in enumerate((1., 2., 1.)):
            S.eq(out.data[m][p], v, 'bad values left out', tol=1e-7)
    for m, v in enumerate((1., 2., 1.)):
        S.eq(out.data[m][2, 2], v, 'other pixels unaffected', tol=1e-7)


@harness('C03', quick=[dict()], stubs=['numpy.corrcoef (read-noise estimate only)'])
def refused(S):
    """Fewer than four stacks, a single gain or a single exposure time, gains below one, negative times and stacks of
    different size are refused."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    stub(S)
    k = S.choice('k', ['few', 'gain', 'time', 'low', 'negative', 'size', 'telemetry'])
    st = list(SETS[0])
    tel = (3, 4)
    if k == 'few':
        st = [(1., 1.), (2., 3.), (5., 2.)]
    elif k == 'gain':
        g = S.real('g', 1, 10)
        st = [(g, float(i)) for i in range(4)]
    elif k == 'time':
        t = S.real('t', 0, 10)
        st = [(float(i + 1), t) for i in range(4)]
    elif k == 'low':
        g = S.real('g', 0, 10)
        S.assume(g < 1)
        st[1] = (g, 3.)
    elif k == 'negative':
        t = S.real('t', -10, 10)
        S.assume(t < 0)
        st[1] = (1., t)
    elif k == 'size':
        st = st + st[:1]
    else:
        r = S.choice('r', [1, 2])
        tel = (r, r + 1)
    z = np.ones(SHAPE)
    frames = [frame(S, str(i), g, t, S.const(z * (i + 1))) for i, (g, t) in enumerate(st)]
    S.raises(Exception, lambda: calibrate_darks_lsq(data.Dataset(frames), params(*tel), small(**GEOM)), 'unsuitable stacks refused')
