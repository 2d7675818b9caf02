"""Mean combination and traditional master darks."""
import warnings
from types import SimpleNamespace

import numpy as np

from symnp.reg import harness
from .common import *
from .geom import small
from corgidrp.darks import mean_combine, build_trad_dark


def mean(S, xs, masks):
    """mean of the unmasked values (0 if there are none), their number"""
    n = sum(S.ite(m, 0., 1.) for m in masks)
    s = sum(S.ite(m, 0., x) for x, m in zip(xs, masks))
    return S.ite(n == 0, 0., s / S.ite(n == 0, 1., n)), n


@harness('C01', quick=[dict(n=1), dict(n=2), dict(n=3), dict(n=2, err=True), dict(n=2, stack=True), dict(n=4, shape=(1, 1)), dict(n=5, shape=(1, 1))], thorough=[dict(n=4), dict(n=3, shape=(2, 2)), dict(n=3, err=True)])
def combination(S, n=2, shape=(1, 2), err=False, stack=False):
    """The mean (root mean square for errors) of the unmasked values of each pixel; a pixel masked everywhere is 0 and marked;
    the counts are the numbers of unmasked frames; inputs are unchanged."""
    shape = tuple(shape)
    ims = [S.array('x%d' % i, shape, 0 if err else None) for i in range(n)]
    bps = [S.intarray('b%d' % i, shape, 0, 1, dtype=np.int64) for i in range(n)]
    ims0, bps0 = [x.copy() for x in ims], [b.copy() for b in bps]
    if stack:
        out, bp, cnt, enough = mean_combine(S.np.stack(ims), S.np.stack(bps), err=err)
    else:
        out, bp, cnt, enough = mean_combine(ims, bps, err=err)
    ok = []
    for p in np.ndindex(shape):
        m = [b[p] == 1 for b in bps0]
        v, k = mean(S, [x[p] ** 2 if err else x[p] for x in ims0], m)
        if err:
            S.eq(out[p] ** 2, v, 'mean square of the unmasked errors', tol=1e-6)
            S.check(out[p] >= 0, 'error not negative')
        else:
            S.eq(out[p], v, 'mean of the unmasked values', tol=1e-9)
        S.eq(cnt[p], k, 'number of unmasked frames')
        S.eq(bp[p], S.ite(k == 0, 1, 0), 'masked where no frame is good')
        ok.append(k >= n / 2)
    S.check(S.and_(*ok) == bool(enough), 'enough frames exactly if every pixel has half of them')
    for a, b in zip(ims + bps, ims0 + bps0):
        S.eq(a, b, 'input unchanged')


@harness('C01', quick=[dict()])
def refused(S):
    """Masks with other values than 0 and 1, of other type or shape, lists of different or zero length are refused."""
    k = S.choice('k', ['value', 'dtype', 'shape', 'imshape', 'length', 'empty', 'type', 'dim'])
    x = S.array('x', (1, 2))
    b = S.const(np.zeros((1, 2), dtype=np.int64))
    bad = S.intarray('bad', (1, 2), -3, 3, dtype=np.int64)
    if k == 'value':
        S.assume(S.or_(*[S.and_(bad[p] != 0, bad[p] != 1) for p in np.ndindex(1, 2)]))
    a = dict(value=([x], [bad]), dtype=([x], [b.astype(float)]), shape=([x], [np.zeros((2, 1), dtype=int)]), imshape=([x, S.array('y', (2, 1))], [b, b]), length=([x, x], [b]),
             empty=([], []), type=((x,), [b]), dim=([x[0]], [b]))[k]
    S.raises(TypeError, lambda: mean_combine(*a), 'invalid input refused')


def params(a, b):
    return SimpleNamespace(params=dict(TELRSTRT=a, TELREND=b))


@harness('C01', quick=[dict(n=1, word=True), dict(n=2), dict(n=2, full=True, px=3), dict(n=3, px=1), dict(n=2, px=1, at=3)], thorough=[dict(n=3, full=True, at=2), dict(n=4, px=1)])
def trad_dark(S, n=2, full=False, px=2, at=0, word=False):
    """A traditional master dark is the mean of the good values of each pixel; its error is the rms error of the good frames in
    quadrature with their scatter over the square root of their number; pixels without a good frame carry flag 1, pixels bad in
    more than half of the frames flag 256, pixels good in more than half no flag; the input stays unchanged."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    g = small(rows=4, cols=3, im=(2, 2), im0=(1, 1), pre_cols=1, st=0, end=1)
    shape = (4, 3)
    # symbolic content where the image meets the other sections, plain elsewhere
    cells = [(1, 1), (2, 2), (0, 0), (1, 2)][at:at + px]
    if not word:
        pattern = S.choice('pattern', list(range(1 << n * px)))
        flag = [1, 4, 64, 32768, 256][pattern % 5]
    frames = []
    for i in range(n):
        x = S.array('x%d' % i, (len(cells),))
        e = S.array('e%d' % i, (len(cells),), 0)
        q = S.bits('q%d' % i, (len(cells),)) if word else np.array([[0, flag][1 & pattern >> (i * px + k)] for k in range(px)])
        d, er, dq = S.np.zeros(shape), S.np.zeros((1,) + shape), S.np.zeros(shape, dtype=np.uint16)
        d[...] = np.arange(12.).reshape(shape) + i
        er[...] = 0.5
        for k, c in enumerate(cells):
            d[c], er[(0,) + c], dq[c] = x[k], e[k], q[k]
        frames.append(image(S, tag=str(i), dat=d, err=er, dq=dq, ext=dict(EXPTIME=2., EMGAIN_C=1., KGAINPAR=7., DRPNFILE=2, FILE0='a_L1_.fits', FILE1='b%d_L1_.fits' % i), filename='CGI_%d_L2a_.fits' % i))
    ds = data.Dataset(frames)
    s0 = [snap(f) for f in frames]
    out = build_trad_dark(ds, params(3, 4), g, full_frame=full)
    r0, c0 = (0, 0) if full else (1, 1)
    S.same(tuple(out.data.shape), shape if full else (2, 2), 'size of the dark')
    plain = 0
    for p in np.ndindex(shape):
        o = (p[0] - r0, p[1] - c0)
        if not (0 <= o[0] < out.data.shape[0] and 0 <= o[1] < out.data.shape[1]) or p[0] == 3:
            continue
        if p not in cells:
            plain += 1
            if plain > 1:
                continue
        m = [S.truth(s['dq'][p] != 0) for s in s0]
        good = [s for s, b in zip(s0, m) if not b]
        k = len(good)
        if k == 0:
            S.eq(out.dq[o], 1, 'flag 1 where no frame is good')
            continue
        v = sum(s['data'][p] for s in good) / k
        S.eq(out.data[o], v, 'mean of the good values', tol=1e-9)
        var = sum((s['data'][p] - v) ** 2 for s in good) / k
        S.eq(out.err[0][o] ** 2, sum(s['err'][0][p] ** 2 for s in good) / k + var / k, 'error of the mean', tol=1e-6)
        if 2 * k < n:
            S.eq(out.dq[o], 256, 'flag 256 where most frames are bad')
        elif 2 * k > n:
            S.eq(out.dq[o], 0, 'no flag where most frames are good')
    S.same((out.ext_hdr['EXPTIME'], out.ext_hdr['EMGAIN_C'], out.ext_hdr['KGAINPAR'], out.ext_hdr['DATATYPE']), (2., 1., 7., 'Dark'), 'what the dark is for')
    S.same(sorted(out.ext_hdr['FILE%d' % j] for j in range(out.ext_hdr['DRPNFILE'])), sorted(['CGI_%d_L2a_.fits' % i for i in range(n)] + ['a_L1_.fits'] + ['b%d_L1_.fits' % i for i in range(n)]), 'inputs recorded')
    S.same((out.ext_hdr['NAXIS1'], out.ext_hdr['NAXIS2']), (out.data.shape[1], out.data.shape[0]), 'size recorded')
    for f, s in zip(ds.frames, s0):
        unchanged(S, f, s)
    coherent(S, ds, 'input: ')


@harness('C01', quick=[dict()])
def mixed(S):
    """Frames of different exposure time, gain or k gain, and telemetry rows inside the image, are refused."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    g = small(rows=4, cols=3, im=(2, 2), im0=(1, 1), pre_cols=1, st=0, end=1)
    v = [S.real(k, 0, 10) for k in ('t', 'g', 'k')]
    j = S.choice('j', [0, 1, 2, 3])
    w = list(v)
    if j < 3:
        w[j] = S.real('other', 0, 10)
        S.assume(w[j] != v[j])
    row = S.choice('row', [1, 2]) if j == 3 else 3
    z = lambda: dict(dat=S.const(np.ones((4, 3))), err=S.const(np.ones((1, 4, 3))), dq=S.const(np.zeros((4, 3), dtype=np.uint16)))
    fr = [image(S, tag=str(i), ext=dict(zip(('EXPTIME', 'EMGAIN_C', 'KGAINPAR'), x)), **z()) for i, x in enumerate((v, w))]
    ds = data.Dataset(fr)
    s0 = [snap(f) for f in ds.frames]
    S.raises(Exception, lambda: build_trad_dark(ds, params(row, row + 1), g), 'unsuitable darks refused')
    for f, s in zip(ds.frames, s0):
        unchanged(S, f, s)
