"""Bad-pixel maps."""
import warnings

import numpy as np

from symnp.reg import harness
from .common import *
from corgidrp.bad_pixel_calibration import create_bad_pixel_map, detect_hot_warm_pixels_from_dark, detect_dead_pixels_from_flat


@harness('C06', quick=[dict(), dict(shape=(1, 4))], thorough=[dict(shape=(2, 3), d=1.5), dict(shape=(1, 6), d=2.)])
def hot(S, shape=(2, 2), d=0.75):
    """A pixel is hot exactly when it exceeds the mean of the dark by more than the threshold times its standard deviation."""
    shape = tuple(shape)
    x = S.array('x', shape, -10, 10)
    for i, p in enumerate(np.ndindex(shape)):
        if i > 1:
            x[p] = float(i)
    x0 = x.copy()
    out = detect_hot_warm_pixels_from_dark(x, d)
    n = x.size
    mu = sum(x0[p] for p in np.ndindex(shape)) / n
    var = sum((x0[p] - mu) ** 2 for p in np.ndindex(shape)) / n
    for p in np.ndindex(shape):
        r = x0[p] - mu
        q = r * r - d * d * var
        S.assume(S.or_(q > 1e-6, q < -1e-6))
        S.check(S.and_(r > 0, q > 0) == bool(S.truth(out[p])), 'hot exactly above the threshold')
    S.eq(x, x0, 'dark unchanged')


def local(shape, p, w):
    """pixels of the box around p (even boxes reach one pixel further down and left)"""
    return [(r, c) for r in range(p[0] - w // 2, p[0] - w // 2 + w) for c in range(p[1] - w // 2, p[1] - w // 2 + w) if 0 <= r < shape[0] and 0 <= c < shape[1]]


@harness('C06', quick=[dict(w=2), dict(w=3, shape=(1, 4)), dict(w=4, shape=(3, 1)), dict(w=3, ff=0.5)], thorough=[dict(w=2, shape=(3, 3)), dict(w=3, shape=(3, 3)), dict(w=5, shape=(2, 4))])
def dead(S, w=2, shape=(2, 2), ff=0.75):
    """A pixel is dead exactly when it is below the fraction of the mean over the box around it, clipped at the edges."""
    shape = tuple(shape)
    x = S.array('x', shape, -10, 10)
    x0 = x.copy()
    out = detect_dead_pixels_from_flat(x, ff, w)
    for p in np.ndindex(shape):
        b = local(shape, p, w)
        m = sum(x0[q] for q in b) / len(b)
        d = x0[p] - ff * m
        S.assume(S.or_(d > 1e-6, d < -1e-6))
        S.check((d < 0) == out[p], 'dead exactly below the fraction of the local mean')
    S.eq(x, x0, 'flat unchanged')


@harness('C06', quick=[dict()], thorough=[dict(shape=(2, 3))])
def combined(S, shape=(1, 4)):
    """The map carries 8 for hot and 4 for dead pixels, 12 for both, 0 for good ones; it is a calibration product made of the
    dark and the flat, which stay unchanged."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    shape = tuple(shape)
    n = int(np.prod(shape))
    e = dict(DATALVL='L2b', EXPTIME=1., EMGAIN_C=1., KGAINPAR=7.)
    src = data.Dataset([image(S, tag='s', shape=shape, dat=S.const(np.ones(shape)), err=S.const(np.ones((1,) + shape)), dq=S.const(np.zeros(shape, dtype=np.uint16)), filename='CGI_a_L2a_.fits')])
    dk, fl = S.np.ones(shape), S.np.ones(shape)
    i, j = S.choice('i', list(range(n))), S.choice('j', list(range(n)))
    a, b = S.real('a', 0, 10), S.real('b', 0, 2)
    dk[np.unravel_index(i, shape)], fl[np.unravel_index(j, shape)] = a, b
    S.assume(S.or_(a > 1.01, a < 0.99))
    S.assume(S.or_(b > 1.01, b < 0.99))
    dark = data.Dark(dk, pri_hdr=hdr(), ext_hdr=hdr(**e), input_dataset=src, err=S.const(np.ones((1,) + shape)), dq=S.const(np.zeros(shape, dtype=np.uint16)))
    flat = data.FlatField(fl, pri_hdr=hdr(), ext_hdr=hdr(**e), input_dataset=src)
    sd, sf = snap(dark), snap(flat)
    # one deviating pixel of n: mean 1 + (a-1)/n, standard deviation |a-1| sqrt(n-1)/n
    d = 0.5
    ff = 0.875
    out = create_bad_pixel_map(None, dark, flat, dthresh=d, ffrac=ff, fwidth=2 * n + 1)
    m = 1 + (b - 1) / n
    for k in range(n):
        p = np.unravel_index(k, shape)
        h = (a > 1) if k == i else S.and_(a < 1, 1 / n > d * np.sqrt(n - 1) / n)
        x = b if k == j else 1.
        S.assume(S.or_(x - ff * m > 1e-6, x - ff * m < -1e-6))
        S.eq(out.data[p], S.ite(h, 8, 0) + S.ite(x < ff * m, 4, 0), 'flag word of the pixel')
    S.same((out.ext_hdr['DATATYPE'], out.ext_hdr['DATALVL']), ('BadPixelMap', 'CAL'), 'product')
    f = [out.ext_hdr['FILE%d' % q] for q in range(out.ext_hdr['DRPNFILE'])]
    S.check('CGI_a_L2a_.fits' in f, 'original inputs recorded')
    for o, s, l in ((dark, sd, 'dark'), (flat, sf, 'flat')):
        for q in ('data', 'err', 'dq'):
            S.eq(getattr(o, q), s[q], l + ' unchanged')
        hsame(S, hdict(o.ext_hdr), s['ext'], l + ' header unchanged')
        S.same(o.filename, s['filename'], l + ' name')
