"""Flat fields."""
import warnings

import numpy as np
import photutils.centroids
import scipy.ndimage

from symnp.reg import harness
from .common import *
from .stubs import _edge, use
from corgidrp import flat


@harness('C04', quick=[dict(n=1), dict(n=2), dict(n=3, nan=True)], thorough=[dict(n=4, nan=True, shape=[2, 2])])
def mean_flat(S, n=2, nan=False, shape=(1, 2)):
    """The flat is the mean of the frames at every pixel (of the valid ones), its error their standard deviation over the square
    root of the number of frames; it lists its inputs, which stay as they are."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    ds = dataset(S, n, shape=tuple(shape), nan=nan, lo=-50, hi=50, ext=dict(EXPTIME=1., CFAMNAME='1F'))
    s0 = [snap(f) for f in ds.frames]
    out = flat.create_flatfield(ds)
    S.same(out.ext_hdr['DATATYPE'], 'FlatField', 'type')
    S.same(tuple(out.err.shape), (1,) + tuple(shape), 'error has a layer dimension')
    for p in np.ndindex(*shape):
        v = [s['data'][p] for s in s0]
        ok = [S.not_(S.isnan(x)) for x in v]
        x0 = [S.ite(o, x, 0.) for o, x in zip(ok, v)]
        m = sum(S.ite(o, 1., 0.) for o in ok)
        some = S.or_(*ok)
        S.check(S.or_(some, S.isnan(out.data[p])), 'no valid pixel: not a number')
        got = S.ite(some, out.data[p], 0.)
        S.check(S.or_(S.not_(some), S.and_(got * m - sum(x0) < 1e-6, got * m - sum(x0) > -1e-6)), 'mean of the valid frames')
        if not nan:
            mu = sum(x0) / n
            var = sum((x - mu) * (x - mu) for x in x0) / n
            S.check(out.err[(0,) + p] >= 0, 'error not negative')
            S.eq(out.err[(0,) + p] * out.err[(0,) + p] * n, var, 'error: standard deviation over the root of the number of frames', tol=1e-6)
    S.same(sorted(out.ext_hdr['FILE%d' % i] for i in range(n)), sorted(f.filename for f in ds.frames), 'inputs listed')
    for f, s in zip(ds.frames, s0):
        unchanged(S, f, s)
    attached(S, ds, 'input stays attached')


def smoothed(S, im, sigma):
    """the smoothed image; symbolic: a fixed smooth image"""
    if not S.symbolic:
        return GAUSS(np.asarray(im, dtype=float), sigma)
    y, x = np.indices(np.shape(im))
    return 80. + 3 * np.cos(x / 5.) + np.sin(y / 4.)


CENT = photutils.centroids.centroid_com
GAUSS = scipy.ndimage.gaussian_filter


@harness('C04', quick=[dict(n=1, rad=3, up=4, places=[[9, 10]]), dict(n=2, rad=2, up=4, places=[[8, 9], [10, 9]]), dict(n=2, rad=3, up=4, places=[[9, 9], [9, 9]])],
         thorough=[dict(n=3, rad=2, up=5, places=[[8, 9], [10, 9], [9, 11]]), dict(n=2, rad=4, up=5, places=[[9, 9], [11, 8]])],
         stubs=['centroid_com: the given place', 'gaussian_filter: a fixed smooth image for the (checked) median image'])
def raster(S, n=1, rad=3, up=4, places=((9, 10),), size=20, fov=7, pad=1):
    """Of every raster image the sky is removed and the disc of the planet, divided by the smoothed planet, goes to its own place on the
    detector; overlaps are averaged, places without planet are not numbers inside and one outside the field, errors zero."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    places = [tuple(p) for p in places]
    calls = [0]

    def com(img, **k):
        calls[0] += 1
        x, y = places[(calls[0] - 1) % n]
        return np.array([x + .3, y + .4])
    if S.symbolic:
        from symnp import patch
        patch.MESH[0] = True
    target, band, sky, nosky = S.choice('setting', [('Uranus', '1F', 2.5, False), ('neptune', '4F', 0., False), ('neptune', '1F', 2.5, True)])
    S.setattr(photutils.centroids, 'centroid_com', com)
    models = []

    def gf(im, sigma, **k):
        models.append((im, sigma))
        return smoothed(S, im, sigma)
    def conv(im, w, output=None, mode='reflect', cval=0.0, origin=0):
        im, w = S.np.asarray(im), np.asarray(w, dtype=float)[::-1, ::-1]
        out = S.np.zeros(im.shape)
        for q in np.ndindex(*im.shape):
            t = 0.
            for a in np.ndindex(*w.shape):
                k = tuple(_edge(q[j] + a[j] - (w.shape[j] - 1) // 2, im.shape[j], mode) for j in (0, 1))
                if w[a]:
                    t = t + im[k] * float(w[a])
            out[q] = t
        return out
    use(S, **{'scipy.ndimage.convolve': conv, 'scipy.ndimage._filters.convolve': conv})
    use(S, **{'scipy.ndimage.gaussian_filter': gf, 'scipy.ndimage._filters.gaussian_filter': gf})
    frames, imgs = [], []
    for i, (x, y) in enumerate(places):
        d = np.zeros((size, size))
        yy, xx = np.indices(d.shape)
        d[np.hypot(xx - x, yy - y) < rad + .9] = 100.
        d += np.cos(3 * xx + 7 * yy) * (d > 0)
        d = S.const(d + sky)
        for k, (a, b) in enumerate([(0, 0), (1, -1), (-1, 1)][:3 if n < 3 else 1]):
            d[y + a, x + b] = S.real('p%d_%d' % (i, k), 95, 105)
        imgs.append((d.copy(), sky))
        frames.append(image(S, tag='%d' % i, shape=(size, size), dat=d, err=S.const(np.ones((1, size, size))), dq=S.const(np.zeros((size, size), dtype=np.uint16)),
                            pri=dict(TARGET=target), ext=dict(EXPTIME=2., CFAMNAME=band)))
    ds = data.Dataset(frames)
    s0 = [snap(f) for f in ds.frames]
    kw = dict(sky_annulus_rin=2., sky_annulus_rout=3.)
    if nosky:
        kw = dict(sky_annulus_rin=None, sky_annulus_rout=None)
    out = flat.create_onsky_flatfield(ds, up_radius=up, planet_rad=rad, n_pix=fov, n_pad=pad, N=1, **kw)
    S.same(out.ext_hdr['DATATYPE'], 'FlatField', 'type')
    S.same(tuple(out.data.shape), (size + 2 * pad,) * 2, 'padded')
    S.same(tuple(out.err.shape), (1,) + (size + 2 * pad,) * 2, 'error has a layer dimension')
    S.eq(out.err, np.zeros(out.err.shape), 'no error')
    crops = []
    for (d, sky), (x, y) in zip(imgs, places):
        c = S.np.array([[d[q, p] - (sky if kw['sky_annulus_rin'] is not None else 0.) for p in range(x - up, x + up)] for q in range(y - up, y + up)])
        crops.append(c)
    model = S.np.zeros((2 * up, 2 * up))
    for q in np.ndindex(2 * up, 2 * up):
        v = [c[q] for c in crops]
        if n == 1:
            model[q] = v[0]
        elif n == 2:
            model[q] = (v[0] + v[1]) / 2
        else:
            a, b, c = v
            model[q] = S.ite(a < b, S.ite(b < c, b, S.ite(a < c, c, a)), S.ite(a < c, a, S.ite(b < c, c, b)))
    smooth = smoothed(S, model, 3)
    for im, sigma in models:
        S.same(float(sigma), 3., 'smoothing width')
        S.eq(im, model, 'the smooth planet is made from the median of the images')
    for q, p in np.ndindex(size, size):
        got = out.data[q + pad, p + pad]
        r = np.hypot(p - size / 2, q - size / 2)
        if abs(r - fov) < 1e-9:
            continue
        if r > fov:
            S.eq(got, 1., 'one outside the field')
            continue
        t = None
        for c, (x, y) in zip(crops, places):
            if np.hypot(p - x, q - y) < rad:
                k = (q - y + up, p - x + up)
                v = c[k] / smooth[k]
                t = v if t is None else (t + v) / 2
        if t is None:
            S.check(S.isnan(got), 'no planet: not a number')
        else:
            S.eq(got, t, 'planet over its smooth model, at its place', tol=1e-9)
    edge = S.np.array([out.data[q] for q in np.ndindex(*out.data.shape) if min(q) < pad or max(q) >= size + pad])
    S.eq(edge, np.ones(len(edge)), 'padding is one')
    S.same(sorted(out.ext_hdr['FILE%d' % i] for i in range(n)), sorted(f.filename for f in ds.frames), 'inputs listed')
    for f, s in zip(ds.frames, s0):
        unchanged(S, f, s)
    attached(S, ds, 'input stays attached')
