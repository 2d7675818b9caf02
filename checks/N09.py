"""North up and distortion correction."""
import types
import warnings

import numpy as np
import pyklip.klip
import scipy.ndimage

from symnp.reg import harness
from .common import *
from .stubs import use
from corgidrp import l3_to_l4
from corgidrp.l3_to_l4 import northup, distortion_correction


def linear(S, op, im):
    """a linear resampling of an image, applied by its response to every single pixel"""
    im = S.np.asarray(im)
    if not S.symbolic:
        return op(np.asarray(im, dtype=float))
    sh = tuple(im.shape)
    z = np.zeros(sh)
    bad = [k for k in np.ndindex(*sh) if S.isnan(im[k]) is True or S.isnan(im[k]) is np.True_]
    for k in bad:
        z[k] = np.nan
    base = op(z)
    out = S.np.zeros(base.shape)
    for k in np.ndindex(*sh):
        if k in bad:
            continue
        e = np.zeros(sh)
        e[k] = 1.
        r = op(e)
        for p in np.ndindex(*base.shape):
            if np.isnan(base[p]):
                out[p] = float('nan')
            elif abs(r[p]) > 1e-12:
                out[p] = out[p] + im[k] * float(r[p])
    return out


ROT, MAP, NMAP = pyklip.klip.rotate, scipy.ndimage.map_coordinates, pyklip.klip.nan_map_coordinates_2d


def library(S):
    def rotate(img, angle, center, new_center=None, flipx=False, astr_hdr=None):
        if astr_hdr is not None:
            pyklip.klip._rotate_wcs_hdr(astr_hdr, angle, flipx=flipx)
        return linear(S, lambda e: ROT(e, angle, center, new_center, flipx), img)

    def mapc(im, coords, output=None, order=3, mode='constant', cval=0.0, prefilter=True):
        c = np.array([np.asarray(q).tolist() for q in coords], dtype=float)
        return linear(S, lambda e: MAP(e, c, order=order, mode=mode, cval=cval, prefilter=prefilter), im)

    def nmap(im, yp, xp, mc_kwargs=None):
        c = [np.array(np.asarray(q).tolist(), dtype=float) for q in (yp, xp)]
        return linear(S, lambda e: NMAP(e, c[0], c[1], dict(mc_kwargs or {})), im)
    use(S, **{'pyklip.klip.nan_map_coordinates_2d': nmap, 'pyklip.klip.rotate': rotate, 'scipy.ndimage.map_coordinates': mapc, 'scipy.ndimage._interpolation.map_coordinates': mapc})


def sparse(S, name, shape, pix, lo, hi, layers=None):
    """an image with a few symbolic pixels on a concrete gradient"""
    sh = tuple(shape) if layers is None else (layers,) + tuple(shape)
    b = np.arange(int(np.prod(sh)), dtype=float).reshape(sh) / 7. + 1.
    a = S.const(b)
    for l in range(layers or 1):
        for k, p in enumerate(pix):
            a[tuple(p) if layers is None else (l,) + tuple(p)] = S.real('%s_%d_%d' % (name, l, k), lo, hi)
    return a


PIX = [(1, 1), (2, 1), (1, 3)]


@harness('N09', quick=[dict(angles=[90.], shape=(5, 5)), dict(angles=[180., 270.], shape=(4, 6), center='star', layers=2),
                       dict(angles=[30., -75.], shape=(5, 4), center='xy'), dict(angles=[0.], shape=(4, 4)),
                       dict(angles=[90., 40.], shape=(6, 6), wcs=False, center='star')],
         thorough=[dict(angles=[a], shape=s, center=c, layers=2) for a in (90., 180., 270., 12., 200.) for s in ((6, 6), (5, 6), (7, 5)) for c in ('star', 'im', 'xy')],
         stubs=['pyklip rotation: the linear operator given by its response to every pixel'])
def north(S, angles, shape, center='im', layers=1, wcs=True):
    """Every frame is turned by its own north angle about the wanted point: data, every error layer and flags by the same
    rotation (flags to the nearest pixel), north ends up along +y with east to the left, the sky position of every feature and
    the recorded star stay on it; the inputs stay."""
    shape = tuple(shape)
    tracking(S, layers > 1)
    warnings.simplefilter('ignore')
    library(S)
    n = len(angles)
    ny, nx = shape
    p = 6e-6
    star = [(1.5 + i, 2.) for i in range(n)]

    def ext(i):
        c, s = np.cos(np.radians(angles[i])), np.sin(np.radians(angles[i]))
        h = dict(STARLOCX=star[i][0], STARLOCY=star[i][1])
        if wcs:
            h.update(CD1_1=-c * p, CD1_2=s * p, CD2_1=s * p, CD2_2=c * p, CRPIX1=2. + i, CRPIX2=3., CRVAL1=80., CRVAL2=-69., CTYPE1='RA---TAN', CTYPE2='DEC--TAN')
        return h
    ds = dataset(S, n, shape=shape, layers=layers, ext_i=ext, pri_i=lambda i: dict(ROLL=angles[i] if not wcs else 17.),
                 dat_i=lambda i: sparse(S, 'd%d' % i, shape, PIX, -5, 5), err_i=lambda i: sparse(S, 'e%d' % i, shape, PIX[:1], 0, 5, layers))
    s0 = [snap(f) for f in ds.frames]
    xy = (2.25, 1.)
    out = northup(ds, use_wcs=wcs, rot_center={'im': 'im_center', 'star': 'starloc', 'xy': xy}[center])
    S.same(len(out), n, 'frames')
    for i, f in enumerate(out.frames):
        xc, yc = {'im': ((nx - 1) // 2, (ny - 1) // 2), 'star': star[i], 'xy': xy}[center]
        a = np.radians(angles[i])
        c, s = np.cos(a), np.sin(a)
        right = angles[i] % 90 == 0
        S.same(tuple(np.shape(out.all_err[i])), (layers,) + shape, 'all error layers')
        want = [linear(S, lambda e: ROT(e, angles[i], (xc, yc)), q) for q in [s0[i]['data']] + [s0[i]['err'][l] for l in range(layers)]]
        got = [out.all_data[i]] + [out.all_err[i][l] for l in range(layers)]
        for y in range(ny):
            for x in range(nx):
                xs, ys = (x - xc) * c + (y - yc) * s + xc, -(x - xc) * s + (y - yc) * c + yc
                xr, yr = int(np.floor(xs + .5)), int(np.floor(ys + .5))
                inside = 0 <= xr < nx and 0 <= yr < ny
                tie = min(abs(abs(xs - np.floor(xs)) - .5), abs(abs(ys - np.floor(ys)) - .5)) < 1e-6
                if not tie:
                    S.eq(out.all_dq[i][y, x], s0[i]['dq'][yr, xr] if inside else 0, 'flags turn with their pixels')
                exact = abs(xs - xr) < 1e-6 and abs(ys - yr) < 1e-6
                border = min(abs(xs), abs(ys), abs(xs - nx + 1), abs(ys - ny + 1)) < 1e-6
                for l, g in enumerate(got):
                    w = 'data' if l == 0 else 'error layer %d' % l
                    v = s0[i]['data'] if l == 0 else s0[i]['err'][l - 1]
                    if exact and inside and border:
                        S.check(S.or_(S.isnan(g[y, x]), S.and_(g[y, x] - v[yr, xr] < 1e-6, v[yr, xr] - g[y, x] < 1e-6)), w + ' turned (border)')
                    elif exact and inside:
                        S.eq(g[y, x], v[yr, xr], w + ' turned', tol=1e-6)
                    elif not border:
                        S.eq(g[y, x], want[l][y, x], w + ' turned', tol=1e-6)
        h = f.ext_hdr
        rot = lambda x, y: (xc + (x - xc) * c - (y - yc) * s, yc + (x - xc) * s + (y - yc) * c)
        near = lambda u, v, label: S.check(abs(float(u) - v) < 1e-6, label)
        if wcs:
            near(h['CD1_1'] / p, -1., 'east to the left')
            near(h['CD1_2'] / p, 0., 'north up')
            near(h['CD2_1'] / p, 0., 'north up')
            near(h['CD2_2'] / p, 1., 'north up')
            w = rot(2. + i - 1, 3. - 1)
            near(h['CRPIX1'], w[0] + 1, 'reference pixel turns with the image (x)')
            near(h['CRPIX2'], w[1] + 1, 'reference pixel turns with the image (y)')
            S.same((h['CRVAL1'], h['CRVAL2']), (80., -69.), 'sky position of the reference pixel')
        w = rot(*star[i])
        near(h['STARLOCX'], w[0], 'star location turns with the image (x)')
        near(h['STARLOCY'], w[1], 'star location turns with the image (y)')
        hsame(S, hdict(f.pri_hdr), s0[i]['pri'], 'primary header kept')
    for i, f in enumerate(ds.frames):
        unchanged(S, f, s0[i])
    coherent(S, out)


def coeffs(shift, order=1):
    """identity plus a shift, in Legendre coefficients"""
    m = order + 1
    x, y = np.zeros((m, m)), np.zeros((m, m))
    x[1, 0], y[0, 1] = 500., 500.
    x[0, 0], y[0, 0] = shift
    return np.concatenate([x.ravel(), y.ravel(), [order]])


@harness('N09', quick=[dict(shift=(0., 0.), shape=(4, 5)), dict(shift=(1., 0.), shape=(5, 4)), dict(shift=(-1., 2.), shape=(4, 4), n=2), dict(shift=(.5, -.25), shape=(4, 6), bend=.3), dict(shift=(1., 0.), shape=(6, 7), nan=(3, 3))],
         thorough=[dict(shift=s, shape=sh, bend=b, n=2, order=2) for s in ((1., -1.), (.3, .6)) for sh in ((5, 6), (6, 5)) for b in (0., .5)],
         stubs=['scipy map_coordinates: the linear operator given by its response to every pixel'])
def distortion(S, shift, shape, n=1, bend=0., order=1, nan=None):
    """Every frame is resampled by the displacement of the calibrated polynomials about its centre: a pixel shows what the raw
    image has at its place minus the displacement there; an invalid pixel only spoils the pixels made from it. Shapes stay, also of images that are not square; inputs stay."""
    shape = tuple(shape)
    tracking(S, False)
    library(S)
    ny, nx = shape
    co = coeffs(tuple(shift), order)
    co[1 + order + 1] += bend * 500.       # x displacement proportional to x*y/500
    cal = types.SimpleNamespace(distortion_coeffs=co, filename='a.fits')
    ds = dataset(S, n, shape=shape, dat_i=lambda i: sparse(S, 'd%d' % i, shape, PIX, -5, 5), err_i=lambda i: S.const(np.zeros((1,) + shape)))
    if nan is not None:
        ds.frames[0].data[tuple(nan)] = float('nan')
    s0 = [snap(f) for f in ds.frames]
    out = distortion_correction(ds, cal)
    y, x = np.mgrid[:ny, :nx].astype(float)
    u, v = x - nx // 2, y - ny // 2
    dx = np.zeros(shape) + shift[0] + bend * 500. * u * v / 500. ** 2
    dy = np.zeros(shape) + shift[1]
    for i, f in enumerate(out.frames):
        S.same(tuple(np.shape(out.all_data[i])), shape, 'shape')
        want = linear(S, lambda e: MAP(e, [y - dy, x - dx]), s0[i]['data'])
        for q in np.ndindex(*shape):
            sx, sy = x[q] - dx[q], y[q] - dy[q]
            edge = min(abs(sx), abs(sy), abs(sx - nx + 1), abs(sy - ny + 1)) < 1e-6
            ex = abs(sx - round(sx)) < 1e-9 and abs(sy - round(sy)) < 1e-9 and 0 < sx < nx - 1 and 0 < sy < ny - 1
            if ex and (int(round(sy)), int(round(sx))) == tuple(nan or ()):
                S.check(S.isnan(out.all_data[i][q]), 'invalid pixel displaced')
            elif nan is not None and i == 0 and max(abs(sy - nan[0]), abs(sx - nan[1])) < 1.01:
                pass                # next to it
            elif ex:
                S.eq(out.all_data[i][q], s0[i]['data'][int(round(sy)), int(round(sx))], 'displaced', tol=1e-6)
            elif not edge:
                S.eq(out.all_data[i][q], want[q], 'resampled', tol=1e-6)
        hsame(S, hdict(f.pri_hdr), s0[i]['pri'], 'primary header kept')
    for i, f in enumerate(ds.frames):
        unchanged(S, f, s0[i])
    coherent(S, out)
