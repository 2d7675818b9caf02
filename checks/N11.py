"""Location of the star from satellite spots."""
import copy
import warnings

import numpy as np

from symnp.reg import harness
from .common import *
from corgidrp import star_center
from corgidrp.l3_to_l4 import find_star

MODES = ['NFOV', 'SPEC660', 'SPEC730', 'WFOV']
STUB = ['star_center_from_satellite_spots: a star position']


@harness('N11', quick=[dict(), dict(nsci=3, nspot=2), dict(mode=None)], thorough=[dict(nsci=3, nspot=3)], stubs=STUB)
def find(S, nsci=2, nspot=1, mode='NFOV', shape=(2, 3)):
    """The star is located on the median images of the frames with and without satellite spots, with the guess or the middle of the
    image and the parameters of the mode; every frame returned records it; spot frames are dropped if asked for; the input is unchanged."""
    warnings.simplefilter('ignore')
    tracking(S, False)
    every = mode is None
    mode = mode or S.choice('mode', MODES)
    fs = []
    order = S.choice('order', [0, 1]) if not every else 1
    kinds = ([0] * nsci + [1] * nspot) if order else ([1] + [0] * nsci + [1] * (nspot - 1))
    for i, k in enumerate(kinds):
        f = image(S, tag='f%d' % i, shape=shape, err=S.const(np.zeros((1,) + shape)), dq=S.const(np.zeros(shape, dtype=np.uint16)), pri=dict(SATSPOTS=k), ext=dict(FSMPRFL=mode), data_level='L3')
        f.filename = 'f%d.fits' % i
        fs.append(f)
    ds = data.Dataset(fs)
    s0 = [snap(f) for f in ds.frames]
    star = np.array([S.choice('sx', [1.25]), 30.5])
    sx, sy = S.real('x', 0, 100), S.real('y', 0, 100)
    guess = S.choice('guess', [None, (1.5, 0.25)])
    theta = S.choice('theta', [None, 3.]) if not every else None
    drop = S.choice('drop', [None, True, False]) if not every else False
    own = S.choice('own', [None, dict(offset=dict(spotSepPix=3.5), separation=dict(nIter=2, stepSize=.5)), dict(separation=dict(probeRotVecDeg=[10, 40]))])
    before = copy.deepcopy(star_center.satellite_spot_parameters_defaults)
    want = copy.deepcopy(before[mode])
    for k, d in (own or {}).items():
        want[k].update(d)
    mine = copy.deepcopy(own)
    calls = []

    def locate(img_ref, img_sat_spot, star_coordinate_guess, thetaOffsetGuess, satellite_spot_parameters):
        calls.append((img_ref.copy(), img_sat_spot.copy(), tuple(star_coordinate_guess), thetaOffsetGuess, copy.deepcopy(satellite_spot_parameters)))
        return np.array([sx, sy], dtype=object) if S.symbolic else np.array([sx, sy]), np.zeros((4, 2))
    S.setattr(star_center, 'star_center_from_satellite_spots', locate)
    kw = {k: v for k, v in dict(star_coordinate_guess=guess, thetaOffsetGuess=theta, satellite_spot_parameters=mine, drop_satspots_frames=drop).items() if v is not None}
    out = find_star(ds, **kw)
    for _ in range(2 if own else 1):
        S.same(len(calls), 1, 'located once')
        ref, spot, g, t, par = calls.pop()
        for im, k, what in ((ref, 0, 'median of the science frames'), (spot, 1, 'median of the satellite spot frames')):
            S.eq(im, S.np.median(S.np.array([s['data'] for s, q in zip(s0, kinds) if q == k]), axis=0), what)
        S.same(tuple(float(q) for q in g), guess or (float(shape[1] // 2), float(shape[0] // 2)), 'first guess of the position')
        S.same(float(t), theta or 0., 'guess of the rotation')
        S.same(par, want, 'parameters of the search')
        if own and _ == 0:
            # without own parameters, the next call has the defaults again
            kw.pop('satellite_spot_parameters')
            want = before[mode]
            again = find_star(ds, **kw)
    S.same(star_center.satellite_spot_parameters_defaults, before, 'default parameters')
    S.same(mine, own, 'parameters given')
    dropped = True if drop is None else drop
    keep = [i for i, k in enumerate(kinds) if k == 0 or not dropped]
    S.same([f.filename for f in out.frames], ['f%d.fits' % i for i in keep], 'frames returned')
    for f, i in zip(out.frames, keep):
        S.eq(f.data, s0[i]['data'], 'image kept')
        S.eq(f.ext_hdr['STARLOCX'], sx, 'x of the star in the header')
        S.eq(f.ext_hdr['STARLOCY'], sy, 'y of the star in the header')
    coherent(S, out)
    for f, s in zip(ds.frames, s0):
        unchanged(S, f, s)


@harness('N11', quick=[dict()], stubs=STUB)
def refuse(S, shape=(2, 2)):
    """Frames of unknown kind or of different observing modes, and unknown parameters, are refused."""
    warnings.simplefilter('ignore')
    tracking(S, False)
    S.setattr(star_center, 'star_center_from_satellite_spots', lambda **k: (np.array([1., 1.]), np.zeros((4, 2))))
    bad = S.choice('bad', ['kind', 'mode', 'spotmode', 'key', 'subkey', None])
    at = S.choice('at', [0, 1])
    fs = []
    for i, k in enumerate([0, 0, 1]):
        m = 'WFOV' if (bad == 'mode' and i == at) or (bad == 'spotmode' and i == 2) else 'NFOV'
        fs.append(image(S, tag='f%d' % i, shape=shape, err=S.const(np.zeros((1,) + shape)), dq=S.const(np.zeros(shape, dtype=np.uint16)), pri=dict(SATSPOTS=2 if bad == 'kind' and i == at else k), ext=dict(FSMPRFL=m), data_level='L3'))
    ds = data.Dataset(fs)
    kw = {'key': dict(satellite_spot_parameters=dict(radius=dict(nIter=2))), 'subkey': dict(satellite_spot_parameters=dict(offset=dict(nIters=2)))}.get(bad, {})
    if bad is None:
        S.same(len(find_star(ds, **kw)), 2, 'frames')
    else:
        S.raises(KeyError if 'key' in bad else AssertionError, lambda: find_star(ds, **kw), 'refused')


PARAB = [(-1., 40.), (-.25, 5.), (2., 3.)]


@harness('N11', quick=[dict(), dict(n=4, x0=-1.5, step=.5)], thorough=[dict(n=6)])
def optimum1(S, n=5, x0=2., step=1.):
    """The optimum of samples of a parabola is its vertex, wherever it lies."""
    x = x0 + step * np.arange(n)
    v = S.real('v', x0 - 2, x0 + 2 + n * step)
    a, c = S.choice('parabola', PARAB)
    c = c - min(a, 0) * 400
    y = S.np.array([a * (q - v) * (q - v) + c for q in x])
    S.eq(star_center.find_optimum_1d(x, y), v, 'vertex', tol=1e-5)
    S.raises(ValueError, lambda: star_center.find_optimum_1d(x[:-1], y), 'lengths must agree')


@harness('N11', quick=[dict(axis='xy', hole=(2, 1)), dict(axis='xy', hole=(0, 0)), dict(axis='')], thorough=[dict(axis='xy', nx=4, hole=(3, 0)), dict(axis='xy', hole=(0, 2), ny=5)])
def optimum2(S, nx=3, ny=4, axis='x', hole=None):
    """The optimum of samples of a paraboloid, whatever its orientation, is its vertex; samples outside the mask do not count."""
    S.fork_extrema()
    x, y = np.arange(nx) - .5, 2 * np.arange(ny) - 3.
    d = S.real('d', -2, 2) if 'x' in axis else S.choice('d', [-1., .5])
    e = S.real('e', -2, 2) if 'y' in axis else S.choice('e', [-1., .5])
    a, b, c = S.choice('paraboloid', [(-1., .5, -.25), (1., -1., 2.)])
    z = S.np.array([[a * p * p + b * p * q + c * q * q + d * p + e * q + 40. for p in x] for q in y])
    mask = np.ones((ny, nx))
    if hole:
        mask[tuple(hole)] = 0
        z[tuple(hole)] = 1000.
    g = star_center.find_optimum_2d(x, y, z, mask)
    det = 4 * a * c - b * b
    S.eq(g[0], (b * e - 2 * c * d) / det, 'x of the vertex', tol=1e-4)
    S.eq(g[1], (b * d - 2 * a * e) / det, 'y of the vertex', tol=1e-4)
    S.raises(ValueError, lambda: star_center.find_optimum_2d(x[:-1], y, z, mask), 'shapes must agree')


def disc(nx, ny, r, cx, cy, n):
    """fraction of n x n points of each pixel within r of (cx, cy), counted from the middle pixel"""
    out = np.zeros((ny, nx))
    s = (np.arange(n) - (n - 1) / 2) / n
    for j in range(ny):
        for i in range(nx):
            X, Y = i - nx // 2 - cx, j - ny // 2 - cy
            out[j, i] = np.mean([[(X + p) ** 2 + (Y + q) ** 2 <= r * r for p in s] for q in s])
    return out


@harness('N11', quick=[dict(shape=(9, 11)), dict(shape=(10, 8))], stubs=['find_optimum_2d: optimum of each grid'])
def offset(S, shape=(9, 11)):
    """The star location maximizes the light inside the discs around the spots expected on both sides of it: the sums of all grid points
    of every iteration enter the fit, each grid is centred on the optimum of the one before, and the result counts from the middle pixel."""
    img = S.const(np.zeros(shape))
    for p in [(3, 4), (4, 7), (2, 1), (6, 2)]:
        img[p] = S.real('p%d%d' % p, -10, 100)
    gx, gy = S.choice('gx', [0., 1.25]), S.choice('gy', [0., -.5])
    rot = S.choice('rot', [[0, 90], [30], [0]])
    par = dict(spotSepPix=2.25, roiRadiusPix=1.25, probeRotVecDeg=rot, nSubpixels=4, nSteps=2 if len(rot) == 1 else 3, stepSize=.5, nIter=2)
    opt = [(.75, -.25), (S.real('ox', -3, 3), S.real('oy', -3, 3))]
    got = []

    def optimum(xv, yv, z, mask):
        got.append((np.array(xv, dtype=float), np.array(yv, dtype=float), z.copy(), np.array(mask, dtype=float)))
        return opt[len(got) - 1]
    S.setattr(star_center, 'find_optimum_2d', optimum)
    out = star_center.calc_star_location_from_spots(img, gx, gy, par)
    S.eq(out[0], gx + opt[1][0], 'x offset of the star')
    S.eq(out[1], gy + opt[1][1], 'y offset of the star')
    S.same(len(got), 2, 'iterations')
    n = par['nSteps']
    for it, (xv, yv, z, mask) in enumerate(got):
        c = (0., 0.) if it == 0 else opt[0]
        grid = (np.arange(n) - (n - 1) / 2) * .5
        S.eq(xv, grid + c[0], 'grid of x')
        S.eq(yv, grid + c[1], 'grid of y')
        S.check(bool((mask != 0).all()), 'all points of the grid count')
        for j in range(n):
            for i in range(n):
                w = sum(disc(shape[1], shape[0], 1.25, gx + xv[i] + s * 2.25 * np.cos(np.radians(r)), gy + yv[j] + s * 2.25 * np.sin(np.radians(r)), 4) for r in rot for s in (1, -1))
                e = 0
                for p in np.argwhere(w):
                    e = e + w[tuple(p)] * img[tuple(p)]
                S.eq(z[j, i], e, 'light in the discs', tol=1e-6)


@harness('N11', quick=[dict(shape=(9, 11)), dict(shape=(10, 12), it=1)], stubs=['find_optimum_1d: optimum of each grid'])
def separation(S, shape=(9, 11), it=3):
    """The separation of the spots maximizes the light inside discs on both sides of the star: first the brightest grid point, then fits."""
    img = S.const(np.zeros(shape))
    a, b = S.real('a', 1, 100), S.real('b', 1, 100)
    img[4, 7], img[3, 8], img[6, 2] = a, b, 3.
    sx, sy = S.choice('sx', [0., .5]), S.choice('sy', [0., -.75])
    rot = S.choice('rot', [[0, 90], [20]])
    par = dict(spotSepPix=2.5, roiRadiusPix=1.25, probeRotVecDeg=rot, nSubpixels=4, nSteps=3, stepSize=.5, nIter=it)
    opt = [2.25, S.real('o', 1, 4)] if it == 3 else [S.real('o', 1, 4)]
    got = []

    def optimum(xv, z):
        got.append((np.array(xv, dtype=float), z.copy()))
        return opt[len(got) - 1]
    S.setattr(star_center, 'find_optimum_1d', optimum)
    out = star_center.calc_spot_separation(img, sx, sy, par)
    S.eq(out, opt[-1], 'separation')
    S.same(len(got), max(1, it - 1), 'fits')

    def light(sep):
        w = sum(disc(shape[1], shape[0], 1.25, sx + s * sep * np.cos(np.radians(r)), sy + s * sep * np.sin(np.radians(r)), 4) for r in rot for s in (1, -1))
        e = 0
        for p in np.argwhere(w):
            e = e + w[tuple(p)] * img[tuple(p)]
        return e
    grid = np.array([-.5, 0, .5])
    for k, (xv, z) in enumerate(got):
        if it == 1:
            c = 2.5
        elif k == 0:
            first = [light(2.5 + g) for g in grid]
            c = xv[1]
            i = int(round((float(c) - 2.) / .5))
            S.check(0 <= i <= 2 and abs(2. + .5 * i - c) < 1e-9, 'first estimate on the grid')
            S.check(S.and_(*[first[i] >= q - 1e-6 for q in first]), 'first estimate is the brightest')
        else:
            c = opt[0]
        S.eq(xv, grid + c, 'grid of separations')
        for g, v in zip(xv, z):
            S.eq(v, light(g), 'light in the discs', tol=1e-6)


@harness('N11', quick=[dict(shape=(5, 8)), dict(shape=(6, 7))], stubs=['calc_star_location_from_spots, calc_spot_separation: offset and separation'])
def center(S, shape=(5, 8)):
    """The spots are located in the difference of both images, from the guess relative to the middle pixel, with the parameters for
    offset and separation; the star is the middle pixel plus the offset and the spots lie around it."""
    ref, spot = S.array('r', shape, -10, 10), S.array('s', shape, -10, 10)
    gx, gy = S.real('gx', 0, 8), S.real('gy', 0, 8)
    ox, oy, sep = S.real('ox', -3, 3), S.real('oy', -3, 3), S.real('sep', 1, 5)
    seen = []

    def loc(im, x, y, par):
        S.eq(im, spot - ref, 'difference of the images')
        S.eq(x, gx - shape[1] // 2, 'x of the guess')
        S.eq(y, gy - shape[0] // 2, 'y of the guess')
        S.same(par, P['offset'], 'parameters of the offset')
        seen.append('offset')
        return ox, oy

    def radius(im, x, y, par):
        S.eq(im, spot - ref, 'difference of the images')
        S.eq(x, ox, 'x of the star')
        S.eq(y, oy, 'y of the star')
        S.same(par, P['separation'], 'parameters of the separation')
        seen.append('separation')
        return sep
    P = dict(offset=dict(spotSepPix=2., probeRotVecDeg=[1]), separation=dict(spotSepPix=2.5, probeRotVecDeg=[0, 60]))
    S.setattr(star_center, 'calc_star_location_from_spots', loc)
    S.setattr(star_center, 'calc_spot_separation', radius)
    th = S.choice('theta', [0., 30.])
    star, spots = star_center.star_center_from_satellite_spots(ref, spot, (gx, gy), th, P)
    S.same(seen, ['offset', 'separation'], 'steps')
    S.eq(star[0], ox + shape[1] // 2, 'x of the star')
    S.eq(star[1], oy + shape[0] // 2, 'y of the star')
    k = 0
    for t in (0., 60.):
        for s in (1, -1):
            S.eq(spots[k][0] , ox + s * sep * np.cos(np.radians(t + th)), 'x of the spot', tol=1e-6)
            S.eq(spots[k][1] , oy + s * sep * np.sin(np.radians(t + th)), 'y of the spot', tol=1e-6)
            k += 1
    S.raises(TypeError, lambda: star_center.star_center_from_satellite_spots(ref[:-1], spot, (gx, gy), th, P), 'shapes must agree')


@harness('N11', quick=[dict(nx=3, ny=2), dict(nx=2, ny=3)])
def window(S, nx=3, ny=2, n=2):
    """A disc weighs every pixel by the part of its points inside the radius, wherever its centre lies."""
    cx, cy = S.real('cx', -.9, .9), S.choice('cy', [0., .3])
    r = S.choice('r', [.8, 1.6])
    m = star_center.circle(nx, ny, r, cx, cy, nSubpixels=n)
    s = (np.arange(n) - (n - 1) / 2) / n
    for j in range(ny):
        for i in range(nx):
            inside, edge = 0, []
            for p in s:
                for q in s:
                    X, Y = i - nx // 2 - cx + p, j - ny // 2 - cy + q
                    d = X * X + Y * Y - r * r
                    inside = inside + S.ite(d <= 0, 1., 0.)
                    edge.append(S.and_(d < 1e-6, d > -1e-6))
            S.check(S.or_(*edge, S.and_(m[j, i] - inside / n ** 2 < 1e-6, inside / n ** 2 - m[j, i] < 1e-6)), 'weight of the pixel')
