"""Astrometric calibration: centroids, angles, source finding, plate scale, boresight and their averages over the frames."""
import warnings

import astropy.units
import numpy as np
import pyklip.fakes

from symnp.reg import harness
from . import stubs
from .common import *
from corgidrp import astrom


class Tab:
    """stand-in for astropy's Table: named columns, rows by number or selection"""

    def __init__(self, cols=None):
        self.c = dict(cols or {})

    @property
    def colnames(self):
        return list(self.c)

    def __setitem__(self, k, v):
        self.c[k] = v

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.c[k]
        if isinstance(k, (int, np.integer)):
            return {q: v[k] for q, v in self.c.items()}
        if isinstance(k, tuple):
            k = k[0]
        return Tab({q: v[k] for q, v in self.c.items()})

    def __len__(self):
        return len(next(iter(self.c.values())))

    @property
    def shape(self):
        return (len(self),)

    def copy(self):
        return Tab({q: np.copy(v) for q, v in self.c.items()})

    def sort(self, keys):
        o = np.argsort(self.c[keys], kind='stable')
        self.c = {q: v[o] for q, v in self.c.items()}


def tables(S):
    import astropy
    S.setattr(astropy.table, 'Table', Tab)


@harness('C11', quick=[dict(), dict(shape=(3, 2))], thorough=[dict(shape=(3, 3))])
def centroid(S, shape=(1, 3)):
    """A centroid is the flux-weighted mean position of the image, or of the box around its brightest pixel or a guess."""
    d = S.array('d', shape, .1, 10)
    ref = d.copy()

    def mean(win):
        t = sum(ref[p] for p in win)
        return [sum(p[1] * ref[p] for p in win) / t, sum(p[0] * ref[p] for p in win) / t]
    allpix = list(np.ndindex(*shape))
    x, y = astrom.centroid(d)
    w = mean(allpix)
    S.eq(x, w[0], 'x centroid', tol=1e-6)
    S.eq(y, w[1], 'y centroid', tol=1e-6)
    r = S.choice('r', [0, 1])
    guess = S.choice('guess', [None, (0, 0), (shape[1] - 1.4, .4), (None, 3)])
    if guess is None or None in guess:
        py, px = [p for p in allpix if S.truth(S.and_(*[ref[p] > ref[q] if q < p else ref[p] >= ref[q] for q in allpix if q != p]))][0]
    else:
        px, py = int(round(guess[0])), int(round(guess[1]))
    win = [p for p in allpix if abs(p[0] - py) <= r and abs(p[1] - px) <= r]
    w = mean(win)
    kw = {} if guess is None else dict(centering_initial_guess=guess)
    x, y = astrom.centroid_with_roi(d, roi_radius=r, **kw)
    S.eq(x, w[0], 'x centroid of the box', tol=1e-6)
    S.eq(y, w[1], 'y centroid of the box', tol=1e-6)
    S.eq(d, ref, 'image unchanged')


@harness('C11', quick=[dict()])
def blank_pixel(S):
    """Pixels without a value far from the brightest pixel do not matter for the centroid of its box."""
    d = S.const(np.full((1, 6), .1))
    v = [S.real('v%d' % i, .2, 10) for i in range(2)]
    d[0, 0], d[0, 1] = v
    d[0, S.choice('blank', [4, 5])] = np.nan
    x, y = astrom.centroid_with_roi(d, roi_radius=1)
    if S.truth(v[0] >= v[1]):
        S.eq(x, v[1] / (v[0] + v[1]), 'x centroid', tol=1e-6)
    else:
        S.eq(x, (v[1] + .2) / (v[0] + v[1] + .1), 'x centroid', tol=1e-6)
    S.eq(y, 0., 'y centroid', tol=1e-9)


@harness('C11', quick=[dict()])
def empty_roi(S):
    """Without any flux in the box the position of the peak or guess is returned."""
    d = S.const(np.zeros((4, 5)))
    d[0, 0] = S.real('v', 1, 2)
    g = (S.choice('gx', [3, 4]), S.choice('gy', [2, 3]))
    S.same(tuple(astrom.centroid_with_roi(d, roi_radius=1, centering_initial_guess=g)), g, 'guess')


@harness('C11', quick=[dict()])
def angle(S):
    """Angles between two positions run from north (up) counterclockwise (to the left)."""
    p, q = [[S.real('%s%d' % (k, i), -50, 50) for i in range(2)] for k in 'pq']
    dx, dy = q[0] - p[0], q[1] - p[1]
    S.assume(S.or_(dy > .5, dy < -.5))
    S.assume(S.or_(dx > .1, dx < -.1))
    got = astrom.angle_between(p, q)
    e = -S.np.arctan(dx / dy) * 180 / np.pi
    e = S.ite(dy < 0, e + 180, e)
    d = got - e
    near = lambda v: S.and_(d - v < 1e-5, v - d < 1e-5)
    S.check(S.or_(near(0), near(360), near(-360)), 'angle')


@harness('C11', quick=[dict()])
def angle_axes(S):
    """Sources exactly above, left, below and right are at 0, 90, 180 and 270 degrees."""
    p = np.array([S.choice('px', [0., 3.5]), S.choice('py', [0., -2.5])])
    k, a = S.choice('dir', [((0., 1.), 0), ((-1., 0.), 90), ((0., -1.), 180), ((1., 0.), 270), ((-1., 1.), 45), ((-1., -1.), 135), ((1., -1.), 225), ((1., 1.), 315)])
    got = astrom.angle_between(p, p + S.choice('len', [1., 7.]) * np.array(k))
    S.check(abs((float(got) - a + 180) % 360 - 180) < 1e-6, 'angle of the direction')


@harness('C11', quick=[dict(), dict(form='array')])
def polar(S, form='scalar'):
    """Separation and position angle (north up, east left) turn into offsets, positions and distances."""
    cx, cy = S.real('cx', -50, 50), S.real('cy', -50, 50)
    if form == 'scalar':
        s, a = S.real('s', .1, 50), S.real('a', -400, 400)
        d = astrom.seppa2dxdy(s, a)
        t = a * np.pi / 180.
        S.eq(d[0], -s * S.np.sin(t), 'dx')
        S.eq(d[1], s * S.np.cos(t), 'dy')
        x = astrom.seppa2xy(s, a, cx, cy)
        S.eq(x[0], cx - s * S.np.sin(t), 'x')
        S.eq(x[1], cy + s * S.np.cos(t), 'y')
        b = S.choice('b', [0., 90., 210.])
        c = S.choice('c', [0., 60., 300.])
        s2 = S.real('s2', .1, 50)
        g = astrom.get_polar_dist((s, b), (s2, b + c))
        S.check(g >= 0, 'distance not negative')
        S.eq(g * g, s * s + s2 * s2 - 2 * s * s2 * {0.: 1., 60.: .5, 300.: .5}[c], 'distance', tol=1e-6)
    else:
        s = S.array('s', (3,), .1, 50)
        a = np.array([0., 90., 225.])
        d = astrom.seppa2dxdy(s, a)
        x = astrom.seppa2xy(s, a, cx, cy)
        h = np.sqrt(.5)
        for i, (u, v) in enumerate(((0, 1), (-1, 0), (h, -h))):
            S.eq(d[0][i], u * s[i], 'dx', tol=1e-6)
            S.eq(d[1][i], v * s[i], 'dy', tol=1e-6)
            S.eq(x[0][i], cx + u * s[i], 'x', tol=1e-6)
            S.eq(x[1][i], cy + v * s[i], 'y', tol=1e-6)


@harness('C11', quick=[dict()])
def mask(S, shape=(3, 4)):
    """A circular mask holds exactly the pixels within the radius of its centre (x, y)."""
    c, r = [S.real('cx', -1, 5), S.real('cy', -1, 5)], S.real('r', .1, 5)
    m = astrom.create_circular_mask(shape, center=c, r=r)
    S.same(tuple(m.shape), tuple(shape), 'shape')
    i = S.choice('row', list(range(shape[0])))
    for j in range(shape[1]):
        d2 = (j - c[0]) * (j - c[0]) + (i - c[1]) * (i - c[1])
        S.assume(S.or_(d2 < r * r - 1e-6, d2 > r * r + 1e-6))
        S.eq(S.ite(m[i, j], 1, 0), S.ite(d2 <= r * r, 1, 0), 'pixel inside exactly if within the radius')


STARS = {'inside': [(1, 1), (1, 5), (4, 3)], 'edges': [(0, 3), (3, 0), (5, 5)], 'corners': [(0, 0), (0, 6), (5, 6)], 'mixed': [(5, 0), (2, 3), (4, 6)]}


@harness('C11', quick=[dict(where=w) for w in STARS], stubs=['pyklip gaussfit2d: returns its guess shifted by a fixed amount'])
def sources(S, where='inside', shape=(6, 7)):
    """The brightest separate sources of an image are found, brightest first, each at its own position, wherever they are;
    the image stays."""
    tables(S)
    S.setattr(pyklip.fakes, 'gaussfit2d', lambda frame, xguess, yguess, **k: (1., 2., xguess + .25, yguess - .125))
    pos = STARS[where]
    d = S.const(np.zeros(shape))
    v = [S.real('v%d' % i, 5, 100) for i in range(3)]
    for i, (y, x) in enumerate(pos):
        d[y, x] = v[i]
        for dy, dx in ((0, 1), (0, -1), (1, 0)):
            if 0 <= y + dy < shape[0] and 0 <= x + dx < shape[1]:
                d[y + dy, x + dx] = S.real('w%d%d%d' % (i, dy, dx), 1, 4)
                break
    S.assume(S.and_(*[S.or_(v[i] < v[j] - .1, v[i] > v[j] + .1) for i in range(3) for j in range(i)]))
    ref = d.copy()
    n = S.choice('n', [2, 3])
    t = astrom.find_source_locations(d, threshold=n, fwhm=1)
    from functools import cmp_to_key
    order = sorted(range(3), key=cmp_to_key(lambda i, j: -1 if S.truth(v[i] > v[j]) else 1))
    S.same(len(t['x']), n, 'number of sources')
    for k, i in enumerate(order[:n]):
        S.eq(t['x'][k], pos[i][1] + .25, 'x of the source')
        S.eq(t['y'][k], pos[i][0] - .125, 'y of the source')
    S.eq(d, ref, 'image unchanged')


@harness('C11', quick=[dict(r=1), dict(r=2), dict(r=3)], thorough=[dict(r=2, n=5)])
def combos(S, r=2, n=4):
    """All combinations of the given length, each once."""
    import itertools
    S.same(list(tuple(int(q) for q in c) for c in astrom.compute_combinations(range(n), r=r)), list(itertools.combinations(range(n), r)), 'combinations')


RADEC = (80.5, -69.5)


def field(shape, pix, scale=20., north=0.):
    """sky positions of pixel positions around the image centre for a plate scale and north angle"""
    from astropy.coordinates import SkyCoord
    import astropy.units as u
    c = SkyCoord(ra=RADEC[0], dec=RADEC[1], unit='deg')
    cx, cy = (shape[1] - 1) // 2, (shape[0] - 1) // 2
    ra, dec = [], []
    for x, y in pix:
        pa = np.degrees(np.arctan2(-(x - cx), y - cy)) + north
        s = np.hypot(x - cx, y - cy) * scale
        q = c.directional_offset_by(pa * u.deg, s * u.mas)
        ra.append(q.ra.deg)
        dec.append(q.dec.deg)
    return Tab(dict(x=np.array([p[0] for p in pix], dtype=float), y=np.array([p[1] for p in pix], dtype=float), RA=np.array(ra), DEC=np.array(dec)))


@harness('C11', quick=[dict(shape=(41, 41)), dict(shape=(31, 51))], stubs=['pyklip gaussfit2d and measure_offset: measured positions'])
def scale(S, shape=(41, 41)):
    """The plate scale is the mean over all pairs of sources of sky over pixel separation, the north angle the mean over the
    sources of sky minus image position angle around the image centre; sources outside the used area do not count."""
    tables(S)
    north = S.choice('north', [0., 12., -30., 120., -100., 179.999, 180.])
    cx, cy = (shape[1] - 1) // 2, (shape[0] - 1) // 2
    pix = [(cx + 5., cy + 3.), (cx - 6., cy + 4.), (cx - 2., cy - 7.), (1., 1.)]
    t = field(shape, pix, 20., north)
    k = [S.real('k%d' % i, .5, 2) for i in range(3)]
    seen = []

    def offset(im, xstar_guess, ystar_guess, xoffset_guess, yoffset_guess, **kw):
        f = k[len(seen)]
        seen.append((xstar_guess, ystar_guess))
        h = np.hypot(xoffset_guess, yoffset_guess)
        return [h / f, 0.], [0., 0., 0.]
    S.setattr(astrom, 'measure_offset', offset)
    S.setattr(pyklip.fakes, 'gaussfit2d', lambda frame, xguess, yguess, **kw: (1., 2., xguess, yguess))
    image = np.zeros(shape)
    ps, na = astrom.compute_platescale_and_northangle(image, t, RADEC, center_radius=.9)
    S.same(len(seen), 3, 'every pair of sources in the used area')
    S.eq(ps, 20. * (k[0] + k[1] + k[2]) / 3, 'plate scale', tol=1e-3)
    turn = (na - north) / 360
    S.check(S.or_(*[abs(turn - k) < 1e-6 for k in (-1, 0, 1)]), 'north angle')


@harness('C11', quick=[dict(), dict(brightest=4)], thorough=[dict(many=True)], stubs=['pyklip gaussfit2d: the target position; astropy ascii.read: the catalogue'])
def matching(S, brightest=50, many=False):
    """Every source gets the catalogue position of the star nearest to it on the image, for any north angle and any plate scale
    within the tolerance around the guess; stars outside the search radius or too faint to be used first do not mislead."""
    import astropy.io.ascii
    tables(S)
    tracking(S, False)
    shape = (61, 71)
    north, ps = S.choice('north', [0., 20., -20., 100., -170.] + ([45., -60., 90., 180., -90., 135.] if many else [])), S.choice('scale', [21.8, 20., 23.])
    cx, cy = (shape[1] - 1) // 2, (shape[0] - 1) // 2
    pix = [(cx + 20., cy + 5.), (cx - 12., cy + 17.), (cx - 5., cy - 22.), (cx + 14., cy - 12.), (cx - 25., cy - 4.)]
    sky = field(shape, pix, ps, north)
    order = S.choice('order', [[0, 1, 2, 3, 4], [4, 2, 0, 3, 1]])
    cat = Tab(dict(RA=np.append(sky['RA'][order], [RADEC[0] + .5, RADEC[0]]), DEC=np.append(sky['DEC'][order], [RADEC[1], RADEC[1] - .5]),
                   VMAG=np.append(np.array([10., 11., 12., 13., 14.])[order], [1., 2.])))
    S.setattr(astropy.io.ascii, 'read', lambda path, **k: cat.copy() if path == 'field.csv' else None)
    S.setattr(pyklip.fakes, 'gaussfit2d', lambda frame, xguess, yguess, **kw: (1., 2., float(cx), float(cy)))
    x, y = S.real('x', 3, 67), S.real('y', 3, 57)
    d2 = [(x - p[0]) * (x - p[0]) + (y - p[1]) * (y - p[1]) for p in pix]
    for i in range(5):
        for j in range(i):
            S.assume(S.or_(d2[i] > d2[j] + 1., d2[i] < d2[j] - 1.))
    src = Tab(dict(x=S.np.array([p[0] for p in pix[:3]] + [x]), y=S.np.array([p[1] for p in pix[:3]] + [y])))
    im = image(S, shape=shape, dat=S.const(np.zeros(shape)), err=S.const(np.zeros((1,) + shape)), dq=S.const(np.zeros(shape, dtype=np.uint16)), pri=dict(RA=RADEC[0], DEC=RADEC[1]))
    out = astrom.match_sources(im, src, 'field.csv', comparison_threshold=brightest)
    S.same(len(out), 4, 'one match per source')
    for i in range(3):
        S.check(abs(out['RA'][i] - sky['RA'][i]) < 1e-7 and abs(out['DEC'][i] - sky['DEC'][i]) < 1e-7, 'star of the source')
    S.eq(out['x'][3], x, 'its place on the image')
    S.eq(out['y'][3], y, 'its place on the image')
    k = [j for j in range(5) if abs(float(out['RA'][3]) - sky['RA'][j]) < 1e-7 and abs(float(out['DEC'][3]) - sky['DEC'][j]) < 1e-7]
    S.same(len(k), 1, 'a star of the catalogue')
    for j in range(5):
        S.check(d2[k[0]] <= d2[j], 'the nearest star')


@harness('C11', quick=[dict(shape=(40, 40)), dict(shape=(32, 48))], stubs=['pyklip gaussfit2d: measured positions'])
def boresight(S, shape=(40, 40)):
    """The boresight offset is the mean over the sources in the central area of measured minus predicted position, in degrees."""
    tables(S)
    north, ps = S.choice('north', [0., 15.]), S.choice('scale', [20., 22.])
    cx, cy = shape[1] // 2, shape[0] // 2
    pix = [(cx + 5., cy + 3.), (cx - 6., cy + 4.), (1., 1.)]
    import astropy.wcs
    c, s = np.cos(np.radians(north)), np.sin(np.radians(north))
    cd = np.array([[-c, s], [s, c]]) * ps * .001 / 3600
    w = astropy.wcs.WCS(dict(CD1_1=cd[0, 0], CD1_2=cd[0, 1], CD2_1=cd[1, 0], CD2_2=cd[1, 1], CRPIX1=cx, CRPIX2=cy, CTYPE1='RA---TAN', CTYPE2='DEC--TAN', CRVAL1=RADEC[0], CRVAL2=RADEC[1]))
    ra, dec = w.all_pix2world([p[0] for p in pix], [p[1] for p in pix], 0)
    t = Tab(dict(x=np.array([p[0] for p in pix]), y=np.array([p[1] for p in pix]), RA=ra, DEC=dec))
    d = [[S.real('d%d%d' % (i, j), -3, 3) for j in range(2)] for i in range(2)]
    n = []
    if S.symbolic:
        class Mas:
            __array_ufunc__ = None

            def __rmul__(self, v):
                self.v = v
                return self

            def to(self, u):
                self.value = self.v / 3.6e6
                return self
        S.setattr(astropy.units, 'mas', Mas())

    def fit(frame, xguess, yguess, **kw):
        n.append(1)
        return 1., 2., xguess + d[len(n) - 1][0], yguess + d[len(n) - 1][1]
    S.setattr(pyklip.fakes, 'gaussfit2d', fit)
    a, b = astrom.compute_boresight(np.zeros(shape), t, RADEC, (ps, north))
    S.same(len(n), 2, 'sources of the central area')
    f = ps / 3.6e6
    S.eq(a * 1e6, (d[0][0] + d[1][0]) / 2 * f * 1e6, 'offset in right ascension', tol=1e-2)
    S.eq(b * 1e6, (d[0][1] + d[1][1]) / 2 * f * 1e6, 'offset in declination', tol=1e-2)


class Matches(Tab):
    """matched sources of a frame, known by a number"""

    def __init__(self, i):
        super().__init__(dict(x=[0.]))
        self.i = i


@harness('C11', quick=[dict(n=2), dict(n=3, combine=2), dict(n=4, combine=2), dict(given=1), dict(given=3, n=3, combine=2), dict(n=3, combine=2, distort=True)], thorough=[dict(n=3), dict(n=5, combine=2), dict(given=2, distort=True)],
         stubs=['find_source_locations, match_sources, compute_platescale_and_northangle, compute_boresight: measured values per frame'])
def calibration(S, n=2, combine=None, given=0, distort=False):
    """The astrometric calibration holds the corrected pointing of the first frame and the means over all frames (or all
    combined frames) of plate scale, north angle and offsets, with zero distortion unless asked for; matches of sources that are
    given are used instead of searched; the input stays apart from its history."""
    warnings.simplefilter('ignore')
    tracking(S, False)
    m = n if combine is None else -(-n // combine)
    ps, na, off = [S.real('ps%d' % i, 15, 30) for i in range(m)], [S.real('na%d' % i, -50, 50) for i in range(m)], [[S.real('o%d%d' % (i, j), -1, 1) for j in range(2)] for i in range(m)]
    radec = [(80. + .25 * i, -69. - .5 * i) for i in range(n)]
    fs = []
    for i in range(n):
        fs.append(image(S, tag='f%d' % i, shape=(2, 3), pri=dict(RA=radec[i][0], DEC=radec[i][1]), err=S.const(np.zeros((1, 2, 3))), dq=S.const(np.zeros((2, 3), dtype=np.uint16)), data_level='L2b'))
        fs[-1].filename = 'CGI_%d_L2b_.fits' % i
    ds = data.Dataset(fs)
    s0 = [snap(f) for f in ds.frames]
    seen = dict(find=[], scale=[], bore=[])

    def find(im, **k):
        seen['find'].append(im.copy())
        S.check(not given, 'no search if the matches are given')
        return len(seen['find']) - 1

    def match(im, found, path, **k):
        return Matches(found)

    def scale(im, source_info, center_coord, center_radius=.9):
        seen['scale'].append((source_info, center_coord))
        i = source_info.i
        if given:
            S.eq(im, sum(s0[j]['data'] for j in groups[len(seen['scale']) - 1]) / len(groups[len(seen['scale']) - 1]), 'image measured')
            S.same(i, 0 if given == 1 else groups[len(seen['scale']) - 1][0], 'matches given for the frame')
            i = len(seen['scale']) - 1
        return ps[i], na[i]

    def bore(im, source_info, target_coordinate, cal_properties):
        i = len(seen['bore']) if given else source_info.i
        seen['bore'].append((i, target_coordinate))
        S.eq(cal_properties[0], ps[i], 'plate scale of the frame')
        S.eq(cal_properties[1], na[i], 'north angle of the frame')
        return off[i][0], off[i][1]
    for nm, f in (('find_source_locations', find), ('match_sources', match), ('compute_platescale_and_northangle', scale), ('compute_boresight', bore)):
        S.setattr(astrom, nm, f)
    kw = {} if combine is None else dict(frames_to_combine=combine)
    if given:
        kw['field_matches'] = [Matches(i) for i in range(given)]
    coef = np.arange(8) + .5
    if distort:
        kw['find_distortion'], kw['fitorder'], kw['position_error'] = True, 1, S.choice('perr', [None, .25])

        def pairs(d, source_matches, ref_star_pos, position_error=None):
            S.same([q.i for q in source_matches] if not given else len(source_matches), list(range(m)) if not given else m, 'matches of all frames')
            S.same(len(d), m, 'frames whose distortion is measured')
            for f, g in zip(d, groups):
                S.eq(f.data, sum(s0[i]['data'] for i in g) / len(g), 'image whose distortion is measured')
            S.same([(float(t['x'][0]), float(t['y'][0]), float(t['RA'][0]), float(t['DEC'][0])) for t in ref_star_pos], [(1., 0.) + radec[g[0]] for g in groups], 'reference position')
            S.same(position_error, kw['position_error'], 'position error')
            return 'first', 'measured', 'true', 'errors'

        def solve(d, pos1, meas_offset, sky_offset, meas_errs, platescale, northangle, fitorder=3, initial_guess=None):
            S.same((pos1, meas_offset, sky_offset, meas_errs, fitorder), ('first', 'measured', 'true', 'errors', 1), 'data of the distortion')
            S.eq(platescale, sum(ps) / m, 'plate scale of the distortion')
            S.eq(northangle, sum(na) / m, 'north angle of the distortion')
            return coef, 1
        S.setattr(astrom, 'format_distortion_inputs', pairs)
        S.setattr(astrom, 'compute_distortion', solve)
    groups = [[i] for i in range(n)] if combine is None else [list(range(a, min(n, a + combine))) for a in range(0, n, combine)]
    cal = astrom.boresight_calibration(ds, field_path='none', **kw)
    S.same(len(seen['find' if not given else 'scale']), m, 'every frame is measured once')
    for im, g in zip(seen['find'], groups):
        S.eq(im, sum(s0[i]['data'] for i in g) / len(g), 'image measured')
    first = [radec[g[0]] for g in groups]
    S.same([(i, tuple(float(q) for q in t)) for i, t in seen['bore']], list(enumerate(first)), 'pointing of each frame')
    S.eq(cal.boresight[0], first[0][0] - off[0][0], 'right ascension')
    S.eq(cal.boresight[1], first[0][1] - off[0][1], 'declination')
    for i in range(2):
        S.eq(cal.platescale[i], sum(ps) / m, 'plate scale')
        S.eq(cal.avg_offset[i], sum(o[i] for o in off) / m, 'mean offset')
    S.eq(cal.northangle, sum(na) / m, 'north angle')
    zero = np.zeros(33)
    zero[4] = zero[17] = 500
    zero[32] = 3
    S.eq(cal.distortion_coeffs, list(coef) + [1] if distort else zero, 'distortion')
    S.same(cal.ext_hdr['DATATYPE'], 'AstrometricCalibration', 'type')
    for f, s in zip(ds.frames, s0):
        S.eq(f.data, s['data'], 'input data')
        hsame(S, hdict(f.pri_hdr), s['pri'], 'input primary header')
        hsame(S, [q for q in hdict(f.ext_hdr) if q[0] != 'HISTORY'], [q for q in s['ext'] if q[0] != 'HISTORY'], 'input header')


@harness('C11', quick=[dict(), dict(n=3)], stubs=['measure_offset: offset and errors of each pair'])
def pairs(S, n=2, frames=2):
    """The pairs for the distortion map list for every matched star of every frame the reference position, the measured offset, the
    separation and position angle on the sky from the reference, and the given or fitted errors."""
    tables(S)
    fs = [image(S, tag='f%d' % i, shape=(2, 3), err=S.const(np.zeros((1, 2, 3))), dq=S.const(np.zeros((2, 3), dtype=np.uint16)), data_level='L2b') for i in range(frames)]
    ds = data.Dataset(fs)
    sky = [[(80.5, -69.5), (80.5, -69.4), (80.45, -69.5)][:n - i % 2 if n > 2 else n] for i in range(frames)]
    ref = [(80.5 + .01 * i, -69.45) for i in range(frames)]
    m, r = [], []
    for i in range(frames):
        k = len(sky[i])
        m.append(Tab(dict(x=S.array('x%d' % i, (k,), 0, 1000), y=S.array('y%d' % i, (k,), 0, 1000), RA=np.array([q[0] for q in sky[i]]), DEC=np.array([q[1] for q in sky[i]]))))
        r.append(Tab(dict(x=np.array([511. + i]), y=np.array([500.]), RA=np.array([ref[i][0]]), DEC=np.array([ref[i][1]]))))
    tot = sum(len(q) for q in sky)
    off = [[S.real('d%d%d' % (i, j), -500, 500) for j in range(2)] for i in range(tot)]
    er = [[S.real('e%d%d' % (i, j), .01, 2) for j in range(3)] for i in range(tot)]
    seen = []

    def measure(frame, x, y, gx, gy, **k):
        seen.append((frame.copy(), np.ravel(gx)[0], np.ravel(gy)[0]))
        return list(off[len(seen) - 1]), np.array(er[len(seen) - 1])
    S.setattr(astrom, 'measure_offset', measure)
    pe = S.choice('perr', [None, .25])
    first, got, true, errs = astrom.format_distortion_inputs(ds, m, r, **({} if pe is None else dict(position_error=pe)))
    S.same(len(seen), tot, 'pairs measured')
    k = 0
    from astropy.coordinates import SkyCoord
    for i in range(frames):
        a = SkyCoord(ra=ref[i][0], dec=ref[i][1], unit='deg')
        for j, q in enumerate(sky[i]):
            b = SkyCoord(ra=q[0], dec=q[1], unit='deg')
            frame, gx, gy = seen[k]
            S.eq(frame, fs[i].data, 'image the pair is measured in')
            S.eq(gx, m[i]['x'][j] - (511. + i), 'expected offset')
            S.eq(gy, m[i]['y'][j] - 500., 'expected offset')
            S.eq(first[0][k], 511. + i, 'reference position')
            S.eq(first[1][k], 500., 'reference position')
            for c in range(2):
                S.eq(got[c][k], off[k][c], 'measured offset')
                S.eq(errs[c][k], er[k][c] if pe is None else pe, 'error of the offset')
            S.check(abs(float(true[0][k]) - a.separation(b).mas) < .01, 'separation on the sky')
            S.check(abs((float(true[1][k]) - a.position_angle(b).deg + 180) % 360 - 180) < 1e-6, 'position angle on the sky')
            k += 1


@harness('C11', quick=[dict()], stubs=['measure_offset: the position of the first star of the pair'])
def first_star(S):
    """The offset of a pair of stars is measured from the reference position."""
    tables(S)
    f = image(S, shape=(2, 3), err=S.const(np.zeros((1, 2, 3))), dq=S.const(np.zeros((2, 3), dtype=np.uint16)), data_level='L2b')
    x, y = S.real('x', 0, 1000), S.real('y', 0, 1000)
    m = Tab(dict(x=[x], y=[y], RA=np.array([80.5]), DEC=np.array([-69.5])))
    r = Tab(dict(x=np.array([511.]), y=np.array([500.]), RA=np.array([80.5]), DEC=np.array([-69.4])))

    def measure(frame, x, y, gx, gy, **k):
        S.check(S.and_(np.ravel(x)[0] == 511, np.ravel(y)[0] == 500), 'distortion pairs are measured from the reference position')
        return [gx, gy], np.ones(3)
    S.setattr(astrom, 'measure_offset', measure)
    astrom.format_distortion_inputs(data.Dataset([f]), [m], [r], position_error=.5)


def legendre(S):
    """two-dimensional Legendre series up to order two, also of symbolic coefficients"""
    P = [lambda t: 1., lambda t: t, lambda t: 1.5 * t * t - .5]

    def f(x, y, c):
        out = 0
        for i in range(c.shape[0]):
            for j in range(c.shape[1]):
                out = out + c[i, j] * P[i](x) * P[j](y)
        return out
    return f


@harness('C11', quick=[dict(), dict(order=2)], stubs=['legval2d: the Legendre series of order up to two'])
def residual(S, order=1):
    """The distortion fit compares the corrected offset of each pair with its true one: separation in pixels over its error, and angle
    over that of the error at the true separation; true angles count from the north angle. Distortion-free coefficients leave the offsets."""
    stubs.use(S, **{'numpy.polynomial.legendre.legval2d': legendre(S)})
    n = (order + 1) ** 2
    pos = np.array([[511., 300.], [500., 650.]])
    off = np.array([[200., -100.], [0., 150.]])
    free = S.choice('free', [True, False])
    base = [0. for _ in range(order + 1)] + [500.] + [0.] * (n - order - 2) + [0., 500.] + [0.] * (n - 2)
    if free:
        co = base
    else:
        co = list(base)
        for k in S.choice('which', [(order + 2, n + 1), (1, n + order + 1)]):
            co[k] = S.real('c%d' % k, -20, 20) + base[k]
    co = S.np.array(co)
    ps, na = 21.8, S.choice('na', [0., -30., 170.])
    sep = [S.real('s%d' % i, 1000, 5000) for i in range(2)]
    ex, ey = [S.real('ex%d' % i, .1, 2) for i in range(2)], [S.real('ey%d' % i, .1, 2) for i in range(2)]
    pa = [S.choice('pa', [0., 250.]), 90.]
    res = astrom.fit_distortion_solution(co, order, ps, na, S.const(pos), S.const(off), S.np.array([S.np.array(sep), np.array(pa)]), S.np.array([S.np.array(ex), S.np.array(ey)]))
    S.same(len(res), 4, 'two residuals per pair')
    leg = legendre(S)
    cx, cy = co[:n].reshape(order + 1, order + 1), co[n:].reshape(order + 1, order + 1)
    sc = 500. ** (np.arange(order + 1)[:, None] + np.arange(order + 1))
    for k in range(2):
        p = pos[:, k] - 511
        q = p + off[:, k]
        dx, dy = [leg(q[0], q[1], c / sc) - leg(p[0], p[1], c / sc) for c in (cx, cy)]
        e = (ex[k] + ey[k]) / 2
        d = res[k] * e + sep[k] / ps
        S.check(d > -1e-6, 'corrected separation not negative')
        S.eq(d * d, dx * dx + dy * dy, 'corrected separation', tol=1e-4)
        if free:
            t = np.degrees(np.arctan2(-off[0, k], off[1, k])) - (pa[k] - na)
            t = (t + 90) % 180 - 90
            S.eq(res[2 + k] * e / (sep[k] / ps), np.radians(t), 'angle', tol=1e-4)
