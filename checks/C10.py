"""Core throughput: calibration from off-axis PSFs, masks positions, interpolation and maps."""
import os
import warnings

import astropy.io.fits as fits
import numpy as np

from symnp.reg import harness
from .common import *
from corgidrp import corethroughput as ctp, astrom

PUPIL = dict(DPAMNAME='PUPIL', LSAMNAME='OPEN', FSAMNAME='OPEN', FPAMNAME='OPEN_12')


def frame(S, i, shape, pupil=False, odd=None, dat=None, filt='1F', **kw):
    ext = dict(CFAMNAME=filt, FPAM_H=1. + i, FPAM_V=2. + i, FSAM_H=3. + i, FSAM_V=4. + i, DATETIME='2027-0%d' % (i + 1))
    ext.update(PUPIL if pupil else dict(DPAMNAME='IMAGING', LSAMNAME='NFOV', FSAMNAME='R1C1', FPAMNAME='HLC12_C2R1'))
    if odd:
        ext.update(PUPIL)
        if odd == 'missing':
            del ext['LSAMNAME']
        else:
            ext[odd] = 'other'
    f = image(S, tag='f%d' % i, shape=shape, dat=S.array('psf%d' % i, shape, 0, 10) if dat is None else dat, err=S.const(np.zeros((1,) + shape)), ext=ext, data_level='L3', **kw)
    f.filename = 'CGI_%d_L3_.fits' % i
    return f


def core(S, d, shape):
    """sum of the pixels that reach half the peak"""
    m = d[0, 0]
    for p in np.ndindex(shape):
        m = S.ite(d[p] > m, d[p], m)
    return sum(S.ite(d[p] >= m / 2, d[p], 0.) for p in np.ndindex(shape))


@harness('C10', quick=[dict(n=2), dict(n=2, shape=(1, 2), odd='any'), dict(n=2, shape=(1, 2), odd='missing')],
         thorough=[dict(n=3, shape=(1, 3)), dict(n=3, shape=(1, 2), odd='FSAMNAME'), dict(n=2, shape=(3, 1), odd='any')])
def throughput(S, n=2, shape=(1, 3), odd=None):
    """The throughput of each off-axis PSF is the sum of its pixels at or above half its peak over the mean total of the pupil
    images (turned into imaging-lens counts); pupil images are exactly those with all four mechanisms in pupil position,
    wherever they are in the sequence; the input stays as it is. No pupil image, no PSF or mixed filters are refused."""
    shape = tuple(shape)
    tracking(S, False)
    ratio = ctp.di_over_pil_transmission(cfam_name='1F')
    if odd == 'any':
        odd = S.choice('odd', list(PUPIL))
    fs, kinds = [], []
    for i in range(n + 1):
        k = S.choice('pupil%d' % i, [False, True])
        if k:
            p = S.const(np.full(shape, 1. + i))
        kinds.append(k)
        fs.append(frame(S, i, shape, pupil=k, odd=odd if i == 0 and not k else None, dat=p if k else None))
    ds = data.Dataset(fs)
    s0 = [snap(f) for f in ds.frames]
    if all(kinds) or not any(kinds):
        S.raises(Exception, lambda: ctp.estimate_psf_pix_and_ct(ds, roi_radius=1), 'needs pupil images and PSFs')
        return
    off = [i for i in range(n + 1) if not kinds[i]]
    for i in off:
        S.assume(s0[i]['data'][0, 0] > 0)
    pix, ct = ctp.estimate_psf_pix_and_ct(ds, roi_radius=1)
    norm = np.mean([(1. + i) * np.prod(shape) for i in range(n + 1) if kinds[i]]) * ratio
    S.same((len(pix), len(ct)), (len(off), len(off)), 'one result per PSF')
    for j, i in enumerate(off):
        S.eq(ct[j], core(S, s0[i]['data'], shape) / norm, 'core throughput', tol=1e-9)
        x, y = astrom.centroid_with_roi(s0[i]['data'].copy(), roi_radius=1)
        S.eq(pix[j][0], x, 'x position of the same PSF')
        S.eq(pix[j][1], y, 'y position of the same PSF')
    for f, s in zip(ds.frames, s0):
        unchanged(S, f, s)


@harness('C10', quick=[dict()])
def filters(S):
    """All frames must be taken through one filter, named in every header."""
    fs = [frame(S, 0, (1, 1), pupil=True), frame(S, 1, (1, 1))]
    how = S.choice('how', ['mixed', 'missing'])
    if how == 'mixed':
        fs[1].ext_hdr['CFAMNAME'] = '4A'
    else:
        del fs[S.choice('which', [0, 1])].ext_hdr['CFAMNAME']
    for fn in (ctp.estimate_psf_pix_and_ct, ctp.generate_ct_cal):
        S.raises(Exception, lambda: fn(data.Dataset(fs)), 'refused')


@harness('C10', quick=[dict()])
def calibration(S):
    """The calibration product holds the window around each PSF with its flags, the position and throughput of the same PSF,
    and the mask positions of the observation, through storage too; the input stays."""
    warnings.simplefilter('ignore')
    tracking(S, False)
    S.setattr(ctp, 'get_cfam', lambda cfam_name='1F', cfam_version=0: (np.array([40.]), np.array([1.])))
    S.setattr(ctp, 'di_over_pil_transmission', lambda cfam_name='1F', cfam_version=0: 0.5)
    shape, w = (6, 7), 1
    pos = S.choice('pos', [[(2, 3), (5, 2)], [(4, 4), (2, 2)], [(3, 3), (3, 3)]])
    odd = S.choice('odd', [None] + list(PUPIL)) if pos[1] == (5, 2) else None
    fs = []
    for i in range(2):
        d = np.zeros(shape)
        d = S.const(d)
        for q in np.ndindex(3, 3):
            v = (q, (2 - q[0], 2 - q[1]))[i]
            d[pos[i][1] + q[0] - 1, pos[i][0] + q[1] - 1] = .1 + v[0] + .3 * v[1]
        d[pos[i][1], pos[i][0]] = 10.
        d[pos[i][1] - 1, pos[i][0]] = S.real('v%d' % i, .01, .09)
        d[0, 0] = S.real('w%d' % i, .01, .09)
        fs.append(frame(S, i + 1, shape, dat=d, odd=odd if i == 1 else None))
    at = S.choice('pupil at', [0, 1, 2])
    fs.insert(at, frame(S, 5, shape, pupil=True, dat=S.const(np.ones(shape))))
    ds = data.Dataset(fs)
    s0 = [snap(f) for f in ds.frames]
    cal = ctp.generate_ct_cal(ds, roi_radius=1)
    off = [s for i, s in enumerate(s0) if i != at]

    def verify(c, label):
        S.same(c.data.shape, (2, 3, 3), label + 'one window per PSF')
        for i in range(2):
            sl = (slice(pos[i][1] - 1, pos[i][1] + 2), slice(pos[i][0] - 1, pos[i][0] + 2))
            S.eq(c.data[i], off[i]['data'][sl], label + 'window around the PSF')
            S.eq(c.dq[i], off[i]['dq'][sl], label + 'flags of the window')
            x, y = astrom.centroid_with_roi(off[i]['data'].copy(), roi_radius=1)
            S.eq(c.ct_excam[0, i], x, label + 'x', tol=1e-9)
            S.eq(c.ct_excam[1, i], y, label + 'y', tol=1e-9)
            S.eq(c.ct_excam[2, i], 10. / (42 * .5), label + 'throughput', tol=1e-9)
        e = s0[0]['ext']
        e = dict(e)
        S.same((list(c.ct_fpam), list(c.ct_fsam)), ([e['FPAM_H'], e['FPAM_V']], [e['FSAM_H'], e['FSAM_V']]), label + 'mask positions')
    verify(cal, '')
    for f, s in zip(ds.frames, s0):
        unchanged(S, f, s)
    S.scratch()
    cal.save(filedir='.', filename='c_CTP_CAL.fits')
    verify(data.CoreThroughputCalibration('c_CTP_CAL.fits'), 'stored: ')


def product(S, xy, ct=None, psf=None, fpam=None, fsam=None):
    n = len(xy)
    src = data.Dataset([image(S, tag='src', shape=(1, 1), dat=S.const(np.zeros((1, 1))), err=S.const(np.zeros((1, 1, 1))), dq=S.const(np.zeros((1, 1), dtype=np.uint16)))])
    ct = S.array('ct', (n,), .01, .99) if ct is None else ct
    tab = S.np.array([[p[0] for p in xy], [p[1] for p in xy], list(ct)])
    hl = [fits.ImageHDU(data=tab, name='CTEXCAM'), fits.ImageHDU(data=np.array([0., 0.]) if fpam is None else fpam, name='CTFPAM'),
          fits.ImageHDU(data=np.array([0., 0.]) if fsam is None else fsam, name='CTFSAM')]
    psf = S.array('psf', (n, 1, 2)) if psf is None else psf
    return data.CoreThroughputCalibration(psf, pri_hdr=hdr(), ext_hdr=hdr(EXTNAME='PSFCUBE', DATETIME='2027'), input_hdulist=hl, input_dataset=src,
                                          dq=S.const(np.zeros((n, 1, 2), dtype=np.uint16)))


def coron(S, star, fpam=(0., 0.), fsam=(0., 0.)):
    f = image(S, tag='cor', shape=(1, 1), ext=dict(STARLOCX=star[0], STARLOCY=star[1], FPAM_H=fpam[0], FPAM_V=fpam[1], FSAM_H=fsam[0], FSAM_V=fsam[1]))
    g = image(S, tag='cor2', shape=(1, 1), ext=dict(STARLOCX=99., STARLOCY=98., FPAM_H=97., FPAM_V=96., FSAM_H=95., FSAM_V=94.))
    return data.Dataset([f, g])


class MaskCal:
    def __init__(self, m):
        self.data = m


@harness('C10', quick=[dict()])
def mask_position(S):
    """The mask centre during the throughput observation is the star location shifted by the movement of the mask wheels since,
    turned into pixels by each wheel's own matrix."""
    star = [S.real(k, 0, 1023) for k in ('sx', 'sy')]
    v = {k: [S.real('%s%d' % (k, i), -1e4, 1e4) for i in range(2)] for k in ('cp', 'cs', 'p', 's')}
    M = S.array('M', (2, 2, 2), -1, 1)
    cal = product(S, [(0., 0.)], fpam=S.np.array(v['cp']), fsam=S.np.array(v['cs']), ct=[.5])
    p, s = cal.GetCTFPMPosition(coron(S, star, v['p'], v['s']), MaskCal(M.copy()))
    for got, k, c, d in ((p, 0, 'cp', 'p'), (s, 1, 'cs', 's')):
        for i in range(2):
            S.eq(got[i], star[i] + M[k, i, 0] * (v[c][0] - v[d][0]) + M[k, i, 1] * (v[c][1] - v[d][1]), 'position', tol=1e-6)


# positions of the mask wheels during the two observations, and what a micron of each moves on the detector
CTF, CTS, CF, CS = np.array([8., 4.]), np.array([1., 5.]), (6., 5.), (2., 9.)
WHEELS = np.array([[[1., .5], [-.25, 2.]], [[-2., .25], [1., .5]]])


def observed(S, centre):
    """a coronagraphic observation whose mask was at centre during the throughput observation"""
    move = WHEELS[0] @ (CTF - np.array(CF))
    return coron(S, tuple(float(c - m) for c, m in zip(centre, move)), CF, CS), MaskCal(WHEELS.copy())


def polar(r, deg):
    return (r * np.cos(np.radians(deg)), r * np.sin(np.radians(deg)))


# axis-aligned measurements: exact radii and azimuths
GRIDS = {'quarter': [polar(r, a) for r in (2., 4.) for a in (0., 45., 90.)], 'turned': [polar(r, a) for r in (3., 6., 9.) for a in (-30., 30.)],
         'axes': [(2., 0.), (4., 0.), (2., 2.), (4., 4.), (0., 2.), (0., 4.)],
         'gaps': [(2., 0.), (6., 0.), (4., 4.), (0., 8.), (0., 5.), (4., 3.)]}
OUT, IN = (30., 1.), (.5, .25)
TARGETS = {'quarter': [polar(3., 20.), polar(2.5, 70.), polar(3.5, 120.), polar(2., 0.), polar(4., 90.), OUT, IN],
           'turned': [polar(4., 0.), polar(7.5, 20.), polar(6., 200.), polar(9., 30.), OUT, IN],
           'axes': [(3., 1.), (1., 3.), (4., 0.), (4., 4.), (0., 4.), (0., 2.), (0., -3.), OUT, IN],
           'gaps': [(.25, 2.5), (0., 2.5), (7., .5), (4., 1.), (0., 8.), (0., 5.), (2., 4.), (4., 3.)]}


class Interp:
    """scipy's interpolation as fixed weights per point (they depend on the positions only)"""

    def __init__(self, pts, val):
        from scipy.interpolate import LinearNDInterpolator
        pts = np.array(np.asarray(pts).tolist(), dtype=float)
        self.f, self.val = LinearNDInterpolator(pts, np.eye(len(pts))), val

    def __call__(self, *xi):
        w = self.f(*[np.array(np.asarray(x).tolist(), dtype=float) for x in xi])
        o = self.val[:1].copy()
        import symnp.patch  # noqa
        out = [float('nan') if np.isnan(r).any() else sum(float(c) * v for c, v in zip(r, self.val)) for r in w]
        return np.array(out) if not len(out) else self.mk(out)


def weights(xy, tx, ty, logr):
    from scipy.interpolate import LinearNDInterpolator
    x, y = np.array([p[0] for p in xy]), np.array([p[1] for p in xy])
    r, a = np.sqrt(x ** 2 + y ** 2), np.arctan2(y, x)
    a0 = a.min()
    a = a - a0
    R, A = np.sqrt(tx ** 2 + ty ** 2), np.arctan2(ty, tx) - a0
    A = A if A == a.max() else A % a.max()
    if not r.min() <= R <= r.max():
        return None
    if logr:
        r, R = np.log10(r), np.log10(R)
    w = LinearNDInterpolator(np.c_[r, a], np.eye(len(xy)))(R, A)
    return w.reshape(-1)


@harness('C10', quick=[dict(grid='quarter'), dict(grid='turned'), dict(grid='axes'), dict(grid='gaps'), dict(grid='quarter', logr=True)], thorough=[dict(grid=g, m=3) for g in GRIDS],
         stubs=['scipy LinearNDInterpolator: its own weights for the positions, applied to the symbolic throughputs'])
def interpolate(S, grid='quarter', logr=False, m=2):
    """Throughput is interpolated in radius and azimuth from the measurements around the mask centre; each value comes with the
    position it belongs to, in the order asked for; positions outside the measured radii or area are left out; a position that
    was measured has the measured value."""
    tracking(S, False)
    S.setattr(data, 'LinearNDInterpolator', data.LinearNDInterpolator)
    off = S.choice('centre', [(0., 0.), (10.5, -3.25)])
    xy = GRIDS[grid]
    cal = product(S, [(p[0] + off[0], p[1] + off[1]) for p in xy], psf=S.const(np.zeros((len(xy), 1, 2))), fpam=CTF, fsam=CTS)
    ct = [cal.ct_excam[2, i] for i in range(len(xy))]
    if S.symbolic:
        class I(Interp):
            mk = staticmethod(lambda o: S.np.array(o))
        S.setattr(data, 'LinearNDInterpolator', I)
    ts = [S.choice('t%d' % i, TARGETS[grid]) for i in range(m)]
    form = S.choice('form', ['array', 'list'])
    args = [[t[k] for t in ts] for k in (0, 1)]
    if form == 'array':
        args = [np.array(a) for a in args]
    exact = [tuple(np.round(q, 9)) for q in xy]
    want = []
    gx, gy = cal.ct_excam[0, :] - off[0], cal.ct_excam[1, :] - off[1]
    for t in ts:
        w = weights([(float(a), float(b)) for a, b in zip(gx, gy)], t[0], t[1], logr)
        if w is None:
            continue
        if np.isnan(w).any():
            hit = [i for i in range(len(xy)) if float(gx[i]) == t[0] and float(gy[i]) == t[1]]
            if not hit:
                continue
            want.append((ct[hit[0]], t))
        else:
            want.append((sum(float(c) * v for c, v in zip(w, ct)), t))
    call = lambda: cal.InterpolateCT(args[0], args[1], *observed(S, off), logr=logr)
    if not want:
        S.raises(ValueError, call, 'no valid position is refused')
        return
    out = call()
    S.same(tuple(out.shape), (3, len(want)), 'one column per valid position')
    for j, (v, t) in enumerate(want):
        S.eq(out[1, j], t[0], 'x of the position')
        S.eq(out[2, j], t[1], 'y of the position')
        S.eq(out[0, j], v, 'throughput of the position', tol=1e-6)


@harness('C10', quick=[dict()])
def bounds(S):
    """Throughputs that are interpolated to less than 0 or more than 1 are refused."""
    tracking(S, False)
    xy = GRIDS['axes']
    v = S.real('v', -3, 3)
    S.assume(S.or_(v < -1e-6, v > 1 + 1e-6))
    k = S.choice('k', [0, 3])
    cal = product(S, xy, ct=[v if i == k else .5 for i in range(len(xy))], psf=S.const(np.zeros((len(xy), 1, 2))), fpam=CTF, fsam=CTS)
    if S.symbolic:
        class I(Interp):
            mk = staticmethod(lambda o: S.np.array(o))
        S.setattr(data, 'LinearNDInterpolator', I)
    x, y = np.array([xy[k][0], 3.]), np.array([xy[k][1], 1.5])
    o = S.choice('order', [1, -1])
    S.raises(ValueError, lambda: cal.InterpolateCT(x[::o], y[::o], *observed(S, (0., 0.))), 'refused')


RING = [polar(r, a) for r in (3., 5.) for a in (0., 90., 170., -170., -90.)]
PT = [polar(3., 10.), polar(3.2, 165.), polar(5., 100.), polar(4.7, -160.), polar(4.6, 80.), polar(3.27, 1.), polar(3., 45.), polar(5., -60.), (30., 0.), (1., 0.)]


def closest(psf, xy, t):
    rad = [np.hypot(*p) for p in xy]
    R = np.hypot(*t)
    if not min(rad) - 1e-12 <= R <= max(rad) + 1e-12:
        return None
    d = [round(10 * abs(R - r)) for r in rad]
    near = [i for i in range(len(xy)) if d[i] == min(d)]
    ang = [abs((np.degrees(np.arctan2(xy[i][1], xy[i][0]) - np.arctan2(t[1], t[0])) + 180) % 360 - 180) for i in near]
    bins = [round(a / np.degrees(.1 / R)) for a in ang]
    sel = [i for i, a in zip(near, bins) if a == min(bins)]
    return sum(psf[i] for i in sel) / len(sel)


def shifted(S, xy):
    cal = product(S, [(p[0] + 10., p[1] + 20.) for p in xy], ct=[.5] * len(xy), fpam=CTF, fsam=CTS)
    return cal, lambda ts: cal.GetPSF(np.array([t[0] for t in ts]), np.array([t[1] for t in ts]), *observed(S, (10., 20.)))


@harness('C10', quick=[dict()], thorough=[dict(m=3)])
def nearest(S, m=2):
    """The PSF for a position is the one measured at the nearest radius, among several at that radius the one at the smallest
    angular distance; half way between two it is their mean. Positions outside the measured radii
    are left out."""
    tracking(S, False)
    cal, call = shifted(S, RING)
    psf = cal.data.copy()
    ts = [S.choice('t%d' % i, PT) for i in range(m)]
    want = [(closest(psf, RING, t), t) for t in ts]
    want = [w for w in want if w[0] is not None]
    if not want:
        S.raises(ValueError, lambda: call(ts), 'no valid position is refused')
        return
    p, x, y = call(ts)
    S.same((len(p), len(x), len(y)), (len(want),) * 3, 'one PSF per valid position')
    for j, (v, t) in enumerate(want):
        S.eq(p[j].reshape(-1), v.reshape(-1), 'nearest PSF')
        S.same((float(x[j]), float(y[j])), t, 'its position')


@harness('C10', quick=[dict()])
def nearest_tenth(S):
    """Radii are told apart to a tenth of a pixel."""
    tracking(S, False)
    xy = [(3., 0.), (0., 3.4), (5., 0.)]
    cal, call = shifted(S, xy)
    psf = cal.data.copy()
    t = polar(3.35, 20.)
    p = call([t])[0]
    S.eq(p[0].reshape(-1), closest(psf, xy, t).reshape(-1), 'PSF at radius 3.4 for position (3.35, 20 deg) with PSFs at (3, 0 deg), (3.4, 90 deg)')


@harness('C10', quick=[dict()])
def nearest_wrap(S):
    """Angular distances are counted around the circle."""
    tracking(S, False)
    xy = [polar(3., 170.), polar(3., 90.), polar(5., 0.)]
    cal, call = shifted(S, xy)
    psf = cal.data.copy()
    t = polar(3., -170.)
    p = call([t])[0]
    S.eq(p[0].reshape(-1), closest(psf, xy, t).reshape(-1), 'PSF for azimuth -170 deg with PSFs of the same radius at 170 and 90 deg')


@harness('C10', quick=[dict()])
def radial(S):
    """The one-dimensional throughput at a separation is the one measured at the nearest separation from the mask centre."""
    xy = [(1., 0.), (0., 3.), (-6., 0.), (0., -10.)]
    cal = product(S, [(p[0] + 12.5, p[1] + 8.5) for p in xy], psf=S.const(np.zeros((4, 1, 2))))
    det = S.choice('detector offset', [None, (2., 5.)])
    f = image(S, tag='cor', shape=(1, 1), ext=dict(STARLOCX=12. - (det or (0, 0))[0], STARLOCY=8. - (det or (0, 0))[1]))
    if det:
        f.ext_hdr['DETPIX0X'], f.ext_hdr['DETPIX0Y'] = det
    seps = [S.real('s%d' % i, 0, 12) for i in range(2)]
    out = ctp.get_1d_ct(cal, f, seps)
    S.same(tuple(np.shape(out)), (2, 2), 'separation and throughput')
    for i, s in enumerate(seps):
        for b in (2., 4.5, 8.):
            S.assume(S.or_(s < b - 1e-6, s > b + 1e-6))
        S.eq(out[0][i], s, 'separation')
        c = cal.ct_excam[2]
        S.eq(out[1][i], S.ite(s < 2, c[0], S.ite(s < 4.5, c[1], S.ite(s < 8, c[2], c[3]))), 'throughput at the nearest separation')


@harness('C10', quick=[dict()])
def table(S):
    """A throughput map lists x, y and throughput of every valid position, for a given list or the full grid, and is stored in
    the file asked for."""
    seen = []
    val = [[S.real('c%d' % i, 0, 1) for i in range(2)], [S.real('x%d' % i) for i in range(2)], [S.real('y%d' % i) for i in range(2)]]

    class Cal:
        def InterpolateCT(self, x, y, ds, fp, logr=False):
            seen.append((list(x), list(y), ds, fp, logr))
            return S.np.array(val)
    given, logr, save = S.choice('given', [True, False]), S.choice('logr', [True, False]), S.choice('save', ['no', 'file', 'default'])
    S.scratch()
    S.setattr(corgidrp, 'default_cal_dir', '.')
    kw = dict(target_pix=np.array([[1., 2.], [3., 5.]])) if given else dict(x_range=[-1, 1], y_range=[0, 3], n_gridx=3, n_gridy=2)
    if save != 'no':
        kw['save'] = True
    if save == 'file':
        kw['filepath'] = 'map.csv'
    saved = []
    if S.symbolic:
        S.setattr(ctp.np, 'savetxt', lambda fn, a, **k: saved.append((fn, a)))
    out = ctp.CreateCTMap('ds', 'fp', Cal(), logr=logr, **kw)
    want = ([1., 2.], [3., 5.]) if given else ([-1., 0., 1.] * 2, [0.] * 3 + [3.] * 3)
    S.same(seen, [(want[0], want[1], 'ds', 'fp', logr)], 'all positions are interpolated')
    for i in range(2):
        S.eq(out[0][i], val[1][i], 'x')
        S.eq(out[1][i], val[2][i], 'y')
        S.eq(out[2][i], val[0][i], 'throughput')
    if not S.symbolic:
        saved = [(f, np.loadtxt(f, delimiter=',')) for f in ('map.csv', './ct_map.csv') if os.path.exists(f)]
    S.same([os.path.basename(f) for f, _ in saved], {'no': [], 'file': ['map.csv'], 'default': ['ct_map.csv']}[save], 'stored where asked')
    for _, a in saved:
        S.eq(a, out, 'stored map', tol=1e-9)
