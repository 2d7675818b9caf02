"""Source detection and companion measurement."""
import types
import warnings

import numpy as np
import pyklip.fakes

from symnp.reg import harness
from .common import *
from corgidrp import find_source as fs
from corgidrp import fluxcal, l4_to_tda, measure_companions as mc


@harness('C14', quick=[dict(), dict(own=True)], thorough=[dict(k=4)], stubs=['S/N map (pyklip cross-correlation and annular statistics): the image left over so far; removal of a found source (scalesub)'])
def find(S, k=3, own=False):
    """All places whose signal-to-noise exceeds the threshold are listed in the header, strongest first, each once, with their
    signal-to-noise, row and column; the image stays. Detection ends whatever the values, also at the threshold itself."""
    warnings.simplefilter('ignore')
    tracking(S, False)
    places = [(2, 7), (5, 3), (8, 8), (8, 2)][:k]
    sh = (11, 12)
    d = S.np.zeros(sh) if S.symbolic else np.zeros(sh)
    v = [S.real('sn%d' % i, 1, 12) for i in range(k)]
    for p, x in zip(places, v):
        d[p] = x
    thr = 5.
    S.assume(S.and_(*[v[i] != v[j] for i in range(k) for j in range(i)]))
    im = image(S, shape=sh, dat=d, err=S.const(np.zeros((1,) + sh)), dq=S.const(np.zeros(sh, dtype=np.uint16)))
    s = snap(im)
    masks, calls = [], [0]

    def snmap(im_, mask, image_without_planet=None, **kw):
        calls[0] += 1
        if calls[0] > k + 3:
            S.check(False, 'detection comes to an end')
            raise RuntimeError('endless')
        m = np.array(np.asarray(mask).tolist(), dtype=float)
        masks.append((m.shape, sorted(map(tuple, np.argwhere(m != 0).tolist())), image_without_planet))
        return im_ + 0.
    S.setattr(l4_to_tda, 'make_snmap', snmap)

    def subtract(img, xy, psf_, fwhm):
        S.same((tuple(np.shape(psf_)), fwhm), (yy.shape, fw), 'PSF subtracted')
        img[int(xy[0]), int(xy[1])] = float('nan')
        return img
    S.setattr(l4_to_tda, 'psf_scalesub', subtract)
    fw = 1.5
    yy, xx = np.mgrid[-2:3, -2:3] if not own else np.mgrid[-1:2, -1:2]
    psf = np.exp(-(xx ** 2 + yy ** 2) / 2.) if own else None
    try:
        out = l4_to_tda.find_source(im, psf=psf, fwhm=fw, nsigma_threshold=thr)
    except RuntimeError as e:
        if str(e) != 'endless':
            raise
        return
    want = sorted((i, j) for i in range(yy.shape[0]) for j in range(yy.shape[1]) if np.hypot(yy[i, j], xx[i, j]) <= fw / 2)
    S.check(all(m[0] == yy.shape and m[1] == want for m in masks), 'aperture of the size of half the width, centred')
    keys = [q for q in out.ext_hdr if q.startswith('SNYX')]
    found = []
    for i, q in enumerate(keys):
        S.same(q, 'SNYX%03d' % i, 'keyword')
        a, y, x = out.ext_hdr[q].split(',')
        found.append((S.number(a), (int(y), int(x))))
    S.check(all(p in places for _, p in found) and len({p for _, p in found}) == len(found), 'sources at places of signal, each once')
    listed = {p for _, p in found}
    S.check(S.and_(*[(v[i] > thr) if places[i] in listed else (v[i] <= thr) for i in range(k)]), 'exactly the sources above the threshold')
    for (a, spec), p in found:
        i = places.index(p)
        S.check(S.and_(a - v[i] <= .0501, v[i] - a <= .0501), 'signal-to-noise of the source')
        S.check(spec in (None, '5.1f'), 'format')
    S.check(S.and_(*[found[i][0][0] >= found[i + 1][0][0] for i in range(len(found) - 1)]), 'strongest first')
    for q in keys:
        del out.ext_hdr[q]
    hsame(S, hdict(out.ext_hdr), s['ext'], 'rest of the header', ignore=('DRPCTIME',))
    S.eq(out.data, s['data'], 'data')
    unchanged(S, im, s)


@harness('C14', quick=[dict(), dict(at='corner'), dict(at='edge')])
def scalesub(S, at='middle'):
    """A found source is removed: its PSF, scaled to the median ratio of image and PSF, is subtracted around it, the core is
    masked; everything else stays. Sources near the border are removed too."""
    warnings.simplefilter('ignore')
    sh = (6, 7)
    p = dict(middle=(3, 3), corner=(0, 6), edge=(2, 0))[at]
    d = np.arange(42, dtype=float).reshape(sh) / 8
    d = S.np.array(d) if S.symbolic else d
    q = S.choice('where', [(0, 1), (1, 0)] if at != 'corner' else [(1, 0), (1, -1)])
    d[p[0] + q[0], p[1] + q[1]] = S.real('v', -20, 20)
    yy, xx = np.mgrid[-1:2, -1:2]
    psf = .5 ** (yy ** 2 + xx ** 2)
    d0 = d.copy()
    out = fs.psf_scalesub(d, p, psf.copy(), .9)
    win = [(i, j) for i in range(p[0] - 1, p[0] + 2) for j in range(p[1] - 1, p[1] + 2) if 0 <= i < 6 and 0 <= j < 7]
    r = [d0[i, j] / psf[i - p[0] + 1, j - p[1] + 1] for i, j in win]
    m = S.np.median(S.np.array(r)) if S.symbolic else np.median(r)
    for i, j in np.ndindex(*sh):
        if (i, j) == p:
            S.check(S.isnan(out[i, j]), 'core masked')
        elif (i, j) in win:
            S.eq(out[i, j], d0[i, j] - m * psf[i - p[0] + 1, j - p[1] + 1], 'PSF subtracted', tol=1e-9)
        else:
            S.eq(out[i, j], d0[i, j], 'rest of the image')


@harness('C14', quick=[dict(n=1), dict(n=3)])
def parse(S, n=2):
    """Positions are read from the header entries of the detections: signal-to-noise, row, column."""
    h = hdr(DATALVL='L4', SNRX='1,2,3')
    ys, xs = [S.choice('y%d' % i, [0, 17, 512]) for i in range(n)], [S.choice('x%d' % i, [3, 1023]) for i in range(n)]
    for i in range(n):
        h['SNYX%03d' % i] = '%5.1f,%4d,%4d' % (5.5 + i, ys[i], xs[i])
    h['SNYX900'] = '7.0'
    S.same([(c['id'], c['x'], c['y']) for c in mc.parse_companions(h)], [('SNYX%03d' % i, float(xs[i]), float(ys[i])) for i in range(n)], 'positions')


@harness('C14', quick=[dict()])
def recentre(S):
    """After a crop the position of a companion relative to the star stays; the signal-to-noise too; others are not touched."""
    tracking(S, False)
    ox, oy, nx, ny = [S.int(k, 0, 600) for k in ('ox', 'oy', 'nx', 'ny')]
    y, x = S.choice('y', [0, 522]), S.choice('x', [502, 31])
    f = image(S, shape=(1, 1), ext=dict(SNYX001='  5.0,%4d,%4d' % (y, x), SNYX002='  7.0,   1,   2'))
    out = mc.update_companion_location_in_cropped_image(f, 'SNYX001', (ox, oy), (nx, ny))
    a, b, c = [S.number(q) for q in out.ext_hdr['SNYX001'].split(',')]
    S.same(float(a[0]), 5., 'signal-to-noise')
    S.eq(b[0], y - oy + ny, 'row')
    S.eq(c[0], x - ox + nx, 'column')
    S.check(b[1] in (None, '4d') and c[1] in (None, '4d'), 'format')
    S.same(out.ext_hdr['SNYX002'], '  7.0,   1,   2', 'other companion')
    S.raises(KeyError, lambda: mc.update_companion_location_in_cropped_image(f, 'SNYX009', (0, 0), (0, 0)), 'unknown companion')


@harness('C14', quick=[dict()])
def single(S):
    """One frame of a KL cube comes with its own errors, flags and throughput tables, and can be copied; the cube stays."""
    tracking(S, False)
    f = image(S, shape=(2, 2, 2))
    for nm in ('KL_THRU', 'OTHER', 'CT_THRU'):
        f.add_extension_hdu(nm, data=S.array(nm, (2,), 0, 1), header=hdr())
    s = snap(f)
    k = S.choice('k', [0, 1])
    out = mc.extract_single_frame(f, k)
    S.eq(out.data, s['data'][k], 'data')
    S.eq(out.err, s['err'][:1, k], 'error')
    S.eq(out.dq, s['dq'][k], 'flags')
    c = out.copy()
    for o in (out, c):
        for nm in ('KL_THRU', 'CT_THRU'):
            S.eq(o.hdu_list[nm].data, f.hdu_list[nm].data, nm)
        S.check('OTHER' not in [q.name for q in o.hdu_list], 'only the throughputs')
    S.check('KL_THRU' in out.hdu_names and 'OTHER' not in out.hdu_names, 'names of the extensions')
    out.ext_hdr['MARK'] = 1
    unchanged(S, f, s)


class Rows:
    """stand-in for astropy's Table"""

    def __init__(self, rows=None, names=None):
        self.rows, self.names = list(rows), list(names)

    def col(self, n):
        return [r[self.names.index(n)] for r in self.rows]


@harness('C14', quick=[dict(), dict(n=2), dict(nd=True), dict(fm='None'), dict(n=2, fm='None', gauss=True), dict(cands=True), dict(zp=True)],
         thorough=[dict(n=3, nd=True), dict(n=2, cands=True, zp=True)],
         stubs=['Gaussian fits, photometry (C09), magnitude of the host (N08), nearest PSF (C10): recorded values; astropy Table'])
def measure(S, n=1, nd=False, fm='L4', gauss=False, cands=False, zp=False):
    """Each companion's flux ratio is its peak (or counts) over what the host star would show at its place (the PSF measured
    nearest to it, scaled by host over unocculted PSF), corrected for the KLIP throughput interpolated at its separation and KL
    mode; its magnitude follows from the host's (or the zero point). Inputs stay."""
    warnings.simplefilter('ignore')
    tracking(S, False)
    sh = (4, 5)
    host = np.zeros((6, 6))
    host[2, 3] = 9.
    hf = image(S, tag='h', shape=(6, 6), dat=S.const(host), err=S.const(np.zeros((1, 6, 6))), dq=S.const(np.zeros((6, 6), dtype=np.uint16)), pri=dict(TARGET='Vega'), ext=dict(CFAMNAME='1F'))
    nk = 2
    cube = np.zeros((nk, 40, 50))
    cube[0] += 100.
    ps = image(S, tag='p', shape=cube.shape, dat=S.const(cube), err=S.const(np.zeros((1,) + cube.shape)), dq=S.const(np.zeros(cube.shape, dtype=np.uint16)),
               ext=dict(STARLOCX=20., STARLOCY=15.))
    at = [(20., 21.), (29., 15.), (17., 11.)][:n]          # (x, y)
    if not cands:
        for i, (x, y) in enumerate(at):
            ps.ext_hdr['SNYX%03d' % i] = '%5.1f,%4d,%4d' % (9. - i, y, x)
    kw = dict(cand_locs=[(np.hypot(x - 20, y - 15), np.degrees(np.arctan2(-(x - 20), y - 15)) % 360) for x, y in at]) if cands else {}
    seps = np.array([3., 8., 10.])
    thr, wid = S.array('thr', (nk, 3), .4, 1), S.array('wid', (nk, 3), 1, 4)
    kt = S.np.zeros((1 + nk, 3, 2)) if S.symbolic else np.zeros((1 + nk, 3, 2))
    kt[0, :, 0] = kt[0, :, 1] = seps
    kt[1:, :, 0] = thr
    kt[1:, :, 1] = wid
    ps.add_extension_hdu('KL_THRU', data=kt, header=hdr())
    mode = S.choice('mode', [-1, 0])
    if mode == 0:
        kw['kl_mode_idx'] = 0
    s0, s1 = snap(hf), snap(ps)
    psfs = np.zeros((3,) + sh)
    for i in range(3):
        psfs[i, 1 + i % 2, 2] = 2. + i
    psfs[:, 0, 0] = .5
    best = S.choice('unocculted', [0, 1, 2])
    ctv = [.3, .3, .3]
    ctv[best] = .6
    hp, cp = S.real('hostpeak', 5, 20), S.real('ctpeak', 1, 5)
    hw, cw = S.choice('hostwidth', [2., 3.]), 2.5
    cpk = [S.real('peak%d' % i, .1, 5) for i in range(n)]
    od = S.real('od', .1, 1)
    asked = []

    class CT:
        ct_excam = np.array([[1., 2., 3.], [4., 5., 6.], ctv])
        data = psfs.copy()

        def GetPSF(self, dx, dy, ds, fp):
            asked.append((float(dx), float(dy), fp))
            i = [j for j, (x, y) in enumerate(at) if abs(x - 20 - float(dx)) + abs(y - 15 - float(dy)) < 1e-6][0]
            return psfs[i][None].copy(), None, None
    off = (.25, -.5)

    def fit(img, x, y, searchrad=5, guessfwhm=3, guesspeak=1, refinefit=True):
        shp = tuple(np.shape(img))
        if shp == (6, 6):
            S.same((int(x), int(y)), (3, 2), 'start at the host star')
            return hp, hw, 3.25, 2.5
        if shp == sh:
            vals = [(i, j) for i, j in np.ndindex(*sh) if psfs[best][i, j] == max(psfs[best].ravel())]
            if not asked:
                S.same((int(y), int(x)), vals[0], 'start at the unocculted PSF')
                S.eq(img, psfs[best], 'unocculted PSF')
                return cp, cw, float(x), float(y)
            return img[int(y), int(x)], 2., float(x), float(y)
        S.same(shp, (40, 50), 'frame of the companion')
        S.eq(img[0, 0], 100. if mode == 0 else 0., 'KL mode')
        i = [j for j, (a, b) in enumerate(at) if abs(a - float(x)) + abs(b - float(y)) < 1e-6][0]
        return cpk[i], 2., float(x) + off[0], float(y) + off[1]
    S.setattr(pyklip.fakes, 'gaussfit2d', fit)
    S.setattr(mc, 'Table', Rows)
    counts = [S.real('counts%d' % i, .1, 5) for i in range(n)]
    seen = []

    def phot(im, centering_initial_guess=None, **k):
        seen.append(sorted(k))
        if centering_initial_guess is None:
            m = im.data[1, 2] + im.data[2, 2]
            return m, 1., 0.
        S.same(tuple(np.shape(im.data)), (40, 50), 'frame of the companion')
        S.same((np.shape(im.dq), np.shape(im.err)), ((40, 50), (1, 40, 50)), 'flags and errors of the companion')
        S.eq(im.data[0, 0], 100. if mode == 0 else 0., 'KL mode')
        i = at.index(tuple(centering_initial_guess))
        return counts[i], 1., 0.
    S.setattr(fluxcal, 'phot_by_gauss2d_fit' if gauss else 'aper_phot', phot)
    S.setattr(fluxcal, 'aper_phot' if gauss else 'phot_by_gauss2d_fit', None)
    mag = S.real('mag', -2, 9)
    S.setattr(l4_to_tda, 'determine_app_mag', lambda im, t, **k: [types.SimpleNamespace(ext_hdr={'APP_MAG': mag})] if t == 'Vega' and im is hf else None)

    class ND:
        def interpolate_od(self, x, y, method='nearest'):
            return od if (float(x), float(y)) == (3.25, 2.5) else 1e9
    if zp:
        kw.update(host_star_in_calspec=False, fluxcal_factor=types.SimpleNamespace(ext_hdr=dict(ZP=mag)))
    if gauss:
        kw['phot_method'] = 'gauss2d'
    out = mc.measure_companions(hf, ps, CT(), 'fp', nd_cal=ND() if nd else None, thrp_corr=fm, verbose=False, **kw)
    S.same(len(out.rows), n, 'one row per companion')
    S.same(out.col('id'), list(range(n)) if cands else ['SNYX%03d' % i for i in range(n)], 'names')
    h = hp / od if nd else hp
    scale = h * hw ** 2 / (cp * cw ** 2)
    for i, (x, y) in enumerate(at):
        S.check(abs(float(out.col('x')[i]) - x) + abs(float(out.col('y')[i]) - y) < 1e-6, 'place')
        S.check(abs(asked[i][0] - (x - 20)) + abs(asked[i][1] - (y - 15)) < 1e-6 and asked[i][2] == 'fp', 'PSF at the place relative to the star')
        here = scale * (2. + i)
        c, r, m = out.col('measured companion counts')[i], out.col('counts_ratio')[i], out.col('companion estimated mag')[i]
        if fm == 'L4':
            sp = float(np.hypot(x + off[0] - 20, y + off[1] - 15))
            row = thr[nk - 1] if mode == -1 else thr[0]
            k = 0 if sp <= 8 else 1
            t = min(1., (sp - seps[k]) / (seps[k + 1] - seps[k]))
            tp = row[k] * (1 - t) + row[k + 1] * t
            S.eq(r * tp * here, cpk[i], 'flux ratio', tol=1e-6)
            S.eq(c, cpk[i] * (np.pi * 4 / 4 / np.log(2)), 'counts', tol=1e-6)
        else:
            S.eq(r * here, counts[i], 'flux ratio', tol=1e-6)
            S.eq(c, counts[i], 'counts')
        arg = c if zp else r
        S.eq(m, mag - 2.5 * S.np.log10(arg), 'magnitude', tol=1e-6)
    unchanged(S, hf, s0, 'host star')
    unchanged(S, ps, s1, 'image')


@harness('C14', quick=[dict(mode=-1), dict(mode=0), dict(mode=1, ref=True)], stubs=['PSF injection (N06) and PSF subtraction (N10): what they are given is recorded'])
def forward(S, mode=0, ref=False):
    """Forward modelling puts the scaled host PSF, at its peak, at the asked place into every frame, subtracts the PSF with the
    settings asked for, and returns the throughput measured nearest to that place, the image and the companions of the cropped
    frame for the KL mode asked for; frames stay as they are."""
    tracking(S, False)
    from corgidrp import data, klip_fm, l3_to_l4
    ds = dataset(S, 2, shape=(2, 2))
    s = [snap(f) for f in ds]
    psf = image(S, tag='psf', shape=(2, 2), lo=1, hi=9)
    sep, pa = S.real('sep', 2, 12), S.real('pa', 0, 360)
    refs = dataset(S, 1, shape=(2, 2), tag='r') if ref else None
    calls, injected = [], []

    def inject(frame, ct, amp, sp, th):
        calls.append((frame.filename, ct, amp, sp, th))
        out = frame.copy()
        out.data = frame.data + 1000. * len(calls)
        return out, None, None
    S.setattr(klip_fm, 'inject_psf', inject)
    kl = S.array('kl', (3, 1, 2), 0, 5)
    seps = np.array([3., 6., 11.])
    kt = S.np.zeros((4, 3, 2)) if S.symbolic else np.zeros((4, 3, 2))
    kt[0, :, 0] = kt[0, :, 1] = seps
    thr = S.array('thr', (3, 3), .2, 1)
    kt[1:, :, 0] = thr
    kt[1:, :, 1] = 50.
    res = image(S, tag='o', dat=kl, err=S.const(np.zeros((1, 3, 1, 2))), dq=S.const(np.zeros((3, 1, 2), dtype=np.uint16)))
    res.ext_hdr['SNYX000'] = '  9.0, 520, 505'
    res.add_extension_hdu('KL_THRU', data=kt, header=hdr())
    res.add_extension_hdu('CT_THRU', data=np.zeros((2, 3)), header=hdr())
    got = {}

    def subtract(input_dataset=None, ct_calibration=None, reference_star_dataset=None, **k):
        injected.extend(f.data.copy() for f in input_dataset)
        got.update(k, ct=ct_calibration, refs=reference_star_dataset)
        return [res]
    S.setattr(l3_to_l4, 'do_psf_subtraction', subtract)
    kw = dict(mode='RDI', numbasis=[1, 4, 7], annuli=2, movement=3) if ref else {}
    if mode != -1:
        kw['kl_mode_idx'] = mode
    tp, _, im = mc.forward_model_psf(ds, refs, 'ct', psf, sep, pa, **kw)
    top = S.np.max(psf.data)
    S.same(len(calls), 2, 'one PSF per frame')
    for i, c in enumerate(calls):
        S.same((c[0], c[1]), (ds[i].filename, 'ct'), 'frame and calibration')
        S.eq(c[2], top, 'peak of the scaled host')
        S.eq(c[3], sep, 'separation')
        S.eq(c[4], pa, 'angle')
        S.eq(injected[i], s[i]['data'] + 1000. * (i + 1), 'injected frame')
    S.same((got['ct'], got['refs'] is refs), ('ct', True), 'calibration and references')
    S.same((got['mode'], list(got['numbasis']), got['annuli'], got['movement']), ('RDI', [1, 4, 7], 2, 3) if ref else ('ADI', [1, 2], 1, 1), 'settings')
    row = thr[mode]
    near = S.ite(sep < 4.5, row[0], S.ite(sep < 8.5, row[1], row[2]))
    S.check(S.implies(S.and_(sep != 4.5, sep != 8.5), tp == near), 'throughput of the KL mode at the nearest separation')
    S.eq(im.data, kl[mode], 'image of the KL mode')
    S.same([p.strip() for p in im.ext_hdr['SNYX000'].split(',')], ['9.0', '58', '43'], 'companion in the cropped frame')
    for f, q in zip(ds, s):
        unchanged(S, f, q)
