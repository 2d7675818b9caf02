"""Neutral density filter calibration."""
import types
import warnings

import numpy as np
import scipy.integrate

from symnp.reg import harness
from .common import *
from .C09 import WAVE, integ, simpson
from corgidrp import fluxcal
from corgidrp import nd_filter_calibration as nd


def setup(S, n, who):
    """frames (bright ones behind the filter), symbolic counts, factors and spectra"""
    tracking(S, False)
    warnings.simplefilter('ignore')
    S.setattr(scipy.integrate, 'simpson', simpson(S))
    x = WAVE[:3]
    w = types.SimpleNamespace(x=x, T=S.array('T', (3,), .1, 1), spec={t: S.array('spec%s' % t, (3,), .1, 5) for t in ('Vega', 'HD1')})
    w.irr = lambda t: integ(S, [w.T[i] * w.spec[t][i] for i in range(3)], x)
    S.setattr(fluxcal, 'get_calspec_file', lambda nm: '/spec/' + nm)
    S.setattr(fluxcal, 'read_filter_curve', lambda p: (x.copy(), w.T.copy()) if '_3C_' in p else None)
    S.setattr(fluxcal, 'read_cal_spec', lambda p, q: w.spec[p.replace('/spec/', '')].copy())
    w.counts = [S.real('counts%d' % i, 1, 50) for i in range(n)]
    w.fac = [S.real('fac%d' % i, .1, 5) for i in range(n)]
    w.cen = [(10. + 3 * i, 40. - 2 * i * i) for i in range(n)]
    w.seen = []
    ident = lambda im: int(im.ext_hdr['NUM'])
    byd = lambda d: [i for i in range(n) if S.truth(d[0, 0] == 100. + i)][0]
    S.setattr(nd, 'centroid_with_roi', lambda d, *a, **k: w.cen[byd(d)])

    def phot(kind):
        def f(im, **kw):
            w.seen.append((kind, ident(im), sorted(kw.items())))
            return w.counts[ident(im)], 1.
        return f

    def cal(kind):
        def f(im, flux_or_irr='flux', phot_kwargs=None):
            w.seen.append((kind + ' factor', ident(im), flux_or_irr, sorted(phot_kwargs.items())))
            return types.SimpleNamespace(fluxcal_fac=w.fac[ident(im)])
        return f
    S.setattr(fluxcal, 'aper_phot', phot('Aperture'))
    S.setattr(fluxcal, 'phot_by_gauss2d_fit', phot('Gaussian'))
    S.setattr(fluxcal, 'calibrate_fluxcal_aper', cal('Aperture'))
    S.setattr(fluxcal, 'calibrate_fluxcal_gauss2d', cal('Gaussian'))
    fs = []
    for i, (filt, target) in enumerate(who):
        d = np.zeros((1, 2))
        d[0, 0] = 100. + i
        fs.append(image(S, tag='%d' % i, shape=(1, 2), dat=S.const(d), err=S.const(np.zeros((1, 1, 2))), dq=S.const(np.zeros((1, 2), dtype=np.uint16)),
                        pri=dict(TARGET=target), ext=dict(FPAMNAME=filt, FPAM_H=5. + i if not filt.startswith('ND') else 7.5, FPAM_V=3., CFAMNAME='3C', NUM=i, BUNIT='electron/s')))
    w.ds = data.Dataset(fs)
    return w


WHO = dict(one=[('ND225', 'Vega'), ('ND225', 'Vega'), ('HOLE', 'HD1')],
           two=[('ND225', 'Vega'), ('HOLE', 'HD1'), ('ND225', 'HD1'), ('ND225', 'Vega')],
           dims=[('HOLE', 'HD1'), ('ND475', 'Vega'), ('HOLE', 'Vega')],
           bright=[('ND225', 'Vega'), ('ND225', 'HD1')],
           flags=[('ND225', 'Vega'), ('ND225', 'HD1'), ('ND225', 'Vega'), ('HOLE', 'HD1')])


@harness('C12', quick=[dict(who='one'), dict(who='two', gauss=True), dict(who='dims'), dict(who='bright', given=True), dict(who='flags')],
         thorough=[dict(who='flags', gauss=True, given=True), dict(who='two', given=True)],
         stubs=['photometry and flux calibration of single frames (C09), centroids (C11), spectra and filter curves: recorded and symbolic values'])
def calibrate(S, who='one', gauss=False, given=False):
    """Every frame behind the filter contributes -log10 of its counts over the expected ones (band irradiance of its target over the
    calibration factor: the one given, or the mean over the frames without filter) at its own centroid; a large scatter of any
    target raises the flag; headers name filter, position and inputs; the inputs stay."""
    who = WHO[who]
    n = len(who)
    w = setup(S, n, who)
    s0 = [snap(f) for f in w.ds.frames]
    frames = list(w.ds.frames)
    meth = 'Gaussian' if gauss else 'Aperture'
    thr = .2
    fc = S.real('given', .1, 5)
    kw = dict(fluxcal_factor=fc) if given else {}
    out = nd.create_nd_filter_cal(w.ds, thr, meth, 'irr', dict(r_in=7), **kw)
    bright = [i for i in range(n) if who[i][0].startswith('ND')]
    dim = [i for i in range(n) if i not in bright]
    S.same(sorted(s for s in w.seen if s[0] == meth), [(meth, i, [('r_in', 7)]) for i in bright], 'photometry of the frames behind the filter')
    S.same(sorted(s for s in w.seen if s[0] != meth), [] if given else [(meth + ' factor', i, 'irr', [('r_in', 7)]) for i in dim], 'calibration by the others')
    cal = fc if given else sum(w.fac[i] for i in dim) / len(dim)
    S.same(tuple(np.shape(out.data)), (len(bright), 3), 'one row per frame')
    od = {}
    for r in range(len(bright)):
        i = [k for k in bright if S.truth(out.data[r, 1] == w.cen[k][0])]
        S.check(len(i) == 1 and i[0] not in od, 'each centroid once')
        i = i[0]
        S.eq(out.data[r, 2], w.cen[i][1], 'row of the centroid')
        od[i] = out.data[r, 0]
        S.eq(od[i], -S.np.log10(w.counts[i] / (w.irr(who[i][1]) / cal)), 'optical density', tol=1e-6)
    S.eq(out.od_values, out.data[:, 0], 'density column')
    h = out.ext_hdr
    big = []
    for t in sorted({who[i][1] for i in bright}):
        v = [od[i] for i in bright if who[i][1] == t]
        m = sum(v) / len(v)
        big.append(sum((q - m) * (q - m) for q in v) / len(v))
    flag = S.truth(h['ODFLAG'])
    if flag:
        S.check(S.or_(*[b >= thr * thr - 1e-9 for b in big]), 'flag only for a large scatter')
    else:
        S.check(S.and_(*[b < thr * thr + 1e-9 for b in big]), 'flag of a large scatter of any target')
    S.same((h['FPAMNAME'], h['FPAM_H'], h['FPAM_V'], h['DATALVL'], h['DATATYPE']), (who[bright[0]][0], 7.5, 3., 'CAL', 'NDFilterSweetSpotDataset'), 'header')
    S.same(sorted(h['FILE%d' % k] for k in range(h['DRPNFILE'])), sorted(f.filename for f in frames), 'inputs')
    for i, f in enumerate(frames):
        unchanged(S, f, s0[i])


@harness('C12', quick=[dict()])
def consistent(S):
    """Frames of one target whose filter wheel or colour filter is elsewhere are refused."""
    w = setup(S, 2, [('ND225', 'Vega')] * 2)
    f = w.ds.frames[1]
    k = S.choice('what', ['FPAMNAME', 'FPAM_H', 'FPAM_V', 'CFAMNAME'])
    if k.startswith('FPAM_'):
        d = S.real('d', -4, 4)
        S.assume(S.or_(d > 1.2 + 1e-6, d < -1.2 - 1e-6))
        f.ext_hdr[k] = f.ext_hdr[k] + d
    else:
        f.ext_hdr[k] = 'ND475' if k == 'FPAMNAME' else '1F'
    S.raises(ValueError, lambda: nd.process_bright_target('Vega', w.ds, 1., .1, phot_kwargs={}), 'inconsistent frames')


@harness('C12', quick=[dict()], stubs=['scipy griddata: linear interpolation on the triangle'])
def located(S):
    """The density at a place is interpolated there; for a moved filter at the place moved through the matrix."""
    tracking(S, False)
    pts = np.array([[0., 0.], [10., 0.], [0., 10.]])
    v = S.array('od', (3,), 1, 5)

    def grid(points, values, xi, method='linear'):
        p = np.array(np.asarray(points).tolist(), dtype=float)
        S.same((p.tolist(), method), (pts.tolist(), 'linear'), 'places')
        a, b = (xi[0], xi[1]) if isinstance(xi, tuple) else (xi[0, 0], xi[0, 1])
        return values[0] + (values[1] - values[0]) * a / 10. + (values[2] - values[0]) * b / 10.
    S.setattr(nd, 'griddata', grid)
    t = S.np.zeros((3, 3)) if S.symbolic else np.zeros((3, 3))
    t[:, 0] = v
    t[:, 1:] = pts
    at = lambda x, y: v[0] + (v[1] - v[0]) * x / 10. + (v[2] - v[0]) * y / 10.
    m = np.array([[.5, .25], [-.5, 1.]])
    S.setattr(nd, 'load_transformation_matrix_from_fits', lambda p: m)
    S.setattr(nd, 'centroid_with_roi', lambda d, *a, **k: (2., 3.))
    h0, v0, h1, v1 = [S.choice(k, [1., 3.]) for k in ('h0', 'v0', 'h1', 'v1')]
    f = image(S, shape=(1, 1), ext=dict(FPAM_H=h1, FPAM_V=v1))
    got = nd.calculate_od_at_new_location(f, 'm.fits', types.SimpleNamespace(data=t, ext_hdr=dict(FPAM_H=h0, FPAM_V=v0)))
    o = m @ np.array([h1 - h0, v1 - v0])
    S.eq(got, at(2. + o[0], 3. + o[1]), 'density at the moved place', tol=1e-9)
