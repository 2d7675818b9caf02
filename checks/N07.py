"""Flux ratio noise curve."""
import types
import warnings

import numpy as np

from symnp.reg import harness
from .common import *
from corgidrp import l4_to_tda


def lin(xs, ys, x):
    """linear inter-/extrapolation through the points, any order of xs"""
    o = sorted(range(len(xs)), key=lambda k: xs[k])
    xs, ys = [float(xs[k]) for k in o], [ys[k] for k in o]
    k = 0
    while k < len(xs) - 2 and x > xs[k + 1]:
        k += 1
    t = (float(x) - xs[k]) / (xs[k + 1] - xs[k])
    return ys[k] * (1 - t) + ys[k + 1] * t


class Interp:
    def __init__(self, S):
        self.S = S

    def __call__(self, x, y, kind='linear', fill_value=None, **kw):
        S = self.S

        def f(q):
            q = [float(v) for v in np.asarray(q, dtype=object).ravel().tolist()]
            S.check(all(min(x) - 1e-9 <= v <= max(x) + 1e-9 for v in q) or (isinstance(fill_value, str) and fill_value == 'extrapolate'), 'extrapolated on request')
            if np.ndim(y) == 1:
                return S.np.array([lin(list(x), list(y), v) for v in q])
            return S.np.array([[lin(list(x), list(r), v) for v in q] for r in y])
        return f


SEPS = [[4., 6., 9.], [5., 8., 10.]]
CTS = [[3., 7., 11.], [4., 5.5, 12.]]
PEAKS = [(3, 8), (9, 2), (6, 5)]


@harness('N07', quick=[dict(n=1), dict(n=2), dict(n=2, asked=True), dict(n=2, loc=True), dict(n=1, kl=3, even=True)],
         thorough=[dict(n=3), dict(n=3, asked=True, kl=2, loc=True)],
         stubs=['measure_noise (see N06), photutils fit_2dgaussian, scipy interp1d: recorded values and linear interpolation'])
def curve(S, n=2, kl=2, asked=False, loc=False, even=False):
    """For every frame, separation and KL mode: flux of a Gaussian with the annular noise as peak and the interpolated width, over
    the flux of that frame's star (through the filter at the star's place), over KLIP and core throughput there; separations and
    annulus widths are those of the frame unless asked for."""
    warnings.simplefilter('ignore')
    tracking(S, False)
    frames, stars, kt, kf, ct, noises, amps = [], [], [], [], [], [], []
    shape = (12, 12) if even else (13, 11)
    for i in range(n):
        f = image(S, tag='f%d' % i, shape=(kl, 2, 2), dq=S.const(np.zeros((kl, 2, 2), dtype=np.uint16)),
                  pri=dict(), ext=dict(PLTSCALE=20. + i, STARLOCX=1., STARLOCY=1.))
        a, b, c = S.array('kt%d' % i, (kl, 3), .5, 1), S.array('kf%d' % i, (kl, 3), 1, 4), S.array('ct%d' % i, (3,), .1, .5)
        th = S.np.zeros((1 + kl, 3, 2)) if S.symbolic else np.zeros((1 + kl, 3, 2))
        th[0, :, 0] = th[0, :, 1] = np.array(SEPS[i % 2])
        th[1:, :, 0] = a
        th[1:, :, 1] = b
        f.add_extension_hdu('KL_THRU', data=th, header=hdr())
        t2 = S.np.zeros((2, 3)) if S.symbolic else np.zeros((2, 3))
        t2[0] = np.array(CTS[i % 2])
        t2[1] = c
        f.add_extension_hdu('CT_THRU', data=t2, header=hdr())
        frames.append(f)
        kt.append(a), kf.append(b), ct.append(c)
        yy, xx = np.mgrid[:shape[0], :shape[1]]
        r, q = PEAKS[i]
        star = 50 * np.exp(-((xx - q) ** 2 + (yy - r) ** 2) / 2 / 1.5 ** 2)
        dqs = np.zeros(shape, dtype=np.uint16)
        dqs[0, i] = 4
        stars.append(image(S, tag='s%d' % i, shape=shape, dat=S.const(star), err=S.const(np.zeros((1,) + shape)), dq=S.const(dqs)))
        noises.append(S.array('noise%d' % i, (3, kl), .1, 5))
        amps.append(S.real('flux%d' % i, 10, 100))
    ds, sd = data.Dataset(frames), data.Dataset(stars)
    s0, s1 = [snap(f) for f in ds.frames], [snap(f) for f in sd.frames]
    od = [S.real('od%d' % i, .1, 1) for i in range(n)]
    place = [(PEAKS[i][1] + .25, PEAKS[i][0] - .5) for i in range(n)]
    seen, fits_ = [], []

    def noise(frame, seps, hw, **kw):
        k = [j for j in range(n) if frame.ext_hdr['PLTSCALE'] == 20. + j][0]
        seen.append((k, [float(v) for v in seps], float(hw)))
        return noises[k].copy()

    def fit(d, xypos=None, fit_shape=None, fwhm=None, fix_fwhm=True, mask=None, error=None, **kw):
        d = np.array(np.asarray(d).tolist(), dtype=float)
        m = np.array(np.asarray(mask).tolist(), dtype=bool)
        k = [j for j in range(n) if np.unravel_index(d.argmax(), d.shape) == PEAKS[j]][0]
        fits_.append((k, [float(v) for v in np.ravel(xypos)], tuple(fit_shape), d.shape, [tuple(int(q) for q in p) for p in np.argwhere(m)], fix_fwhm))
        # a second source further away is found too, listed first
        return types.SimpleNamespace(results=dict(x_fit=np.array([place[k][0] + 4., place[k][0]]), y_fit=np.array([place[k][1], place[k][1]]),
                                                  flux_fit=S.np.array([amps[k] * 0 + 7., amps[k]]), flux_err=np.array([1., 1.])))

    class ND:
        def interpolate_od(self, x, y, method='nearest'):
            k = [j for j in range(n) if (abs(float(x) - place[j][0]) + abs(float(y) - place[j][1])) < 1e-6]
            return od[k[0]] if k else 1000.
    S.setattr(l4_to_tda, 'measure_noise', noise)
    S.setattr(l4_to_tda, 'fit_2dgaussian', fit)
    S.setattr(l4_to_tda, 'interp1d', Interp(S))
    kw = {}
    if asked:
        kw = dict(requested_separations=np.array([4.5, 6., 10.5]), halfwidth=S.choice('hw', [.5, 1.5, None]))
    if loc:
        kw['unocculted_star_loc'] = np.array([[p[0] for p in PEAKS[:n]], [p[1] for p in PEAKS[:n]]])
    out = l4_to_tda.compute_flux_ratio_noise(ds, ND(), sd, **kw)
    S.same(len(out), n, 'frames')
    S.same(sorted(k for k, *_ in seen), list(range(n)), 'noise of every frame')
    S.same(sorted(k for k, *_ in fits_), list(range(n)), 'star of every frame')
    for k, sp, hw in seen:
        S.same(sp, [4.5, 6., 10.5] if asked else SEPS[k % 2], 'separations of the noise')
        mins = min(min(np.diff(SEPS[k % 2])), min(np.diff(CTS[k % 2])))
        S.same(hw, kw['halfwidth'] if asked and kw['halfwidth'] else mins / 2, 'halfwidth of the annulus')
    odd = tuple(v - 1 + v % 2 for v in shape)
    for k, xy, fs, dsh, m, fx in fits_:
        S.same(xy, [float(PEAKS[k][1]), float(PEAKS[k][0])], 'start of the fit (x, y)')
        S.same((fs, dsh), (odd, odd), 'odd window of the fit')
        S.same(m, [(0, k)], 'flagged pixels are left out of the fit')
    for i in range(n):
        want = [4.5, 6., 10.5] if asked else SEPS[i % 2]
        f = out.frames[i]
        c = f.hdu_list['FRN_CRV'].data
        S.same(tuple(np.shape(c)), (2 + kl, 3), 'shape of the curve')
        for j, sp in enumerate(want):
            S.eq(c[0, j], sp, 'separation in pixels')
            S.eq(c[1, j], sp * (20. + i), 'separation in milli-arcseconds', tol=1e-9)
            for m in range(kl):
                w = lin(SEPS[i % 2], list(kf[i][m]), sp)
                tp = lin(SEPS[i % 2], list(kt[i][m]), sp) * lin(CTS[i % 2], list(ct[i]), sp)
                S.eq(c[2 + m, j] * (od[i] * amps[i]) * tp, noises[i][j, m] * w * w * (np.pi / (4 * np.log(2))), 'flux ratio noise', tol=1e-6)
        S.check('noise curve' in history(f.ext_hdr), 'history')
        S.same(f.hdu_list['FRN_CRV'].header['BUNIT'], 'Fp/Fs', 'unit')
        S.eq(f.data, s0[i]['data'], 'data')
        S.eq(f.err, s0[i]['err'], 'errors')
    for i, f in enumerate(ds.frames):
        unchanged(S, f, s0[i])
    for i, f in enumerate(sd.frames):
        unchanged(S, f, s1[i], 'star frame')


@harness('N07', quick=[dict()])
def refused(S):
    """Different numbers of frames and stars outside the image are refused."""
    tracking(S, False)
    mk = lambda m: data.Dataset([image(S, tag='%d' % i, shape=(2, 2), err=S.const(np.zeros((1, 2, 2)))) for i in range(m)])
    a, b = S.choice('n', [(1, 2), (2, 1), (3, 2)])
    S.raises(ValueError, lambda: l4_to_tda.compute_flux_ratio_noise(mk(a), None, mk(b)), 'frames without a star')
