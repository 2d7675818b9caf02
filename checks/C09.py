"""Photometry, band averages and flux calibration factor."""
import types
import warnings

import astropy.io.fits as fits
import numpy as np
import scipy.integrate
from scipy.integrate import simpson as real_simpson

from symnp.reg import harness
from .common import *
from corgidrp import fluxcal

WAVE = np.array([100., 110., 130., 140., 170.])


def simpson(S):
    def f(y, x=None, **kw):
        y = list(y)
        x = np.array([float(v) for v in x])
        w = [float(real_simpson(row, x=x)) for row in np.eye(len(x))]
        return sum(a * b for a, b in zip(w, y))
    return f


def integ(S, y, x=WAVE):
    return simpson(S)(y, x=x)


def spectra(S):
    """replace the integration by its weights for the concrete wavelengths"""
    S.setattr(scipy.integrate, 'simpson', simpson(S))


@harness('C09', quick=[dict()], stubs=['scipy simpson: its own weights for the concrete wavelengths'])
def bands(S):
    """Band flux, effective and pivot wavelength, irradiance, colour correction and flux at a wavelength are what the
    photometric conventions say, for every filter curve and spectrum."""
    spectra(S)
    n = 3
    x = WAVE[:n]
    T, F, R = S.array('T', (n,), .1, 1), S.array('F', (n,), .1, 5), S.array('R', (n,), .1, 5)
    f = fluxcal.calculate_band_flux(T, F, x)
    den = integ(S, [T[i] * x[i] for i in range(n)], x)
    S.eq(f * den, integ(S, [T[i] * F[i] * x[i] for i in range(n)], x), 'photon-weighted mean flux', tol=1e-6)
    S.eq(fluxcal.calculate_band_irradiance(T, F, x), integ(S, [T[i] * F[i] for i in range(n)], x), 'irradiance', tol=1e-6)
    e = fluxcal.calculate_effective_lambda(T, F, x)
    S.eq(e * integ(S, [T[i] * F[i] * x[i] for i in range(n)], x), integ(S, [T[i] * F[i] * x[i] ** 2 for i in range(n)], x), 'effective wavelength', tol=1e-6)
    p = fluxcal.calculate_pivot_lambda(T, x)
    S.check(p >= 0, 'pivot wavelength positive')
    S.eq(p * p * integ(S, [T[i] / x[i] for i in range(n)], x), den, 'pivot wavelength', tol=1e-6)
    w = S.choice('w', [100., 104., 110., 125., 130.])
    at = lambda s: s[0] + (s[1] - s[0]) * (w - 100.) / 10. if w <= 110 else s[1] + (s[2] - s[1]) * (w - 110.) / 20.
    S.eq(fluxcal.calculate_flux_ref(x, F, w), at(F), 'flux at a wavelength', tol=1e-9)
    k = fluxcal.compute_color_cor(T, x, R, w, F)
    S.eq(k * integ(S, [T[i] * R[i] * x[i] for i in range(n)], x) * at(F), integ(S, [T[i] * F[i] * x[i] for i in range(n)], x) * at(R), 'colour correction', tol=1e-6)


@harness('C09', quick=[dict()], thorough=[dict(n=8)], stubs=['reading of the spectrum file'])
def spectrum(S, n=6):
    """A spectrum is read onto the wavelengths of the filter: linear between its samples inside the band."""
    w = np.array([50., 90., 100., 115., 150., 165., 170., 300.][:n])
    fl = S.array('fl', (n,), 0, 9)

    class H:
        def __getitem__(self, k):
            S.same(k, 1, 'extension')
            return types.SimpleNamespace(data=dict(WAVELENGTH=w.copy(), FLUX=fl.copy()))

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass
    S.setattr(fits, 'open', lambda p, *a, **k: H())
    g = np.array([100., 107.5, 115., 140., 150.])
    out = fluxcal.read_cal_spec('star.fits', g)
    for i, v in enumerate(g):
        k = max(j for j in range(len(w)) if w[j] <= v)
        t = 0. if w[k] == v else (v - w[k]) / (w[k + 1] - w[k])
        want = fl[k] if t == 0 else fl[k] * (1 - t) + fl[k + 1] * t
        S.eq(out[i], want, 'flux at %g' % v, tol=1e-9)


NAMES = ['1F', '2F', '3F', '4F', '1A', '1B', '1C', '2A', '2B', '2C', '3A', '3B', '3C', '3D', '3E', '3G', '4A', '4B', '4C']


@harness('C09', quick=[dict()])
def filters(S):
    """Every filter has its own transmission curve; unknown ones are refused."""
    f = S.choice('filter', NAMES + ['5X'])
    im = image(S, shape=(1, 1), ext=dict(CFAMNAME=f))
    if f == '5X':
        S.raises(ValueError, lambda: fluxcal.get_filter_name(im), 'unknown filter')
        return
    p = fluxcal.get_filter_name(im)
    S.check('_%s_' % f in os.path.basename(p) and os.path.exists(p), 'curve of the filter')
    if f in ('1F', '3D'):
        w, t = fluxcal.read_filter_curve(p)
        rows = [l.split(',') for l in open(p).read().splitlines()[4:] if l.strip()]
        S.same(len(w), len(rows), 'rows of the curve')
        S.check(all(abs(float(a) - 10 * float(r[0])) < 1e-6 and abs(float(b) - float(r[1]) / 100) < 1e-9 for a, b, r in zip(w, t, rows)), 'nm to AA, percent to fraction')


class Aper:
    """CircularAperture with its own (concrete) pixel weights"""
    S = None
    made = None

    def __init__(self, pos, r):
        self.pos, self.r = (float(pos[0]), float(pos[1])), r

    def do_photometry(self, d, error=None, mask=None, method='exact', subpixels=5):
        from photutils.aperture import CircularAperture
        S = Aper.S
        Aper.made.append((self.pos, self.r, method, subpixels))
        sh = tuple(np.shape(d))
        w = CircularAperture(self.pos, self.r).to_mask(method=method, subpixels=subpixels).to_image(sh)
        good = lambda p: w[p] != 0 and (mask is None or not S.truth(mask[p]))
        g = [p for p in np.ndindex(*sh) if good(p)]
        fl = sum((d[p] * float(w[p]) for p in g), 0.)
        er = sum((error[p] * error[p] * float(w[p]) for p in g), 0.)
        return S.np.array([fl]), S.np.sqrt(S.np.array([er]))


def optics(S, back=None):
    """stand-ins for photutils' background and apertures; returns the record of their use"""
    rec = types.SimpleNamespace(bkg=[], aper=[], fit=[], cen=[])
    Aper.S, Aper.made = S, rec.aper

    class LB:
        def __init__(self, a, b, *k, **kw):
            self.r = (a, b)

        def __call__(self, d, x, y, mask=None):
            rec.bkg.append((self.r, float(x), float(y), d.copy(), None if mask is None else np.array(mask).tolist()))
            return back
    S.setattr(fluxcal, 'LocalBackground', LB)
    S.setattr(fluxcal, 'CircularAperture', Aper)
    return rec


def frame(S, tag='', shape=(3, 4), sym=((1, 1), (1, 2), (2, 1)), bad=(0, 1), fits_=(0, 20), err=(0, 2), pri=None, ext=None, level='L3', flag=4):
    """image with a few symbolic pixels and (total) errors, a second error layer and one flagged pixel"""
    d = np.arange(np.prod(shape), dtype=float).reshape(shape) / 4.
    e = np.full(shape, .5)
    d, e = (S.np.array(d), S.np.array(e)) if S.symbolic else (d, e)
    for i, p in enumerate(sym):
        d[p] = S.real('d%s%d' % (tag, i), *fits_)
        if i < 2:
            e[p] = S.real('e%s%d' % (tag, i), *err)
    q = np.zeros(shape, dtype=np.uint16)
    if bad:
        q[bad] = flag
    return image(S, tag=tag or '0', shape=shape, dat=d, err=S.np.stack([e, S.const(np.full(shape, 3.))]), dq=S.const(q), pri=pri, ext=ext, data_level=level)


@harness('C09', quick=[dict(), dict(back=True), dict(back=True, wcs=True)],
         stubs=['photutils apertures: their own weights at the concrete position; LocalBackground and centroid: recorded'])
def aperture(S, back=False, wcs=False):
    """Aperture flux is the sum of the unflagged (background-subtracted) pixels weighted by their overlap, over the encircled
    energy fraction; its error adds in quadrature; the image stays."""
    tracking(S, False)
    b = S.real('back', -2, 2) if back else None
    rec = optics(S, b)
    ext = {}
    if wcs:
        ext = dict(CRPIX1=2.25, CRPIX2=1.5, CRVAL1=10., CRVAL2=20., CTYPE1='RA---TAN', CTYPE2='DEC--TAN', CDELT1=1e-5, CDELT2=1e-5)
    f = frame(S, pri=dict(RA=10., DEC=20.), ext=ext, flag=S.choice('flag', [4, 32768]))
    pos = (2.25, 1.5) if wcs else S.choice('pos', [(1.25, 1.5), (1., 1.)])
    guess = S.choice('guess', [None, (1, 2)])
    roi = S.choice('roi', [5, 3])

    def cen(d, r, g=None):
        rec.cen.append((r, g))
        return pos
    S.setattr(fluxcal, 'centroid_with_roi', cen)
    fee = S.choice('fee', [1., .5])
    method, sub = S.choice('method', [('subpixel', 5), ('subpixel', 3), ('exact', 5), ('center', 5)])
    s = snap(f)
    kw = dict(centering_method='wcs') if wcs else dict(centering_initial_guess=guess, centroid_roi_radius=roi)
    if back:
        kw.update(background_sub=True, r_in=2, r_out=4)
    out = fluxcal.aper_phot(f, 1.2, frac_enc_energy=fee, method=method, subpixels=sub, **kw)
    S.same(len(out), 3 if back else 2, 'values returned')
    if not wcs:
        S.same(rec.cen, [(roi, guess)], 'centroid')
    from photutils.aperture import CircularAperture
    w = CircularAperture(pos, 1.2).to_mask(method=method, subpixels=sub).to_image((3, 4))
    S.check(len(rec.aper) == 1 and abs(rec.aper[0][0][0] - pos[0]) < 1e-5 and abs(rec.aper[0][0][1] - pos[1]) < 1e-5, 'position of the aperture')
    g = [p for p in np.ndindex(3, 4) if w[p] and p != (0, 1)]
    S.eq(out[0] * fee, sum((s['data'][p] - (b if back else 0)) * float(w[p]) for p in g), 'flux', tol=1e-3)
    S.check(out[1] >= 0, 'error not negative')
    S.eq(out[1] * out[1] * fee * fee, sum(s['err'][(0,) + p] ** 2 * float(w[p]) for p in g), 'error', tol=1e-3)
    if back:
        S.eq(out[2], b, 'background')
        r, x, y, d, m = rec.bkg[0]
        S.same((r, [[bool(v) for v in q] for q in m]), ((2, 4), [[p == (0, 1) for p in zip([i] * 4, range(4))] for i in range(3)]), 'annulus')
        S.check(abs(x - pos[0]) < 1e-5 and abs(y - pos[1]) < 1e-5, 'place of the background')
        S.eq(d, s['data'], 'background of the image itself')
    unchanged(S, f, s)


@harness('C09', quick=[dict()])
def refused(S):
    """Encircled energy fractions outside (0, 1] and unknown centring are refused."""
    tracking(S, False)
    f = frame(S, sym=())
    optics(S, 0.)
    S.setattr(fluxcal, 'centroid_with_roi', lambda *a, **k: (1., 1.))
    x = S.real('fee', -2, 3)
    S.assume(S.or_(x <= 0, x > 1))
    S.raises(ValueError, lambda: fluxcal.aper_phot(f, 1., frac_enc_energy=x), 'fraction')
    S.raises(ValueError, lambda: fluxcal.aper_phot(f, 1., centering_method='zz'), 'aperture centring')
    S.raises(ValueError, lambda: fluxcal.phot_by_gauss2d_fit(f, 1., centering_method='zz'), 'fit centring')


@harness('C09', quick=[dict(), dict(back=True), dict(shape=(4, 4)), dict(shape=(5, 5))],
         stubs=['photutils fit_2dgaussian, LocalBackground and centroid: recorded'])
def gauss(S, back=False, shape=(3, 4)):
    """The Gaussian fit gets the (background-subtracted) image, its flags and nonzero errors, starts at the centroid, in an odd
    window of the size of the image; its flux and error are returned; the image stays."""
    shape = tuple(shape)
    tracking(S, False)
    b = S.real('back', -2, 2) if back else None
    rec = optics(S, b)
    f = frame(S, shape=shape, flag=S.choice('flag', [4, 32768]))
    pos = S.choice('pos', [(1.25, 1.5), (2., 1.)])
    S.setattr(fluxcal, 'centroid_with_roi', lambda d, r, g=None: pos)
    fl, fe = S.real('flux', 1, 50), S.real('fluxerr', 0, 5)
    fshape = S.choice('fit_shape', [None, 3])

    def fit(d, xypos=None, fwhm=None, fit_shape=None, mask=None, error=None, **kw):
        rec.fit.append((d.copy(), [float(v) for v in np.ravel(xypos)], fwhm, fit_shape, np.array(np.asarray(mask).tolist()), error.copy()))
        return types.SimpleNamespace(results=dict(flux_fit=S.np.array([fl]), flux_err=S.np.array([fe])))
    S.setattr(fluxcal, 'fit_2dgaussian', fit)
    s = snap(f)
    kw = dict(background_sub=True, r_in=2, r_out=4) if back else {}
    out = fluxcal.phot_by_gauss2d_fit(f, 3., fit_shape=fshape, **kw)
    S.same(len(out), 3 if back else 2, 'values returned')
    S.eq(out[0], fl, 'flux')
    S.eq(out[1], fe, 'error')
    d, xy, fw, fs, m, e = rec.fit[0]
    S.eq(d, s['data'] - (b if back else 0), 'image fitted')
    S.same((xy, fw), (list(pos), 3.), 'start of the fit')
    S.same([tuple(int(v) for v in p) for p in np.argwhere(m)], [(0, 1)], 'flags')
    S.check(S.and_(*[S.and_(e[p] > 0, S.implies(s['err'][(0,) + p] > 1e-6, e[p] == s['err'][(0,) + p])) for p in np.ndindex(*shape)]), 'errors, never zero')
    if fshape:
        S.same(fs, 3, 'window asked for')
    else:
        S.check(all(v % 2 == 1 for v in np.ravel(fs)), 'odd window')
    if back:
        S.eq(out[2], b, 'background')
    unchanged(S, f, s)


@harness('C09', quick=[dict(), dict(gauss=True, n=2), dict(irr=True, n=2), dict(gauss=True, irr=True, back=True), dict(back=True)], thorough=[dict(n=3, back=True)],
         stubs=['aper_phot and phot_by_gauss2d_fit (checked on their own), spectra and filter curves: symbolic values'])
def factor(S, n=1, gauss=False, irr=False, back=False):
    """The flux calibration factor is the band flux (or irradiance) of the star over its measured counts, with the relative error
    of the counts; it names its inputs and unit and leaves them as they are."""
    tracking(S, False)
    spectra(S)
    filt = S.choice('filter', ['1F', '3D'])
    fs = [frame(S, tag='%d' % i, pri=dict(TARGET=['Vega', 'HD1'][i % 2], VISITID='v%d' % i), ext=dict(CFAMNAME=filt, FPAMNAME='HOLE', FSAMNAME='OPEN', BUNIT='electron/s')) for i in range(n)]
    ds = data.Dataset(fs)
    single = n == 1 and S.choice('single', [True, False])
    T, F = S.array('T', (3,), .1, 1), S.array('F', (3,), .1, 5)
    x = WAVE[:3]
    S.setattr(fluxcal, 'get_calspec_file', lambda nm: '/spec/' + nm)
    S.setattr(fluxcal, 'read_filter_curve', lambda p: (x.copy(), T.copy()) if '_%s_' % filt in p else None)
    S.setattr(fluxcal, 'read_cal_spec', lambda p, w: F.copy() if p == '/spec/Vega' else None)
    counts, cerr, b = S.real('counts', 1, 50), S.real('cerr', 0, 5), S.real('back', -2, 2)
    seen = []
    given = S.choice('given', [False, True]) or back

    def phot(im, *a, **kw):
        seen.append((im.pri_hdr['VISITID'], kw.get('background_sub', False), kw.get('r_in')))
        return (counts, cerr, b) if kw.get('background_sub') else (counts, cerr)
    S.setattr(fluxcal, 'phot_by_gauss2d_fit' if gauss else 'aper_phot', phot)
    S.setattr(fluxcal, 'aper_phot' if gauss else 'phot_by_gauss2d_fit', None)
    s0 = [snap(f) for f in ds.frames]
    kw = {}
    if given:
        kw['phot_kwargs'] = dict(r_in=7, r_out=9, background_sub=back, **(dict(fwhm=3) if gauss else dict(encircled_radius=4)))
    fn = fluxcal.calibrate_fluxcal_gauss2d if gauss else fluxcal.calibrate_fluxcal_aper
    out = fn(ds.frames[0] if single else ds, 'irr' if irr else 'flux', **kw)
    S.same(seen, [('v0', back, 7 if given else 5)], 'photometry of the star')
    fx = integ(S, [T[i] * F[i] for i in range(3)], x) if irr else None
    num, den = (fx, 1.) if irr else (integ(S, [T[i] * F[i] * x[i] for i in range(3)], x), integ(S, [T[i] * x[i] for i in range(3)], x))
    S.eq(out.fluxcal_fac * counts * den, num, 'factor', tol=1e-6)
    S.eq(out.fluxcal_err * counts, out.fluxcal_fac * cerr, 'relative error', tol=1e-6)
    S.eq(out.data[0, 0], out.fluxcal_fac, 'stored factor')
    S.eq(out.err[0, 0, 0], out.fluxcal_err, 'stored error')
    S.same((out.ext_hdr['DATATYPE'], out.ext_hdr['DATALVL'], out.filter, out.nd_filter), ('FluxcalFactor', 'CAL', filt, 'ND0'), 'product')
    S.same(out.ext_hdr['BUNIT'], 'erg/(s * cm^2%s)/(electron/s)' % ('' if irr else ' * AA'), 'unit')
    S.same(out.err_hdr['BUNIT'], out.ext_hdr['BUNIT'], 'unit of the error')
    S.same([out.ext_hdr['FILE%d' % i] for i in range(n)], [f.filename for f in ds.frames], 'inputs')
    S.same(out.ext_hdr['DRPNFILE'], n, 'number of inputs')
    if back:
        S.eq(out.ext_hdr['LOCBACK'], b, 'background recorded')
    for i, f in enumerate(ds.frames):
        unchanged(S, f, s0[i])
    S.raises(ValueError, lambda: fn(ds, 'both'), 'unknown flux kind')
    attached(S, ds, 'input stays attached')
