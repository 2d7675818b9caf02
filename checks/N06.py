"""KLIP throughput: closest PSF, injection, annular noise and injection-recovery."""
import os
import warnings

import astropy.io.fits
import numpy as np

from symnp.reg import harness
from .common import *
from corgidrp import klip_fm


class CT:
    def __init__(self, xy, psfs):
        self.ct_excam, self.data = xy, psfs


@harness('N06', quick=[dict(n=3)], thorough=[dict(n=4)])
def closest(S, n=3):
    """The PSF model used for a position is the measured one closest to it (EXCAM positions count from the pixel edge)."""
    cx, cy = S.real('cx', 0, 100), S.real('cy', 0, 100)
    dx, dy = S.real('dx', -20, 20), S.choice('dy', [0., 3.5])
    px = [S.real('px%d' % i, -20, 20) for i in range(n)]
    py = [-1., 2., 5., 0.][:n]
    xy = S.np.array([[cx + .5 + p for p in px], [cy + .5 + q for q in py], [.5] * n])
    psf = S.array('psf', (n, 1, 2))
    d2 = [(p - dx) * (p - dx) + (q - dy) * (q - dy) for p, q in zip(px, py)]
    k = S.choice('closest', list(range(n)))
    S.assume(S.and_(*[d2[k] + .01 < d2[i] for i in range(n) if i != k]))
    got = klip_fm.get_closest_psf(CT(xy, psf.copy()), cx, cy, dx, dy)
    S.eq(got, psf[k], 'closest PSF')


@harness('N06', quick=[dict(), dict(shape=(2, 2))], stubs=['pyklip inject_planet: records what is injected where'])
def inject(S, shape=(1, 3)):
    """A copy of the frame gets the closest PSF, scaled to the peak asked for, at separation and position angle from the star
    (turned by the roll of the frame); the frame and the PSF models stay."""
    tracking(S, False)
    star = (S.real('sx', 20, 30), S.real('sy', 20, 30))
    roll, pa, sep = S.choice('roll', [0., 15., -30.]), S.choice('pa', [0., 90., 200.]), S.real('sep', 1, 10)
    t = np.radians(pa - roll)
    f = image(S, tag='f', shape=(2, 2), pri=dict(ROLL=roll), ext=dict(STARLOCX=star[0], STARLOCY=star[1]), err=S.const(np.zeros((1, 2, 2))))
    s = snap(f)
    psf = S.array('psf', (2,) + tuple(shape), 0, 5)
    k = S.choice('brightest', list(range(int(np.prod(shape)))))
    used = S.choice('used', [0, 1])
    pk = psf[used].reshape(-1)
    S.assume(pk[k] > 1)
    S.assume(S.and_(*[pk[i] < pk[k] - .01 for i in range(len(pk)) if i != k]))
    amp = S.real('amp', 1, 100)
    dx, dy = -sep * np.sin(t), sep * np.cos(t)
    far = np.array([0., 50.])
    xs = [star[0] + .5 + dx + (0 if i == used else 60.) for i in range(2)]
    xy = S.np.array([xs, [star[1] + .5 + dy] * 2, [.5, .6]])
    ct = CT(xy, psf.copy())
    seen = []

    def planet(frames, centers, models, wcs, r, pa_, thetas=None, **kw):
        seen.append((centers, models[0].copy(), r, thetas, pa_))
        frames[0][:] = frames[0] + 1.
    S.setattr(klip_fm, 'inject_planet', planet)
    out, model, cen = klip_fm.inject_psf(f, ct, amp, sep, pa)
    want = psf[used] * amp / pk[k]
    S.eq(model, want, 'PSF scaled to the amplitude', tol=1e-6)
    S.eq(cen[0], star[0] + dx, 'x of the injected PSF', tol=1e-6)
    S.eq(cen[1], star[1] + dy, 'y of the injected PSF', tol=1e-6)
    S.same(len(seen), 1, 'one injection')
    c, m, r, th, p_ = seen[0]
    S.eq(m, want, 'model injected', tol=1e-6)
    S.eq(c[0][0], star[0], 'centre of the injection')
    S.eq(c[0][1], star[1], 'centre of the injection')
    S.eq(r, sep, 'separation of the injection')
    S.check(abs((float(th[0]) - (pa - roll + 90) + 180) % 360 - 180) < 1e-6, 'angle of the injection')
    S.eq(out.data, s['data'] + 1., 'injected into the copy')
    unchanged(S, f, s)
    S.eq(ct.data, psf, 'PSF models unchanged')


@harness('N06', quick=[dict(kl=1), dict(kl=2)], thorough=[dict(kl=3)])
def noise(S, kl=1):
    """The noise at a separation is the standard deviation of the pixels strictly inside the annulus around the star, without
    the surroundings of known sources, for each KL mode (or the one asked for)."""
    tracking(S, False)
    shape = (kl, 4, 5)
    c = S.choice('star', [(2., 1.), (1.5, 2.25)])
    ext = dict(STARLOCX=c[0], STARLOCY=c[1])
    nanpix = S.choice('nan', [None, (0, 1, 1)])
    d = S.array('d', shape, -10, 10)
    if nanpix:
        d[nanpix] = float('nan')
    f = image(S, tag='f', shape=shape, dat=d, err=S.const(np.zeros((1,) + shape)), dq=S.const(np.zeros(shape, dtype=np.uint16)), ext=ext)
    s = snap(f)
    hw = .6
    cand = S.choice('cand', [[], [(4., 0.)], [(3., 270.), (4.5, 90.)]])
    seps = [1.1, 2.3]
    kw = {}
    idx = S.choice('klmode_index', [None, kl - 1])
    if idx is not None:
        kw['klmode_index'] = idx
    if cand:
        kw['cand_locs'] = cand
    out = klip_fm.measure_noise(f, seps, hw, **kw)
    modes = list(range(kl)) if idx is None else [idx]
    S.same(tuple(np.shape(out)), (2, kl) if idx is None else (2,), 'one value per separation and mode')
    for i, sp in enumerate(seps):
        pix = [(y, x) for y, x in np.ndindex(4, 5) if sp - hw < np.hypot(x - c[0], y - c[1]) < sp + hw]
        for cs, cp in cand:
            q = (c[0] - cs * np.sin(np.radians(cp)), c[1] + cs * np.cos(np.radians(cp)))
            pix = [(y, x) for y, x in pix if np.hypot(x - q[0], y - q[1]) > 5 * hw]
        for j, m in enumerate(modes):
            v = [s['data'][m, y, x] for y, x in pix if nanpix is None or (m, y, x) != nanpix]
            got = out[i] if idx is not None else out[i, m]
            if not v:
                S.check(S.isnan(got), 'no pixel left')
                continue
            mean = sum(v) / len(v)
            S.check(got >= 0, 'noise not negative')
            S.eq(got * got, sum((q - mean) * (q - mean) for q in v) / len(v), 'variance of the annulus', tol=1e-6)
    unchanged(S, f, s)


@harness('N06', quick=[dict(npa=1), dict(npa=2), dict(npa=2, given=False), dict(npa=2, order=(1, 0)), dict(npa=1, cand=True)],
         thorough=[dict(npa=3), dict(npa=3, kl=(1, 5, 9))],
         stubs=['measure_noise, inject_psf, PyKLIPDataset, klip_dataset, file reading, gaussfit2d: recorded injections and measured values'])
def throughput(S, npa=2, kl=(1, 4), given=True, order=(0, 1), cand=False):
    """For each KL mode and separation the throughput and width are the medians over the position angles of recovered over
    injected counts and of the recovered width, in the order of the separations asked for; every PSF is injected with the peak
    of the noise of its separation times the signal-to-noise asked for, into every frame, away from known sources."""
    warnings.simplefilter('ignore')
    tracking(S, False)
    nf = 2
    fs = [image(S, tag='f%d' % i, shape=(3, 3), dat=S.const(np.zeros((3, 3))), err=S.const(np.zeros((1, 3, 3))), dq=S.const(np.zeros((3, 3), dtype=np.uint16)), pri=dict(ROLL=15. * i),
                ext=dict(CFAMNAME='1F', PLTSCALE=21.8, LSAMNAME='NFOV', FPAMNAME='HLC12_C2R1', STARLOCX=20., STARLOCY=20.)) for i in range(nf)]
    ds = data.Dataset(fs)
    s0 = [snap(f) for f in ds.frames]
    seps = [[7., 14.][k] for k in order]
    pas = [10., 130., 250.][:npa]
    if not given:
        seps = list(np.arange(140 / 21.8, 450 / 21.8, 3. * 1.22 * 573.8e-9 / 2.36 * 206265. * 1000. / 21.8))
        pas = list(np.linspace(0, 360, npa + 1)[:-1])
    nz = {k: {sp: S.real('noise%d_%d' % (k, sp), .1, 5) for sp in seps} for k in range(len(kl))}
    st = dict(mode=-1, inj=[])

    def noise(frame, sps, hw, klmode_index=None, cand_locs=()):
        st['mode'] += 1
        S.same((klmode_index, [float(q) for q in sps]), (st['mode'], [float(q) for q in seps]), 'noise of the KL mode')
        return S.np.array([nz[klmode_index][sp] for sp in sps])

    psf = np.zeros((3, 3))
    psf[1, 1] = 1.

    def inject(frame, ct, amp, sep, pa):
        f = frame.copy()
        f.data[0, 0] = f.data[0, 0] + amp
        st['inj'].append((st['mode'], amp, sep, pa))
        return f, psf.copy(), [1., 1.]
    ran = []

    class PK:
        def __init__(self, dset, psflib_dataset=None):
            self.d, self._psflib = [f.data.copy() for f in dset.frames], psflib_dataset

    def klip(dset, **kw):
        ran.append((dset, kw))

    rng = np.random.default_rng(5)
    img = rng.normal(size=(41, 41))
    img[0] = np.nan
    hdrf = dict(PSFCENTX=20., PSFCENTY=20.)
    nv = len(kl) * 2 * npa
    post = [S.real('post%d' % i, .1, 9) for i in range(nv)]
    n = [0]
    cuts = []

    def fit(im, x, y, searchrad=5, guessfwhm=3, guesspeak=1, refinefit=True):
        k = n[0]
        n[0] += 1
        if k % 2 == 0:
            return 10., 2., x, y
        cuts.append(np.array(np.asarray(im).tolist(), dtype=float))
        return post[k // 2], 2. + .25 * (k // 2), x, y
    for nm, f in (('measure_noise', noise), ('inject_psf', inject), ('PyKLIPDataset', PK), ('klip_dataset', klip), ('gaussfit2d', fit)):
        S.setattr(klip_fm, nm, f)
    S.setattr(astropy.io.fits, 'getdata', lambda p, *a, **k: np.array([img]))
    S.setattr(astropy.io.fits, 'getheader', lambda p, *a, **k: hdrf)
    snr = S.choice('snr', [5, 8])
    par = dict(mode='RDI', annuli=2, subsections=3, movement=1, numbasis=list(kl), outdir='out')
    kw = dict(seps=np.array(seps), pas=np.array(pas)) if given else dict(n_pas=npa)
    if cand:
        kw['cand_locs'] = [(7., 10.)]

    out = klip_fm.meas_klip_thrupt(ds, 'ref', data.Dataset([fs[0].copy()]), 'ct', par, inject_snr=snr, num_processes=3, **kw)
    S.same(tuple(np.shape(out)), (1 + len(kl), 2, 2), 'shape')
    step = 360. / npa / 3
    want = []
    for i, sp in enumerate(seps):
        for pa in pas:
            if not (cand and sp == 7.):
                want.append((sp, (pa + i * step) % 360.))
    S.same(len(st['inj']), len(want) * nf * len(kl), 'injections')
    S.same(len(ran), len(kl), 'one reduction per KL mode')
    for k in range(len(kl)):
        mine = [q for q in st['inj'] if q[0] == k]
        for j, q in enumerate(mine):
            sp, pa = want[j % len(want)]
            S.same((float(q[2]), round(float(q[3]), 6)), (sp, round(pa, 6)), 'place of the injection')
            S.eq(q[1], nz[k][sp] * snr, 'peak of the injection')
        dset, kws = ran[k]
        S.same((kws['numbasis'], kws['annuli'], kws['subsections'], kws['movement'], kws['mode'], kws['psf_library'], kws['outputdir']), ([kl[k]], 2, 3, 1, 'RDI', 'ref', 'out'), 'reduction settings')
        for f in dset.d:
            S.eq(f[0, 0], sum(nz[k][sp] * snr for sp, _ in want), 'all injections in every frame')
        for i, sp in enumerate(seps):
            S.same((float(out[0, i, 0]), float(out[0, i, 1])), (sp, sp), 'separation')
            at = [j for j, w in enumerate(want) if w[0] == sp]
            if not at:
                S.check(S.isnan(out[1 + k, i, 0]), 'no measurement')
                continue
            v = [post[k * len(want) + j] * (2. + .25 * (k * len(want) + j)) ** 2 / 40. for j in at]
            w = [2. + .25 * (k * len(want) + j) for j in at]
            if len(v) == 3:
                lo = S.ite(v[0] < v[1], v[0], v[1])
                hi = S.ite(v[0] < v[1], v[1], v[0])
                m = S.ite(v[2] < lo, lo, S.ite(v[2] > hi, hi, v[2]))
            else:
                m = sum(v) / len(v)
            S.eq(out[1 + k, i, 0], m, 'throughput', tol=1e-6)
            S.eq(out[1 + k, i, 1], np.median(w), 'width', tol=1e-6)
    # cutouts around the injected places, background removed
    for j, cut in enumerate(cuts[:len(want)]):
        sp, pa = want[j]
        x, y = int(20 - sp * np.sin(np.radians(pa))), int(20 + sp * np.cos(np.radians(pa)))
        w = np.full((7, 7), np.nan)
        for a in range(7):
            for b in range(7):
                if 0 <= y - 3 + a < 41 and 0 <= x - 3 + b < 41:
                    w[a, b] = img[y - 3 + a, x - 3 + b]
        d = cut - w
        S.same((cut.shape, bool(np.all(np.isnan(cut) == np.isnan(w)))), ((7, 7), True), 'cutout around the injected place')
        S.check(bool(np.nanmax(d) - np.nanmin(d) < 1e-6), 'cutout is the reduced image minus a constant background')
    for f, s in zip(ds.frames, s0):
        unchanged(S, f, s)
