"""PSF subtraction: the frames, references and settings given to KLIP, and the product made of its result."""
import os
import warnings

import astropy.io.fits as fits
import numpy as np
import pyklip.klip
import pyklip.parallelized
import pyklip.rdi

from symnp.reg import harness
from .common import *
from corgidrp import l3_to_l4

SCALE = 21.8 / 3600e3
DEVICE = dict(CTYPE1='RA---TAN', CTYPE2='DEC--TAN', CRVAL1=0., CRVAL2=0., CRPIX1=1., CRPIX2=1.)


def turned(roll):
    t = np.radians(roll)
    return dict(CD1_1=-np.cos(t) * SCALE, CD1_2=np.sin(t) * SCALE, CD2_1=np.sin(t) * SCALE, CD2_2=np.cos(t) * SCALE, **DEVICE)


def frames(S, n, tag, shape, ref=0, roll=0., sym=True, nan=False, dq=True, pri=None, ext=None):
    fs = []
    for i in range(n):
        p = dict(ROLL=roll + 13. * i, PSFREF=ref, VISITID='V%s%d' % (tag, i))
        p.update(pri or {})
        x, y = (S.real('sx%s%d' % (tag, i), 0, 3), S.real('sy%s%d' % (tag, i), 0, 3)) if sym else (2. + i, 3. - i)
        e = dict(CFAMNAME='1F', PLTSCALE=21.8, STARLOCX=x, STARLOCY=y, **turned(roll + 13. * i))
        e.update(ext or {})
        f = image(S, tag='%s%d' % (tag, i), shape=shape, nan=nan, pri=p, ext=e, filename='%s%d_L3_.fits' % (tag, i), err=S.const(np.ones((1,) + shape)),
                  dq=None if dq else S.const(np.zeros(shape, dtype=np.uint16)), data_level='L3')
        f.ext_hdr['HISTORY'] = 'made %s%d' % (tag, i)
        fs.append(f)
    return fs


class Lib:
    """in place of the PSF library"""
    def __init__(self, imgs, center, names, **kw):
        self.imgs, self.center, self.names, self.kw, self.prepared = np.array(imgs), center, list(names), kw, None

    def prepare_library(self, d):
        self.prepared = d


def recenter(S, seen):
    """in place of align_and_scale: records where the star was and where it goes; the image it returns is known"""
    def f(img, new_center, old_center=None, **kw):
        seen.append((np.array(img), tuple(new_center), tuple(old_center)))
        return img * 2 + len(seen)
    return f


def same_nan(S, got, want, bad, label):
    """got equals want where not bad and is not a number where bad"""
    for p in np.ndindex(*np.shape(want)):
        nn = S.or_(bad[p], S.isnan(want[p]))
        S.check(S.or_(S.and_(nn, S.isnan(got[p])), S.and_(S.not_(nn), S.not_(S.isnan(got[p])), S.ite(nn, 0., got[p]) == S.ite(nn, 0., want[p]))), label)


@harness('N10', quick=[dict(n=1, nref=0), dict(n=2, nref=1), dict(n=1, nref=2), dict(n=2, nref=1, cube=True)], thorough=[dict(n=4, nref=3), dict(n=2, nref=2, cube=True)],
         stubs=['align_and_scale: a known image; PSFLibrary: records its content'])
def reading(S, n=2, nref=1, cube=False, shape=(4, 5)):
    """Every science frame enters with its own data moved from its own star position to the centre, its own roll angle, wavelength and
    name; the library holds the recentred references followed by the recentred science frames; the input stays."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    shape = (2,) + shape if cube else shape
    sci = data.Dataset(frames(S, n, 's', shape, dq=False))
    ref = data.Dataset(frames(S, nref, 'r', shape, ref=1, roll=50., dq=False)) if nref else None
    fs = list(sci.frames) + (list(ref.frames) if ref else [])
    s0 = [snap(f) for f in fs]
    seen = []
    S.setattr(pyklip.klip, 'align_and_scale', recenter(S, seen))
    S.setattr(pyklip.rdi, 'PSFLibrary', Lib)
    out = data.PyKLIPDataset(sci, psflib_dataset=ref)
    each = 2 if cube else 1
    c = ((shape[-1] - 1) / 2., (shape[-2] - 1) / 2.)
    ns, nr = n * each, nref * each
    S.same(len(seen), ns + nr, 'every image recentred once')
    allf = [(s, k) for s in s0 for k in range(each)]
    for (s, k), (im, new, old) in zip(allf, seen):
        e = dict(s['ext'])
        S.eq(im, s['data'][k] if cube else s['data'], 'image recentred')
        S.eq(old[0], e['STARLOCX'], 'x of the star')
        S.eq(old[1], e['STARLOCY'], 'y of the star')
        S.same(tuple(float(q) for q in new), c, 'new place of the star')
    moved = [im * 2 + (i + 1) for i, (im, _, _) in enumerate(seen)]
    S.same(np.shape(out.input), (ns,) + tuple(shape[-2:]), 'shape')
    for i in range(ns):
        s, k = allf[i]
        S.eq(out.input[i], moved[i], 'recentred science image')
        S.same(tuple(float(q) for q in out.centers[i]), c, 'centre')
        S.same(float(out.PAs[i]), dict(s['pri'])['ROLL'], 'position angle')
        S.same(str(out.filenames[i]), '%s_INT%d' % (s['filename'], k + 1), 'name')
        S.check(abs(float(out.wvs[i]) - 575e-9) < 1e-12, 'wavelength')
        S.same(int(out.filenums[i]), i, 'number')
    S.same(len(out.wcs), ns, 'one wcs per image')
    S.check(float(out.OWA) >= np.hypot(shape[-1], shape[-2]) / 2, 'the outer working angle holds the image')
    lib = out._psflib
    if ref is None:
        S.check(lib is None, 'no library')
    else:
        S.check(lib.prepared is out, 'library prepared for this dataset')
        S.same(tuple(float(q) for q in lib.center), c, 'centre of the library')
        S.same(np.shape(lib.imgs), (ns + nr,) + tuple(shape[-2:]), 'size of the library')
        want = list(range(ns, ns + nr)) + list(range(ns))
        S.same([str(q) for q in lib.names], ['%s_INT%d' % (allf[i][0]['filename'], allf[i][1] + 1) for i in want], 'names in the library')
        for got, i in zip(lib.imgs, want):
            S.eq(got, moved[i], 'image in the library')
    for f, s in zip(fs, s0):
        unchanged(S, f, s)


@harness('N10', quick=[dict()], stubs=['align_and_scale: a known image'])
def inner(S):
    """The inner working angle is of the order of wavelength over telescope diameter, in pixels of the image."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    S.setattr(pyklip.klip, 'align_and_scale', recenter(S, []))
    sc = S.choice('scale', [21.8, 10., 50.])
    out = data.PyKLIPDataset(data.Dataset(frames(S, 1, 's', (2, 3), dq=False, sym=False, ext=dict(PLTSCALE=sc))))
    want = 575e-9 / 2.36 * 206265. * 1000. / sc
    S.check(.2 * want < float(out.IWA) < 10 * want, 'inner working angle in pixels')


@harness('N10', quick=[dict()], stubs=['align_and_scale: a known image'])
def refusals(S):
    """Data of another telescope or instrument, of an unknown filter, or with differing image shapes or pixel scales are refused."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    S.setattr(pyklip.klip, 'align_and_scale', recenter(S, []))
    which = S.choice('which', [0, 1])
    what = S.choice('what', ['telescope', 'instrument', 'filter', 'scale', 'shape', 'dims', 'none', 'notdataset'])
    if what == 'scale':
        sc = S.choice('scale', [21.7, 21.9, 5.])
    fs = frames(S, 2, 's', (2, 3), dq=False, sym=False)
    f = fs[which]
    if what == 'telescope':
        f.pri_hdr['TELESCOP'] = 'HST'
    if what == 'instrument':
        f.pri_hdr['INSTRUME'] = 'WFI'
    if what == 'filter':
        f.ext_hdr['CFAMNAME'] = '9Z'
    if what == 'scale':
        f.ext_hdr['PLTSCALE'] = sc
    ds = data.Dataset(fs)
    if what == 'shape':
        g = frames(S, 1, 'g', (3, 3), dq=False, sym=False)[0]
        ds.frames[which] = g
    if what == 'dims':
        g = frames(S, 1, 'g', (1, 1, 2, 3), dq=False, sym=False)[0]
        ds.frames[which] = g
    if what == 'notdataset':
        S.raises(UserWarning, lambda: data.PyKLIPDataset(fs[0]), 'refused')
        S.raises(UserWarning, lambda: data.PyKLIPDataset(ds, psflib_dataset=fs[0]), 'refused')
        return
    if what == 'none':
        S.same(len(data.PyKLIPDataset(ds).input), 2, 'accepted')
        return
    S.raises(UserWarning, lambda: data.PyKLIPDataset(ds), 'refused')


class Klip:
    """in place of the PSF subtraction: writes a product through the dataset's own savedata, with the given images"""

    def __init__(self, S, img, n=2):
        self.S, self.img, self.calls = S, img, []

    def __call__(self, dset, **kw):
        self.calls.append((dset, kw))
        kl = kw['numbasis']
        self.center = (11. + .25, 12.5)
        dset.output_centers = np.array([self.center, (0., 0.)])
        dset.output_wcs = np.array([w.deepcopy() for w in dset.wcs])
        for w, a in zip(dset.output_wcs, dset.PAs):
            pyklip.klip._rotate_wcs_hdr(w, a)
        p = os.path.join(kw['outputdir'], kw['fileprefix'] + '-KLmodes-all.fits')
        dset.savedata(p, np.arange(float(np.prod(self.img.shape))).reshape(self.img.shape), klipparams='mode=' + kw['mode'], filetype='KL Mode Cube', zaxis=kl)
        self.path = p


def setup(S, img):
    klip = Klip(S, img)
    seen = []
    S.setattr(pyklip.klip, 'align_and_scale', recenter(S, seen))
    S.setattr(pyklip.rdi, 'PSFLibrary', Lib)
    S.setattr(pyklip.parallelized, 'klip_dataset', klip)
    real = fits.getdata

    def getdata(p, *a, **k):
        if getattr(klip, 'path', None) == p:
            return np.array(img)
        return real(p, *a, **k)
    S.setattr(fits, 'getdata', getdata)
    return klip, seen


@harness('N10', quick=[dict(n=1, nref=0), dict(n=2, nref=1), dict(n=1, nref=1), dict(n=2, nref=1, given=True), dict(n=2, nref=1, order=[2, 0, 1]), dict(n=2, nref=2, mode='RDI')],
         thorough=[dict(n=3, nref=2, order=[4, 1, 3, 0, 2]), dict(n=3, nref=2, given=True, mode='ADI+RDI')],
         stubs=['klip_dataset: any images; align_and_scale: a known image; PSFLibrary: records its content'])
def subtraction(S, n=2, nref=1, given=False, order=None, mode=None, shape=(1, 2)):
    """KLIP gets the science frames (and only those), their flagged pixels masked, the references (the flagged frames or the given
    dataset) likewise and the settings asked for, with the documented mode; the product holds the images it returns, invalid pixels
    flagged and without error, the star at the place KLIP reports, the headers of the first science frame, the settings of the
    reduction, the name of the last science frame and a note in the history; inputs stay."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    sci, ref = frames(S, n, 's', shape, roll=20.), frames(S, nref, 'r', shape, ref=1, roll=50.)
    mix = sci + ref
    if given:
        ds, rds = data.Dataset(sci), data.Dataset(ref)
        for f in ref:
            f.pri_hdr['PSFREF'] = 0
    else:
        ds, rds = data.Dataset([mix[i] for i in order] if order else mix), None
        sci = [f for f in ds.frames if f.pri_hdr['PSFREF'] == 0]
        ref = [f for f in ds.frames if f.pri_hdr['PSFREF'] == 1]
    s0 = [snap(f) for f in mix]
    ss, sr = [snap(f) for f in sci], [snap(f) for f in ref]
    kls, (ann, sub, mov, nth, prefix) = S.choice('settings', [([1, 4], (1, 1, 1, 1, '')), (5, (3, 2, 4, None, 'test'))])
    kl = [kls] if isinstance(kls, int) else list(kls)
    img = S.array('klip', (len(kl), 1, 2), -5, 5, nan=True)
    klip, seen = setup(S, img)
    tmp = S.scratch()
    kw = dict(mode=mode) if mode else {}
    if given:
        kw['reference_star_dataset'] = rds
    out = l3_to_l4.do_psf_subtraction(ds, numbasis=kls, annuli=ann, subsections=sub, movement=mov, outdir=tmp, fileprefix=prefix, do_crop=False,
                                      measure_klip_thrupt=False, measure_1d_core_thrupt=False, num_processes=nth, **kw)
    want_mode = mode or ('ADI' if not nref else 'RDI' if n == 1 else 'ADI+RDI')
    S.same(len(klip.calls), 1, 'one reduction')
    dset, k = klip.calls[0]
    S.same((k['annuli'], k['subsections'], k['movement'], list(k['numbasis']), k['mode'], k['numthreads'], k.get('calibrate_flux')), (ann, sub, mov, kl, want_mode, nth, False), 'settings of the reduction')
    S.check((k['psf_library'] is None) == (nref == 0), 'references used')
    S.same(len(seen), n + nref, 'images used')
    S.same(len(dset.input), n, 'science images')
    for s, (im, _, old), f in zip(ss + sr, seen, sci + ref):
        same_nan(S, im, s['data'], s['dq'] != 0, 'image of the frame, flagged pixels masked')
        S.eq(old[0], dict(s['ext'])['STARLOCX'], 'star position of the frame')
    S.same([float(q) for q in dset.PAs], [dict(s['pri'])['ROLL'] for s in ss], 'roll angles')
    if nref:
        S.same([str(q).split('_INT')[0] for q in k['psf_library'].names], [s['filename'] for s in sr + ss], 'library: references and science frames')
    # product
    S.same(len(out), 1, 'one product')
    f = out[0]
    S.same(np.shape(f.data), np.shape(img), 'shape')
    S.same(np.shape(f.err), (1,) + np.shape(img), 'shape of the error')
    S.same(str(f.dq.dtype), 'uint16', 'type of the flags')
    for p in np.ndindex(*np.shape(img)):
        bad = S.isnan(img[p])
        S.check(S.or_(S.and_(bad, S.isnan(f.data[p])), S.and_(S.not_(bad), S.ite(bad, 0., f.data[p]) == S.ite(bad, 0., img[p]))), 'images of the reduction')
        S.check((f.dq[p] != 0) == bad, 'invalid pixels flagged')
        S.check(S.isnan(f.err[(0,) + p]) == bad, 'no error for invalid pixels')
    S.same((float(f.ext_hdr['STARLOCX']), float(f.ext_hdr['STARLOCY'])), klip.center, 'place of the star')
    for key, v in turned(0.).items():
        if key[:2] == 'CD':
            S.check(abs(f.ext_hdr[key] - v) < 1e-4 * SCALE, 'world coordinates of the derotated images')
    S.same(f.pri_hdr['KLIP_ALG'], want_mode, 'mode recorded')
    S.same(f.filename, ss[-1]['filename'], 'named after the last science frame')
    p0 = [q for q in ss[0]['pri']]
    hsame(S, [q for q in hdict(f.pri_hdr) if q[0] != 'KLIP_ALG'], p0, 'primary header of the first science frame', ignore=('FILETIME', 'COMMENT', 'HISTORY', ''))
    for key in ('CFAMNAME', 'PLTSCALE', 'DATALVL', 'CTYPE1'):
        S.same(f.ext_hdr[key], dict(ss[0]['ext'])[key], 'header of the first science frame')
    for i, m in enumerate(kl):
        S.same(f.ext_hdr['KLMODE%d' % i], m, 'modes recorded')
    S.same(f.ext_hdr['PSFPARAM'], 'mode=' + want_mode, 'settings recorded')
    S.same((f.ext_hdr['PSFSUB'], f.ext_hdr['DRPNFILE']), ('pyKLIP', n), 'reduction recorded')
    S.same(sorted(f.ext_hdr['FILE_%d' % i] for i in range(n)), sorted(s['filename'] + '_INT1.fits' for s in ss), 'frames recorded')
    h = history(f.ext_hdr)
    S.check('made' in h and want_mode in h.split('\n')[-1], 'history kept and continued')
    for g, s in zip(mix, s0):
        unchanged(S, g, s)


@harness('N10', quick=[dict()], stubs=['klip_dataset: any images; align_and_scale: a known image; PSFLibrary: records its content'])
def modes(S):
    """Unknown modes, a dataset of references only and throughput requests without core throughput calibration are refused."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    klip, seen = setup(S, S.array('klip', (1, 2, 2), -5, 5))
    tmp = S.scratch()
    what = S.choice('what', ['mode', 'references', 'thrupt', 'ct'])
    ds = data.Dataset(frames(S, 2, 's', (2, 2), ref=1 if what == 'references' else 0, sym=False, dq=False))
    kw = dict(outdir=tmp, do_crop=False, numbasis=[1])
    if what == 'mode':
        m = S.choice('mode', ['SDI', 'adi', 'ADI+SDI', ''])
        S.raises(Exception, lambda: l3_to_l4.do_psf_subtraction(ds, mode=m, measure_klip_thrupt=False, measure_1d_core_thrupt=False, **kw), 'refused')
    elif what == 'references':
        S.raises(Exception, lambda: l3_to_l4.do_psf_subtraction(ds, measure_klip_thrupt=False, measure_1d_core_thrupt=False, **kw), 'refused')
    else:
        S.raises(Exception, lambda: l3_to_l4.do_psf_subtraction(ds, measure_klip_thrupt=what == 'thrupt', measure_1d_core_thrupt=what == 'ct', **kw), 'refused')
    S.same(len(klip.calls), 0, 'no reduction')


@harness('N10', quick=[dict(kt=True, ct=True), dict(kt=True, ct=False), dict(kt=False, ct=True), dict(kt=True, ct=True, crop=True)],
         stubs=['klip_dataset: any images; meas_klip_thrupt, get_1d_ct: any values'])
def extras(S, kt=True, ct=True, crop=False):
    """The throughputs are measured on the masked (cropped) frames with the settings of the reduction, and stored with the product: KLIP throughput,
    and core throughput at the same separations (or the standard ones); cropping is centred on each frame's star."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    shape = (7, 8) if crop else (2, 2)
    if crop:
        sci = []
        for i in range(2):
            a = S.const(np.arange(float(np.prod(shape))).reshape(shape) + 100 * i)
            a[3 - i, 2 + i] = S.real('pix%d' % i, -5, 5)
            sci.append(image(S, tag='s%d' % i, shape=shape, dat=a, err=S.const(np.ones((1,) + shape)), dq=S.const(np.zeros(shape, dtype=np.uint16)), filename='s%d_L3_.fits' % i, data_level='L3',
                             pri=dict(ROLL=13. * i, PSFREF=0), ext=dict(CFAMNAME='1F', PLTSCALE=21.8, STARLOCX=2.5 + i, STARLOCY=3.5 - i, LSAMNAME='NFOV', **turned(13. * i))))
    else:
        sci = frames(S, 2, 's', shape, sym=False)
    ref = frames(S, 1, 'r', shape, ref=1, sym=False, dq=False)
    for f in sci + ref:
        f.ext_hdr['LSAMNAME'] = 'NFOV'
    ds, rds = data.Dataset(sci), data.Dataset(ref)
    ss = [snap(f) for f in sci]
    img = S.array('klip', (2, 2, 2), -5, 5)
    klip, seen = setup(S, img)
    thr = S.array('thrupt', (3, 2, 2), 0, 1)
    core = S.array('core', (2, 2), 0, 1)
    cal, cand, seps, pas = object(), [(3., 20.)], np.array([4., 6.]), np.array([0., 90.])
    got = {}

    def mk(*a, **k):
        got['kt'] = (a, k)
        return thr.copy()

    def mc(c, f, s):
        got['ct'] = (c, f, np.array(s))
        return core.copy()
    S.setattr(l3_to_l4, 'meas_klip_thrupt', mk)
    S.setattr(l3_to_l4, 'get_1d_ct', mc)
    tmp = S.scratch()
    kw = dict(crop_sizexy=[2, 2]) if crop else dict(do_crop=False)
    out = l3_to_l4.do_psf_subtraction(ds, ct_calibration=cal, reference_star_dataset=rds, numbasis=[1, 3], annuli=2, subsections=3, movement=4, outdir=tmp, fileprefix='x',
                                      measure_klip_thrupt=kt, measure_1d_core_thrupt=ct, cand_locs=cand, kt_seps=seps, kt_pas=pas, kt_snr=7., num_processes=2, **kw)
    f = out[0]
    names = [h.name for h in f.hdu_list]
    S.same(names, ['KL_THRU'] * kt + ['CT_THRU'] * ct, 'extensions')
    if crop:
        for i in range(2):
            S.eq(seen[i][0], ss[i]['data'][3 - i:5 - i, 2 + i:4 + i], 'cropped around the star')
            S.same((float(seen[i][2][0]), float(seen[i][2][1])), (.5, .5), 'star in the cropped frame')
    if kt:
        a, k = got['kt']
        S.check(a[3] is cal and a[2][0].data.shape == (2, 2, 2), 'calibration and reduced frame')
        for g, (im, _, _) in zip(list(a[0].frames) + list(a[1].frames), seen):
            for p in np.ndindex(*np.shape(im)):
                S.check(S.or_(S.and_(S.isnan(g.data[p]), S.isnan(im[p])), g.data[p] == im[p]), 'throughput measured on the frames of the reduction')
        par = a[4]
        S.same({q: par[q] for q in ('annuli', 'subsections', 'movement', 'mode')}, dict(annuli=2, subsections=3, movement=4, mode='ADI+RDI'), 'settings of the reduction')
        S.same(list(par['numbasis']), [1, 3], 'modes')
        S.same((float(a[5]), k['cand_locs'], list(k['seps']), list(k['pas'])), (7., cand, [4., 6.], [0., 90.]), 'injection settings')
        S.eq(f.hdu_list[names.index('KL_THRU')].data, thr, 'KLIP throughput stored')
    if ct:
        c, g, s = got['ct']
        S.check(c is cal, 'calibration of the core throughput')
        if kt:
            S.eq(s, thr[0, :, 0], 'separations of the KLIP throughput')
        else:
            S.same([float(q) for q in s], [5., 10., 15., 20., 25., 30., 35.], 'standard separations')
        S.same((float(g.ext_hdr['STARLOCX']), float(g.ext_hdr['STARLOCY'])), klip.center, 'frame with the star')
        S.eq(f.hdu_list[names.index('CT_THRU')].data, core, 'core throughput stored')
    for g, s in zip(sci, ss):
        unchanged(S, g, s)
