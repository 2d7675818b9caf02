"""Calibration products: identity, metadata, storage and type checks."""
import os
import warnings

import numpy as np
import astropy.io.fits as fits
import astropy.time as time

from symnp.reg import harness
from .common import *
from .D07 import STRUCT

CLASSES = ['Dark', 'NonLinearityCalibration', 'KGain', 'BadPixelMap', 'DetectorNoiseMaps', 'FlatField', 'DetectorParams',
           'AstrometricCalibration', 'TrapCalibration', 'FluxcalFactor', 'FpamFsamCal', 'NDFilterSweetSpotDataset', 'CoreThroughputCalibration']
OWN = [c for c in CLASSES if c not in ('DetectorParams', 'FpamFsamCal')]


def parents(S, n=2):
    fr = []
    for i in range(n):
        f = image(S, tag='p%d' % i, shape=(1, 1), dat=S.const(np.zeros((1, 1))), err=S.const(np.zeros((1, 1, 1))), dq=S.const(np.zeros((1, 1), dtype=np.uint16)))
        f.filename = 'CGI_00%d_L2a.fits' % i
        fr.append(f)
    return data.Dataset(fr)


def make(S, cls, src):
    """a new product of the class with symbolic content -> (object, dict of attribute -> expected value)"""
    p = hdr(TELESCOP='ROMAN')
    e = lambda **k: hdr(**{**dict(EXPTIME=S.real('expt', 0, 100), EMGAIN_C=1.), **k})
    K = dict(pri_hdr=p, input_dataset=src)
    C = getattr(data, cls)
    if cls == 'Dark':
        d = S.array('d', (2, 2))
        return C(d, ext_hdr=e(), err=S.array('e', (1, 2, 2), 0), dq=S.bits('q', (2, 2)), err_hdr=hdr(), **K), dict(data=d.copy())
    if cls == 'NonLinearityCalibration':
        d = S.array('d', (3, 3), 0.5, 2)
        d[0, 0] = float('nan')
        return C(d, ext_hdr=e(), **K), dict(data=d.copy())
    if cls == 'KGain':
        v, er = S.real('v', 1, 10), S.real('er', 0, 1)
        ptc = S.array('ptc', (3, 2))
        k = C(S.np.array([[v]]), err=S.np.array([[[er]]]), ptc=ptc, ext_hdr=e(), **K)
        return k, dict(value=v, error=S.np.array([er]), ptc=ptc.copy())
    if cls == 'BadPixelMap':
        d = S.bits('d', (2, 2), np.uint16)
        return C(d, ext_hdr=e(), **K), dict(data=d.copy())
    if cls == 'DetectorNoiseMaps':
        d, er = S.array('d', (3, 1, 2)), S.array('e', (1, 3, 1, 2), 0)
        b, be = S.real('bo', -10, 10), S.real('boe', 0, 10)
        o = C(d, ext_hdr=e(B_O=b, B_O_ERR=be), err=er, dq=S.bits('q', (3, 1, 2)), err_hdr=hdr(), **K)
        return o, dict(FPN_map=d[0].copy(), CIC_map=d[1].copy(), DC_map=d[2].copy(), FPN_err=er[0][0].copy(), CIC_err=er[0][1].copy(), DC_err=er[0][2].copy(), bias_offset=b, bias_offset_err=be)
    if cls == 'FlatField':
        d = S.array('d', (2, 2), 0, 2)
        return C(d, ext_hdr=e(), **K), dict(data=d.copy())
    if cls == 'DetectorParams':
        kg, fw = S.real('kg', 1, 10), S.real('fw', 1, 1e6)
        o = C(dict(KGAINPAR=kg, FWC_PP_E=fw), date_valid=time.Time('2027-01-01'))
        return o, dict(params=dict(C.default_values, KGAINPAR=kg, FWC_PP_E=fw))
    if cls == 'AstrometricCalibration':
        d = S.array('d', (10,), -100, 100)
        return C(d, ext_hdr=e(), **K), dict(boresight=d[:2].copy(), platescale=d[2:4].copy(), northangle=d[4], avg_offset=d[5:7].copy(), distortion_coeffs=d[7:].copy())
    if cls == 'TrapCalibration':
        d = S.array('d', (2, 10))
        return C(d, ext_hdr=e(), **K), dict(data=d.copy())
    if cls == 'FluxcalFactor':
        v, er = S.real('v', 1e-3, 10), S.real('er', 0, 1)
        fp, fs = S.choice('fpam', ['ND225', 'HOLE', None]), S.choice('fsam', ['ND475', 'OPEN', None])
        S.assume(not (fp is None and fs is None))
        S.assume(not (fp == 'ND225' and fs == 'ND475'))
        h = e(CFAMNAME='3C')
        if fp:
            h['FPAMNAME'] = fp
        if fs:
            h['FSAMNAME'] = fs
        nd = 'ND225' if fp == 'ND225' else 'ND475' if fs == 'ND475' else 'ND0'
        return C(S.np.array([[v]]), err=S.np.array([[[er]]]), ext_hdr=h, **K), dict(fluxcal_fac=v, fluxcal_err=er, filter='3C', nd_filter=nd)
    if cls == 'FpamFsamCal':
        d = S.array('d', (2, 2, 2), -1, 1)
        return C(d, date_valid=time.Time('2027-01-01')), dict(data=d.copy())
    if cls == 'NDFilterSweetSpotDataset':
        d = S.array('d', (2, 3))
        return C(d, ext_hdr=e(), **K), dict(od_values=d[:, 0].copy(), x_values=d[:, 1].copy(), y_values=d[:, 2].copy())
    if cls == 'CoreThroughputCalibration':
        d = S.array('d', (2, 1, 1))
        ct, fp, fs = S.array('ct', (3, 2), 0, 1), S.array('fp', (2,)), S.array('fs', (2,))
        hl = [fits.ImageHDU(data=ct, header=hdr(EXTNAME='CTEXCAM')), fits.ImageHDU(data=fp, header=hdr(EXTNAME='CTFPAM')), fits.ImageHDU(data=fs, header=hdr(EXTNAME='CTFSAM'))]
        o = C(d, ext_hdr=e(EXTNAME='PSFCUBE', DATETIME='2027'), input_hdulist=hl, **K)
        return o, dict(data=d.copy(), ct_excam=ct.copy(), ct_fpam=fp.copy(), ct_fsam=fs.copy())
    raise KeyError(cls)


def attrs(S, o, want, label):
    for k, v in want.items():
        g = getattr(o, k)
        if k == 'params':
            S.same(sorted(g), sorted(v), label + ' parameters')
            for q in v:
                S.same(g[q], v[q], label + ' parameter ' + q)
        elif isinstance(v, str):
            S.same(g, v, label + ' ' + k)
        else:
            S.eq(g, v, label + ' ' + k)


@harness('D09', quick=[dict(cls=c) for c in CLASSES])
def product(S, cls='Dark'):
    """A new product is labelled as what it is, at level CAL, with its input files; saved and read back (by its class or by
    autoload) it has the same values; its inputs are not touched."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    S.scratch()
    src = parents(S)
    ss = [snap(f) for f in src.frames]
    o, want = make(S, cls, src)
    attrs(S, o, want, 'new')
    S.same((o.ext_hdr['DATATYPE'], o.ext_hdr['DATALVL']), (cls, 'CAL'), 'type and level recorded')
    S.check(len(o.filename) > 5 and o.filename.endswith('.fits'), 'file name')
    if cls in OWN:
        S.check('_CAL' in o.filename and 'CGI_001' in o.filename, 'file name from the last input')
        S.same(sorted(o.ext_hdr['FILE%d' % i] for i in range(o.ext_hdr['DRPNFILE'])), ['CGI_000_L2a.fits', 'CGI_001_L2a.fits'], 'inputs recorded')
    o.save(filedir='.')
    for how in ('class', 'auto'):
        b = getattr(data, cls)(o.filepath) if how == 'class' else data.autoload(o.filepath)
        S.check(type(b).__name__ == cls, 'loaded as its own class (%s)' % how)
        attrs(S, b, want, 'loaded')
        S.same((b.filename, b.ext_hdr['DATATYPE'], b.ext_hdr['DATALVL']), (o.filename, cls, 'CAL'), 'loaded name, type and level')
        if cls in OWN:
            S.same([b.ext_hdr['FILE%d' % i] for i in range(2)], [o.ext_hdr['FILE%d' % i] for i in range(2)], 'inputs kept')
    for f, s in zip(src.frames, ss):
        unchanged(S, f, s)


@harness('D09', quick=[dict(part=0), dict(part=1), dict(part=2)])
def wrong_type(S, part=0):
    """A file of any other type, or of no type, is refused by every class, even when its array has the right shape."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    S.scratch()
    src = parents(S)
    cls = S.choice('cls', CLASSES[part::3])
    o, _ = make(S, cls, src)
    other = S.choice('other', ['Image', None, 'KGain', 'Dark', cls.lower(), cls + 'X', ''])
    S.assume(other != cls)
    if other is None:
        del o.ext_hdr['DATATYPE']
    else:
        o.ext_hdr['DATATYPE'] = other
    o.save(filedir='.', filename='x.fits')
    S.raises(ValueError, lambda: getattr(data, cls)('x.fits'), 'other type refused')


@harness('D09', quick=[dict()])
def untyped(S):
    """Autoload reads files without a type as frames when they are two-dimensional, and refuses others."""
    tracking(S, False)
    S.scratch()
    sh = S.choice('sh', [(2, 2), (2, 2, 2), (3,)])
    im = image(S, shape=sh)
    im.save(filename='u.fits')
    if len(sh) == 2:
        b = data.autoload('u.fits')
        S.same(type(b).__name__, 'Image', 'frame')
        S.eq(b.data, im.data, 'content')
    else:
        S.raises(ValueError, lambda: data.autoload('u.fits'), 'unknown type refused')


@harness('D09', quick=[dict()])
def archived(S):
    """Products whose header already lists its input files can be made without the dataset."""
    tracking(S, False)
    e = hdr(EXPTIME=1., EMGAIN_C=1., CFAMNAME='3C', FPAMNAME='HOLE', B_O=0., B_O_ERR=0., DRPNFILE=1, FILE0='a_L1_.fits')
    k = S.choice('k', ['Dark', 'KGain', 'DetectorNoiseMaps', 'FluxcalFactor'])
    v = S.real('v', 1, 2)
    one = S.np.array([[v]])
    o = dict(Dark=lambda: data.Dark(one, hdr(), e), KGain=lambda: data.KGain(one, pri_hdr=hdr(), ext_hdr=e),
             DetectorNoiseMaps=lambda: data.DetectorNoiseMaps(S.np.array([[[v]]] * 3), hdr(), e), FluxcalFactor=lambda: data.FluxcalFactor(one, pri_hdr=hdr(), ext_hdr=e))[k]()
    S.same((o.ext_hdr['DATATYPE'], o.ext_hdr['DRPNFILE'], o.ext_hdr['FILE0']), (k, 1, 'a_L1_.fits'), 'listed inputs kept')
    S.eq(o.data[(0,) * o.data.ndim], v, 'content')


@harness('D09', quick=[dict()])
def no_inputs(S):
    """A new product cannot be made without saying which files it came from."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    cls = S.choice('cls', [c for c in OWN if c != 'NDFilterSweetSpotDataset'])
    S.raises(ValueError, lambda: make(S, cls, None), 'product without inputs refused')


@harness('D09', quick=[dict()])
def wrong_shape(S):
    """Content of the wrong shape is refused."""
    tracking(S, False)
    src = parents(S)
    k = S.choice('k', ['kgain', 'flux', 'nonlin1', 'nonlin2', 'maps', 'fpam', 'nd', 'mapsbo'])
    p, e = hdr(), hdr(EXPTIME=1., EMGAIN_C=1., CFAMNAME='3C', FPAMNAME='HOLE', B_O=0., B_O_ERR=0.)
    z = lambda *s: S.array('z', s, 1, 2)
    f = dict(kgain=lambda: data.KGain(z(1, 2), pri_hdr=p, ext_hdr=e, input_dataset=src),
             flux=lambda: data.FluxcalFactor(z(2, 1), pri_hdr=p, ext_hdr=e, input_dataset=src),
             nonlin1=lambda: data.NonLinearityCalibration(z(1, 3), pri_hdr=p, ext_hdr=e, input_dataset=src),
             nonlin2=lambda: data.NonLinearityCalibration(z(3, 3), pri_hdr=p, ext_hdr=e, input_dataset=src),
             maps=lambda: data.DetectorNoiseMaps(z(2, 2, 2), p, e, src),
             mapsbo=lambda: data.DetectorNoiseMaps(z(3, 2, 2), p, hdr(), src),
             fpam=lambda: data.FpamFsamCal(z(2, 2)),
             nd=lambda: data.NDFilterSweetSpotDataset(z(2, 2), p, e, src))[k]
    S.raises(ValueError, f, 'wrong content refused')


@harness('D09', quick=[dict()])
def defaults(S):
    """The default detector parameters and transformations are the same for every new object, whatever was done to others."""
    a = data.FpamFsamCal([])
    d0 = np.array([[[0., 0.12285012], [-0.12285012, 0.]], [[0., -0.09509319], [-0.09509319, 0.]]])
    S.eq(a.data, d0, 'default transformations')
    a.data[0, 0, 1] = S.real('x', 1, 2)
    S.eq(data.FpamFsamCal([]).data, d0, 'defaults unaffected by edits of an object')
    p = data.DetectorParams({})
    v = dict(data.DetectorParams.default_values)
    q = data.DetectorParams(dict(KGAINPAR=S.real('k', 1, 2), TFACTOR=7))
    q.params['FWC_EM_E'] = 5.
    attrs(S, p, dict(params=v), 'default')
    attrs(S, data.DetectorParams({}), dict(params=v), 'default')
