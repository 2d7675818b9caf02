"""Lineage: products name all files they were made from."""
import os

import numpy as np

from symnp.reg import harness
from .common import *
from .D09 import make
from corgidrp.combine import combine_subexposures


def frame(S, name, inputs=None, hdrs=()):
    z = lambda *s: S.const(np.zeros(s))
    f = image(S, tag=name, shape=(1, 1), dat=S.const(np.full((1, 1), 2.)), err=z(1, 1, 1), dq=S.const(np.zeros((1, 1), dtype=np.uint16)), filename=name)
    if inputs is not None:
        for i, x in enumerate(inputs):
            f.ext_hdr['FILE%d' % i] = x
        f.ext_hdr['DRPNFILE'] = len(inputs)
    return f


def listed(o):
    e = o.ext_hdr
    return [str(e['FILE%d' % i]) for i in range(int(e['DRPNFILE']))]


@harness('D08', quick=[dict(n=1, m=2), dict(n=2, m=2)], thorough=[dict(n=3, m=1), dict(n=2, m=3), dict(n=1, m=12)])
def record(S, n=2, m=2):
    """The list of a combined frame holds the name of every input and every name in the inputs' own lists, each exactly once."""
    tracking(S, False)
    pool = ['r%d.fits' % i for i in range(m)]
    fs, want = [], set()
    for i in range(n):
        k = S.choice('k%d' % i, [None] + list(range(m + 1)))
        own = None if k is None else [S.choice('x%d%d' % (i, j), pool if j == 0 else ['r%d.fits' % j, 'p0.fits']) for j in range(k)]
        fs.append(frame(S, 'p%d.fits' % i, own))
        want |= {'p%d.fits' % i} | set(own or [])
    ds = data.Dataset(fs)
    s0 = [snap(f) for f in ds.frames]
    out = combine_subexposures(ds, None)
    got = listed(out.frames[0])
    S.same(sorted(got), sorted(want), 'every input and their inputs, once each')
    for f, s in zip(ds.frames, s0):
        unchanged(S, f, s)


CLASSES = ['Dark', 'NonLinearityCalibration', 'KGain', 'BadPixelMap', 'DetectorNoiseMaps', 'FlatField', 'AstrometricCalibration', 'TrapCalibration',
           'FluxcalFactor', 'NDFilterSweetSpotDataset']


@harness('D08', quick=[dict(part=0), dict(part=1)])
def products(S, part=0):
    """A calibration product made from combined frames names the combined frames and the raw frames behind them; the list
    survives storage."""
    tracking(S, False)
    cls = S.choice('cls', CLASSES[part::2])
    raw = data.Dataset([frame(S, 'r%d.fits' % i) for i in range(3)])
    comb = combine_subexposures(data.Dataset(raw.frames[:2]), 2)
    comb.frames[0].filename = 'comb.fits'
    o, _ = make(S, cls, data.Dataset([comb.frames[0], raw.frames[2]]))
    want = ['comb.fits', 'r0.fits', 'r1.fits', 'r2.fits']
    S.same(sorted(listed(o)), want, 'inputs of the product')
    S.scratch()
    o.save(filedir='.', filename='o.fits')
    S.same(sorted(listed(getattr(data, cls)('o.fits'))), want, 'inputs of the stored product')


@harness('D08', quick=[dict()])
def chain(S):
    """Over several stages nothing is lost, and an output name equal to an input name is listed once."""
    tracking(S, False)
    n = S.choice('n', [2, 4])
    ds = data.Dataset([frame(S, 'r%d.fits' % i) for i in range(n)])
    names = {'r%d.fits' % i for i in range(n)}
    while len(ds) > 1:
        ds = combine_subexposures(ds, 2)
        if S.choice('rename%d' % len(ds), [False, True]):
            for i, f in enumerate(ds.frames):
                f.filename = 'c%d_%d.fits' % (len(ds), i)
        if len(ds) > 1:
            names |= {f.filename for f in ds.frames}
    S.same(sorted(listed(ds.frames[0])), sorted(names), 'all stages listed')


@harness('D08', quick=[dict()], stubs=['numpy.corrcoef (read-noise estimate only)'])
def masters(S):
    """Master darks and noise maps name all frames they were made from and the inputs of every one of these frames; synthesised
    darks name those of their noise maps."""
    import warnings
    from types import SimpleNamespace
    from corgidrp.darks import build_trad_dark, build_synthesized_dark, calibrate_darks_lsq
    from corgidrp.photon_counting import get_pc_mean
    from . import C03
    from .geom import small
    warnings.simplefilter('ignore')
    tracking(S, False)
    C03.stub(S)
    what = S.choice('what', ['dark', 'noise maps', 'pc dark', 'synthesised'])
    sets = C03.SETS[0] if what in ('noise maps', 'synthesised') else [(1., 1.)] * 3
    fs, want = [], set()
    for i, (g, t) in enumerate(sets):
        f = C03.frame(S, str(i), g, t, S.const(np.arange(12.).reshape(C03.SHAPE) + i))
        own = S.choice('own%d' % i, [None, 1, 2]) if i < 2 else 1
        if own is not None:
            for k in range(own):
                f.ext_hdr['FILE%d' % k] = 'raw%d%d.fits' % (i, k)
                want.add('raw%d%d.fits' % (i, k))
            f.ext_hdr['DRPNFILE'] = own
        want.add(f.filename)
        fs.append(f)
    if what == 'pc dark':
        for f in fs:
            f.pri_hdr['VISTYPE'] = 'DARK'
            f.ext_hdr.update(ISPC=True, EMGAIN_C=5000., RN=100.)
        o = get_pc_mean(data.Dataset(fs), inputmode='darks', bin_size=S.choice('bin', [None, 1]), pc_ecount_max=1.)
    else:
        fn = build_trad_dark if what == 'dark' else calibrate_darks_lsq
        o = fn(data.Dataset(fs), SimpleNamespace(params=dict(TELRSTRT=3, TELREND=4)), small(**C03.GEOM))
    if what == 'synthesised':
        o = build_synthesized_dark(data.Dataset(fs[:1]), o, small(**C03.GEOM), full_frame=S.choice('full', [False, True]))
    S.same(sorted(listed(o)), sorted(want), 'all frames and their inputs')


@harness('D08', quick=[dict()])
def given_list(S):
    """A product made from a header that already lists its inputs keeps that list when no input data set is given."""
    tracking(S, False)
    cls = S.choice('cls', ['Dark', 'BadPixelMap', 'DetectorNoiseMaps'])
    o, _ = make(S, cls, data.Dataset([frame(S, 'r%d.fits' % i) for i in range(3)]))
    kw = dict(err=o.err.copy(), dq=o.dq.copy(), err_hdr=o.err_hdr.copy()) if cls != 'BadPixelMap' else {}
    b = getattr(data, cls)(o.data.copy(), pri_hdr=o.pri_hdr.copy(), ext_hdr=o.ext_hdr.copy(), **kw)
    S.same(sorted(listed(b)), ['r%d.fits' % i for i in range(3)], 'list kept')
