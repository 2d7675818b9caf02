"""Storing results."""
import os
import warnings

import numpy as np

import corgidrp
from symnp.reg import harness
from .common import *
from . import minidb
from .D09 import CLASSES
from .W02 import product, day
from .W03 import rows
from .W04 import setup, STUBS
from corgidrp import walker, caldb


@harness('W05', quick=[dict(), dict(n=3)], stubs=STUBS[:2])
def frames(S, n=2):
    """Every frame is stored in the output folder under its own name, with the suffix (underscores trimmed) before the
    extension; science data do not enter the calibration database; the content is unchanged."""
    setup(S)
    names = [S.choice('name%d' % i, ['a%d_L2a.fits' % i, 'b.%d.fits_x.fits' % i, 'C%d.FITS' % i]) for i in range(n)]
    suf = S.choice('suf', ['', 'dark', '_dark', '__a_b_'])
    single = S.choice('single', [False, True])
    fr = [image(S, tag='f%d' % i, shape=(1, 1), filename=names[i]) for i in range(n)]
    what = fr[0] if single else data.Dataset(fr)
    use = fr[:1] if single else what.frames
    s = [snap(f) for f in use]
    if suf or S.choice('default', [True, False]):
        walker.save_data(what, 'out', suffix=suf)
    else:
        walker.save_data(what, 'out')
    for f, x, nm in zip(use, s, names):
        new = nm[:-5] + '_' + suf.strip('_') + '.fits' if suf else nm
        g = data.Image(os.path.join('out', new))
        S.eq(g.data, x['data'], 'data stored')
        S.eq(g.err, x['err'], 'errors stored')
        S.eq(g.dq, x['dq'], 'flags stored')
        S.eq(f.data, x['data'], 'frame unchanged')
        S.same(f.filename, new, 'frame knows its file')
    S.same(len(rows(S, corgidrp.caldb_filepath)) if os.path.exists(corgidrp.caldb_filepath) else 0, 0, 'science data are no calibrations')


@harness('W05', quick=[dict(part=i) for i in range(4)], stubs=STUBS[:2])
def calibrations(S, part=0):
    """A stored calibration product can be found through the database at once, with its stored file."""
    setup(S)
    cls = S.choice('cls', CLASSES[part::4])
    t = day(S, 't')
    o = product(S, cls, 'cal.fits', t)
    suf = S.choice('suf', ['', 'x'])
    walker.save_data(o, 'out', suffix=suf)
    nm = 'cal_x.fits' if suf else 'cal.fits'
    f = image(S, tag='sci', shape=(1, 1), pri=dict(OBSNUM=1), ext=dict(EXPTIME=1., OPMODE='x', EMGAIN_C=1., EXCAMT=0.))
    f.ext_hdr['SCTSRT'] = minidb.stamp(S, 60010.)
    g = caldb.CalDB().get_calib(f, getattr(data, cls))
    S.same((type(g).__name__, g.filename, os.path.basename(g.filedir)), (cls, nm, 'out'), 'found with its stored file')
    r = rows(S, corgidrp.caldb_filepath)
    S.same([os.path.abspath(x['Filepath']) for x in r], [os.path.abspath(os.path.join('out', nm))], 'one entry')
