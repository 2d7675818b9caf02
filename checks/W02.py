"""Selection of calibration files from the calibration database."""
import os
import warnings

import numpy as np

from symnp.reg import harness
from .common import *
from . import minidb
from .D09 import make, parents, CLASSES
from corgidrp import caldb


def product(S, cls, name, mjd, expt=None, created=None):
    """a stored calibration product of the class, valid at the given day"""
    o, _ = make(S, cls, parents(S, 1))
    o.pri_hdr['OBSNUM'] = 1
    e = o.ext_hdr
    e['SCTSRT'] = minidb.stamp(S, mjd)
    e['EXPTIME'] = 1. if expt is None else expt
    e['OPMODE'], e['EMGAIN_C'], e['EXCAMT'] = 'x', 1., 0.
    if created is not None:
        e['DRPCTIME'] = minidb.stamp(S, created)
    o.save(filedir='.', filename=name)
    return o


def science(S, mjd, expt=1.):
    f = image(S, tag='sci', shape=(1, 1), pri=dict(OBSNUM=1), ext=dict(EXPTIME=expt, OPMODE='x', EMGAIN_C=1., EXCAMT=0.), filename='sci_L1_.fits')
    f.ext_hdr['SCTSRT'] = minidb.stamp(S, mjd)
    return f


def day(S, name):
    return 60000 + S.int(name, 0, 800) / 8


def open_db(S):
    minidb.stand_in(S)
    S.scratch()
    return caldb.CalDB('db.csv')


@harness('W02', quick=[dict(cls=c) for c in ('FlatField', 'KGain', 'DetectorNoiseMaps', 'BadPixelMap')] + [dict(cls='FlatField', n=3), dict(cls='NonLinearityCalibration', other='FlatField')],
         thorough=[dict(cls=c) for c in CLASSES if c not in ('Dark', 'FlatField', 'KGain', 'DetectorNoiseMaps', 'BadPixelMap')] + [dict(cls='KGain', n=4)], stubs=['pandas tables (in memory)', 'astropy.time'])
def closest(S, cls='FlatField', n=2, other='Dark'):
    """The calibration of the requested type closest in time to the frame is returned, loaded from its file; products of
    other types never are, the frame is unchanged."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    db = open_db(S)
    ts = [day(S, 't%d' % i) for i in range(n)]
    to, tf = day(S, 'to'), day(S, 'tf')
    db.create_entry(product(S, other, 'other.fits', to))
    for i in range(n):
        db.create_entry(product(S, cls, 'cal%d.fits' % i, ts[i]))
    f = science(S, tf)
    s = snap(f)
    got = (db if S.choice('again', [False, True]) else caldb.CalDB('db.csv')).get_calib(f, getattr(data, cls))
    S.check(type(got).__name__ == cls, 'type asked for')
    names = ['cal%d.fits' % i for i in range(n)]
    S.check(got.filename in names, 'one of the candidates')
    k = names.index(got.filename)
    S.check(S.and_(*[abs(ts[k] - tf) <= abs(t - tf) for t in ts]), 'closest in time')
    unchanged(S, f, s, 'frame')


@harness('W02', quick=[dict(), dict(n=3), dict(hard=True)], thorough=[dict(n=4)], stubs=['pandas tables (in memory)', 'astropy.time'])
def darks(S, n=2, hard=False):
    """A dark must have exactly the exposure time of the frame; of those the closest in time is returned; if there is none
    the request is refused."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    db = open_db(S)
    ts = [day(S, 't%d' % i) for i in range(n)]
    es = [S.choice('h%d' % i, [1., 102.67639800785477, 998.9643647934921]) if hard else S.real('e%d' % i, 0, 100) for i in range(n)]
    tf, ef = day(S, 'tf'), S.choice('hf', [1., 102.67639800785477, 998.9643647934921]) if hard else S.real('ef', 0, 100)
    for i in range(n):
        for j in list(range(i)) + ['f']:
            o = ef if j == 'f' else es[j]
            S.assume(S.or_(es[i] == o, abs(es[i] - o) > 1e-3))
    if not hard:
        es = [S.ite(S.truth(e == ef), ef, e) for e in es]
    for i in range(n):
        db.create_entry(product(S, 'Dark', 'dark%d.fits' % i, ts[i], es[i]))
    f = science(S, tf, ef)
    fit = [i for i in range(n) if S.truth(es[i] == ef)]
    if not fit:
        S.raises(ValueError, lambda: db.get_calib(f, data.Dark), 'no dark of this exposure time')
        return
    got = db.get_calib(f, data.Dark)
    S.check(got.filename in ['dark%d.fits' % i for i in fit], 'dark of the same exposure time')
    k = int(got.filename[4])
    S.check(S.and_(*[abs(ts[k] - tf) <= abs(ts[i] - tf) for i in fit]), 'closest in time')


@harness('W02', quick=[dict(), dict(cls='Dark')], thorough=[dict(cls='KGain', n=3)], stubs=['pandas tables (in memory)', 'astropy.time'])
def newest(S, cls='FlatField', n=2):
    """Without a frame the most recently created product of the type is returned."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    db = open_db(S)
    ts = [day(S, 't%d' % i) for i in range(n)]
    for i in range(n):
        db.create_entry(product(S, cls, 'cal%d.fits' % i, day(S, 'v%d' % i), created=ts[i]))
    db.create_entry(product(S, 'BadPixelMap', 'other.fits', day(S, 'vo'), created=day(S, 'to')))
    got = db.get_calib(None, getattr(data, cls))
    k = ['cal%d.fits' % i for i in range(n)].index(got.filename)
    S.check(S.and_(*[ts[k] >= t for t in ts]), 'most recently created')


@harness('W02', quick=[dict()], stubs=['pandas tables (in memory)', 'astropy.time'])
def refused(S):
    """Types that are no calibrations, and types without an entry, are refused."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    db = open_db(S)
    k = S.choice('k', ['type', 'sci', 'empty', 'none', 'frameless'])
    if k in ('none', 'type', 'sci', 'frameless'):
        db.create_entry(product(S, 'KGain', 'k.fits', day(S, 't')))
    f = None if k == 'frameless' else science(S, day(S, 'tf'))
    c = dict(type=int, sci=data.Image).get(k, data.FlatField)
    S.raises(ValueError, lambda: db.get_calib(f, c), 'refused (%s)' % k)
