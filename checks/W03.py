"""Histories of the calibration database."""
import os
import warnings

import numpy as np
import pandas

from symnp.reg import harness
from .common import *
from . import minidb
from .W02 import product, science, day, open_db
from corgidrp import caldb

STUBS = ['pandas tables (in memory)', 'astropy.time']


def rows(S, path='db.csv'):
    """the stored table: list of {column: value}"""
    t = minidb.PD(S).read_csv(path, float_precision='round_trip') if S.symbolic else pandas.read_csv(path, dtype=caldb.column_dtypes, float_precision='round_trip')
    if S.symbolic:
        return [dict(zip(t.columns, r)) for r in t.rows]
    return [dict(r) for _, r in t.iterrows()]


def agree(S, model, label, path='db.csv'):
    """the stored table holds exactly one row per modelled file, with its values"""
    rs = rows(S, path)
    S.same(sorted(os.path.basename(r['Filepath']) for r in rs), sorted(model), label + ': one entry per file')
    for r in rs:
        m = model.get(os.path.basename(r['Filepath']))
        if m:
            S.same(r['Type'], m[0], label + ': type')
            S.eq(r['MJD'], m[1], label + ': date')
            S.eq(r['EXPTIME'], m[2], label + ': exposure time')


@harness('W03', quick=[dict(n=2), dict(n=2, first='a0')], thorough=[dict(n=3), dict(n=3, first='a0')], stubs=STUBS)
def histories(S, n=3, first=None):
    """Whatever sequence of entries, updates and removals is made through two connections to the same file, the file holds
    exactly one current row per registered calibration; removing an unknown file is refused without a change."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    a = open_db(S)
    b = caldb.CalDB('db.csv')
    model = {}
    if first:
        o = product(S, 'KGain', 'f0.fits', 60000., 1.)
        a.create_entry(o)
        model['f0.fits'] = ('KGain', 60000., 1.)
    for i in range(n):
        k, op = S.choice('op%d' % i, [(k, op) for k in (0, 1) for op in ('add a', 'add b', 'del a', 'del b', 'new b')][:9])
        name, cls = 'f%d.fits' % k, ('KGain', 'FlatField')[k]
        t, e = day(S, 't%d' % i), S.real('e%d' % i, 0, 100)
        db = a if op.endswith('a') else b
        if op == 'new b':
            b = caldb.CalDB('db.csv')
            continue
        o = product(S, cls, name, t, e)
        if op.startswith('add'):
            db.create_entry(o)
            model[name] = (cls, t, e)
        elif name in model:
            db.remove_entry(o)
            del model[name]
        else:
            S.raises(ValueError, lambda: db.remove_entry(o), 'unknown file refused')
        agree(S, model, 'after step')
    for k, cls in enumerate(('KGain', 'FlatField')):
        f = science(S, 60000.)
        for db in (a, b):
            if 'f%d.fits' % k in model:
                S.same(db.get_calib(f, getattr(data, cls)).filename, 'f%d.fits' % k, 'both connections find it')
            else:
                S.raises(ValueError, lambda: db.get_calib(f, getattr(data, cls)), 'removed or never entered: not found')


@harness('W03', quick=[dict()], stubs=STUBS)
def memory(S):
    """Without writing to disk the file stays as it was, while the connection itself sees the change."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    a = open_db(S)
    t, u = day(S, 't'), day(S, 'u')
    x, y = product(S, 'KGain', 'f0.fits', t, 1.), product(S, 'FlatField', 'f1.fits', u, 1.)
    a.create_entry(x)
    m = {'f0.fits': ('KGain', t, 1.)}
    f = science(S, 60000.)
    if S.choice('k', ['add', 'del']) == 'add':
        a.create_entry(y, to_disk=False)
        agree(S, m, 'file')
        S.same(a.get_calib(f, data.FlatField, to_disk=False).filename, 'f1.fits', 'seen by the connection')
        S.raises(ValueError, lambda: caldb.CalDB('db.csv').get_calib(f, data.FlatField), 'not seen by others')
    else:
        a.remove_entry(x, to_disk=False)
        agree(S, m, 'file')
        S.raises(ValueError, lambda: a.get_calib(f, data.KGain, to_disk=False), 'gone for the connection')
        S.same(caldb.CalDB('db.csv').get_calib(f, data.KGain).filename, 'f0.fits', 'still there for others')


@harness('W03', quick=[dict(n=3)], thorough=[dict(n=4)], stubs=STUBS)
def unsaved(S, n=3):
    """A sequence of changes kept in memory acts on exactly the files it names, and the file on disk stays as it was."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    a = open_db(S)
    cls = ['KGain', 'FlatField', 'Dark'][:3]
    ps = [product(S, c, 'f%d.fits' % i, day(S, 't%d' % i), 1.) for i, c in enumerate(cls)]
    have = set()
    for i in (0, 1, 2):
        a.create_entry(ps[i], to_disk=False)
        have.add(i)
    f = science(S, 60000.)
    f.ext_hdr['EXPTIME'] = 1.
    for j in range(n):
        k = S.choice('k%d' % j, [0, 1, 2])
        if k in have:
            a.remove_entry(ps[k], to_disk=False)
            have.discard(k)
        else:
            a.create_entry(ps[k], to_disk=False)
            have.add(k)
        agree(S, {}, 'file')
        for i, c in enumerate(cls):
            if i not in have:
                S.raises(ValueError, lambda: a.get_calib(f, getattr(data, c), to_disk=False), 'removed: not found')
            else:
                S.same(a.get_calib(f, getattr(data, c), to_disk=False).filename, 'f%d.fits' % i, 'registered: found')


@harness('W03', quick=[dict()], stubs=STUBS)
def row(S):
    """An entry records the file, type, date, exposure time, number of inputs, observation and size of its product."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    a = open_db(S)
    t, e, ob, g, ex = day(S, 't'), S.real('e', 0, 100), S.int('ob', 0, 99), S.real('g', 1, 100), S.real('ex', -10, 10)
    cls = S.choice('cls', ['DetectorNoiseMaps', 'FlatField', 'NDFilterSweetSpotDataset', 'AstrometricCalibration', 'Dark'])
    o = product(S, cls, 'x.fits', t, e)
    o.pri_hdr['OBSNUM'] = ob
    o.ext_hdr['EMGAIN_C'], o.ext_hdr['EXCAMT'], o.ext_hdr['OPMODE'], o.ext_hdr['DRPVERSN'] = g, ex, 'mode', '2.0'
    a.create_entry(o)
    r = rows(S)
    S.same(len(r), 1, 'one entry')
    r = r[0]
    S.same(r['Filepath'], os.path.abspath('x.fits'), 'absolute path')
    S.same(r['Type'], 'NDFilterSweetSpot' if cls.startswith('ND') else cls, 'type')
    for k, v in dict(MJD=t, EXPTIME=e, OBSNUM=ob, EMGAIN_C=g, EXCAMT=ex).items():
        S.eq(r[k], v, k)
    S.same((r['OPMODE'], str(r['DRPVERSN']), r['Files Used']), ('mode', '2.0', o.ext_hdr['DRPNFILE']), 'mode, version, number of inputs')
    sh = o.data.shape
    S.same((r['NAXIS1'], r['NAXIS2']), (sh[-1], sh[-2] if len(sh) > 1 else 0), 'size')


@harness('W03', quick=[dict()], stubs=STUBS)
def scan(S):
    """Scanning a folder enters every calibration file in it (and in its subfolders, unless told otherwise) and nothing else."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    a = open_db(S)
    ts = [day(S, 't%d' % i) for i in range(3)]
    os.makedirs('d/sub')
    m = {}
    deep = S.choice('deep', [True, False])
    for i, (cls, name) in enumerate((('KGain', 'd/k.fits'), ('FlatField', 'd/f.fits'), ('BadPixelMap', 'd/sub/b.fits'))):
        o = product(S, cls, name, ts[i], 1.)
        o.save(filedir=os.path.dirname(name), filename=os.path.basename(name))
        if S.symbolic and not os.path.exists(name):
            open(name, 'w').close()
        if deep or 'sub' not in name:
            m[os.path.basename(name)] = (cls, ts[i], 1.)
    f = science(S, 60000.)
    f.save(filedir='d', filename='sci.fits')
    if S.symbolic and not os.path.exists('d/sci.fits'):
        open('d/sci.fits', 'w').close()
    open('d/readme.txt', 'w').close()
    a.scan_dir_for_new_entries('d', look_in_subfolders=deep)
    agree(S, m, 'after the scan')
