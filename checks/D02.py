"""Copies are independent of their source."""
import numpy as np
import astropy.io.fits as fits

from symnp.reg import harness
from .common import *


def scribble(S, im):
    im.data[0, 0] = 111.25
    im.data[1, 1] = 5.25
    im.err[0, 0, 1] = 222.25
    im.dq[1, 0] = 13
    im.pri_hdr['NEWPRI'] = 1
    im.pri_hdr['TELESCOP'] = 'changed'
    im.ext_hdr['NEWEXT'] = 1
    im.ext_hdr['DATALVL'] = 'changed'
    im.ext_hdr['HISTORY'] = 'scribbled'
    im.err_hdr['NEWERR'] = 1
    im.dq_hdr['NEWDQ'] = 1
    im.filename = 'other.fits'
    im.filedir = '/other'
    im.add_extension_hdu('EXTRA', data=np.zeros((2, 2)))
    for h in im.hdu_list:
        if h.name == 'ORIG':
            h.data[0, 0] = 99.0
            h.header['NEWHDU'] = 1


def build(S, tag):
    im = image(S, tag, nan=True, pri=dict(PRIKEY=S.real('pk' + tag)), ext=dict(EXTKEY=S.real('ek' + tag)))
    im.err_hdr['ERRKEY'] = 4
    im.dq_hdr['DQKEY'] = 5
    im.add_extension_hdu('ORIG', data=S.const(np.arange(4.).reshape(2, 2)))
    return im


@harness('D02', quick=[dict(deep=True)])
def image_copy(S, deep=True):
    """A deep image copy equals its source and neither sees edits of the other."""
    im = build(S, '')
    s = snap(im)
    c = im.copy()
    unchanged(S, im, s, 'source')
    same_content(S, c, s, 'copy')
    s2 = snap(c)
    if S.choice('who', [0, 1]):
        scribble(S, c)
        unchanged(S, im, s, 'source')
    else:
        scribble(S, im)
        unchanged(S, c, s2, 'copy')


def same_content(S, c, s, label):
    S.eq(c.data, s['data'], label + ' data')
    S.eq(c.err, s['err'], label + ' err')
    S.eq(c.dq, s['dq'], label + ' dq')
    hsame(S, hdict(c.pri_hdr), s['pri'], label + ' primary header')
    hsame(S, hdict(c.ext_hdr), s['ext'], label + ' extension header', ignore=('DRPCTIME', 'DRPVERSN'))
    hsame(S, hdict(c.err_hdr), s['errh'], label + ' error header')
    hsame(S, hdict(c.dq_hdr), s['dqh'], label + ' dq header')
    S.same(c.filename, s['filename'], label + ' filename')
    S.same([h.name for h in c.hdu_list], [h[0] for h in s['hdus']], label + ' extra extensions')


@harness('D02', quick=[dict(n=2, deep=True), dict(n=2, deep=False)], thorough=[dict(n=3, deep=True), dict(n=3, deep=False)])
def dataset_copy(S, n=2, deep=True):
    """A dataset copy (with or without copying data) has the same content; data and headers of one are unaffected by
    edits of the other."""
    ds = data.Dataset([build(S, str(i)) for i in range(n)])
    ss = [snap(f) for f in ds.frames]
    c = ds.copy(copy_data=deep)
    for i in range(n):
        same_content(S, c.frames[i], ss[i], 'copy')
    scs = [snap(f) for f in c.frames]
    who = S.choice('who', [0, 1])
    a, b, sb = (c, ds, ss) if who else (ds, c, scs)
    for f in a.frames:
        if deep:
            scribble(S, f)
        else:
            shallow_scribble(S, f)
    a.all_data[:] = 3.25
    a.all_dq[:] = 2
    for i in range(n):
        unchanged(S, b.frames[i], sb[i], 'other')
        S.eq(b.all_data[i], sb[i]['data'], 'other cube data unchanged')
        S.eq(b.all_err[i], sb[i]['err'], 'other cube err unchanged')
        S.eq(b.all_dq[i], sb[i]['dq'], 'other cube dq unchanged')
    coherent(S, b)


def shallow_scribble(S, im):
    im.data[0, 0] = 111.25
    im.err[0, 0, 1] = 222.25
    im.dq[1, 0] = 13
    im.pri_hdr['NEWPRI'] = 1
    im.pri_hdr['TELESCOP'] = 'changed'
    im.ext_hdr['NEWEXT'] = 1
    im.ext_hdr['DATALVL'] = 'changed'
    im.ext_hdr['HISTORY'] = 'scribbled'
    im.err_hdr['NEWERR'] = 1
    im.dq_hdr['NEWDQ'] = 1
    im.filename = 'other.fits'
    im.add_extension_hdu('EXTRA', data=np.zeros((2, 2)))


@harness('D02', quick=[dict()])
def image_copy_headers_only(S):
    """Copying an image without its data still copies every header and the list of extensions."""
    im = build(S, '')
    s = snap(im)
    c = im.copy(copy_data=False)
    same_content(S, c, s, 'copy')
    c.pri_hdr['NEWPRI'] = 1
    c.ext_hdr['DATALVL'] = 'changed'
    c.ext_hdr['HISTORY'] = 'scribbled'
    c.err_hdr['NEWERR'] = 1
    c.dq_hdr['NEWDQ'] = 1
    c.filename = 'other.fits'
    c.add_extension_hdu('EXTRA', data=np.zeros((2, 2)))
    unchanged(S, im, s, 'source')
