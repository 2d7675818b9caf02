"""Saving and loading frames and datasets."""
import os

import numpy as np
import astropy.io.fits as fits

from symnp.reg import harness
from .common import *

STRUCT = ('SIMPLE', 'XTENSION', 'BITPIX', 'NAXIS', 'NAXIS1', 'NAXIS2', 'NAXIS3', 'NAXIS4', 'PCOUNT', 'GCOUNT', 'EXTEND', 'EXTNAME', 'BZERO', 'BSCALE')


def frame(S, tag, layers=1, extra=1, shape=(2, 2), dqdtype=np.uint16):
    im = image(S, tag, shape=shape, layers=layers, nan=True, dqdtype=dqdtype,
               pri=dict(PRIKEY=S.real('pk' + tag, -1e3, 1e3), PRITXT='text' + tag), ext=dict(EXTKEY=S.real('ek' + tag, -1e3, 1e3), EXPTIME=S.real('t' + tag, 0, 1000)))
    im.ext_hdr['HISTORY'] = 'first step'
    im.ext_hdr['HISTORY'] = 'second step'
    im.err_hdr['ERRKEY'] = S.real('errk' + tag, -1e3, 1e3)
    im.dq_hdr['DQKEY'] = 'dq text'
    for l in range(2, layers + 1):
        im.err_hdr['Layer_%d' % l] = 'term%d' % l
    for k in range(extra):
        h = fits.Header()
        h['EKEY'] = S.real('hk%s%d' % (tag, k), -1e3, 1e3)
        im.add_extension_hdu('EXT%d' % k, data=S.array('x%s%d' % (tag, k), (2,)), header=h)
    return im


def same(S, im, s, label, filename=None, filedir=None):
    S.eq(im.data, s['data'], label + ' data')
    S.eq(im.err, s['err'], label + ' errors')
    S.eq(im.dq, s['dq'], label + ' flags')
    S.same(tuple(im.err.shape), tuple(s['err'].shape), label + ' error layers')
    for k, h in (('pri', im.pri_hdr), ('ext', im.ext_hdr), ('errh', im.err_hdr), ('dqh', im.dq_hdr)):
        a = {q: v for q, v in s[k] if q not in STRUCT and q != 'HISTORY'}
        for q, v in a.items():
            S.check(q in h, '%s %s header keeps %s' % (label, k, q))
            if q in h:
                S.same(h[q], v, '%s %s header value of %s' % (label, k, q))
        S.same([q for q in h if q not in STRUCT and q != 'HISTORY' and q not in a], [], '%s %s header gains nothing' % (label, k))
    S.same(history(im.ext_hdr), '\n'.join(v for q, v in s['ext'] if q == 'HISTORY'), label + ' history')
    S.same([h.name for h in im.hdu_list], [h[0] for h in s['hdus']], label + ' extra extensions')
    for h, (n, d, hh) in zip(im.hdu_list, s['hdus']):
        S.eq(h.data, d, label + ' extra extension data')
        for q, v in hh:
            if q not in STRUCT:
                S.same(h.header.get(q), v, label + ' extra extension header')
    if filename:
        S.same((im.filename, im.filedir), (filename, filedir), label + ' name')
    S.same(sorted(im.hdu_names), sorted(['ERR', 'DQ'] + [h[0] for h in s['hdus']]), label + ' extension names')


@harness('D07', quick=[dict(), dict(layers=2), dict(extra=2, shape=(2, 2, 2)), dict(extra=0, dqdtype='int64')],
         thorough=[dict(layers=3, extra=2), dict(shape=(3, 1), layers=2, extra=0, dqdtype='uint8')])
def roundtrip(S, layers=1, extra=1, shape=(2, 2), dqdtype='uint16'):
    """A saved frame reads back as the same frame: data, all error layers, flags, every header, history and extra extensions;
    saving changes nothing in memory but the name; a second generation is the same again."""
    tracking(S, layers > 1)
    im = frame(S, '', layers, extra, tuple(shape), np.dtype(dqdtype))
    S.scratch()
    os.makedirs('sub')
    how = S.choice('how', ['own', 'dir', 'name', 'both'])
    im.filename, im.filedir = 'own.fits', '.'
    s = snap(im)
    kw = dict(own={}, dir=dict(filedir='sub'), name=dict(filename='other.fits'), both=dict(filename='other.fits', filedir='sub'))[how]
    im.save(**kw)
    fn, fd = kw.get('filename', 'own.fits'), kw.get('filedir', '.')
    s['filename'], s['filedir'] = fn, fd
    unchanged(S, im, s, 'saved frame')
    S.same(im.filepath, os.path.join(fd, fn), 'file path')
    b = data.Image(im.filepath)
    same(S, b, s, 'loaded', fn, fd)
    # the loaded frame is independent of the file and of the saved object
    b.data[(0,) * len(shape)] = 7.5
    b.save(filename='gen2.fits', filedir='.')
    c = data.Image('gen2.fits')
    s['data'][(0,) * len(shape)] = 7.5
    same(S, c, s, 'second generation')
    d = data.Image(os.path.join(fd, fn))
    S.eq(d.data, im.data, 'file unaffected by later edits')


@harness('D07', quick=[dict(n=2)], thorough=[dict(n=3)])
def datasets(S, n=2):
    """A dataset saves every frame under its own (or the given) name and reads back from the list of files in order."""
    tracking(S, False)
    ds = data.Dataset([frame(S, str(i), extra=i % 2) for i in range(n)])
    for i, f in enumerate(ds.frames):
        f.filename = 'f%d.fits' % i
    ss = [snap(f) for f in ds.frames]
    S.scratch()
    os.makedirs('sub')
    names = ['g%d.fits' % (n - i) for i in range(n)] if S.choice('given', [False, True]) else None
    ds.save(filedir='sub', filenames=names)
    names = names or ['f%d.fits' % i for i in range(n)]
    b = data.Dataset([os.path.join('sub', x) for x in names])
    S.same(len(b), n, 'number of frames')
    for i in range(n):
        same(S, b.frames[i], ss[i], 'loaded', names[i], 'sub')
    coherent(S, b)


@harness('D07', quick=[dict()])
def layers_dropped(S):
    """Reading a file with several error layers while individual errors are not tracked keeps the combined layer only, with
    or without layer names in the header; a frame without a name cannot be saved."""
    tracking(S, True)
    S.scratch()
    named = S.choice('named', [True, False])
    im = image(S, layers=3)
    if named:
        for l in (2, 3):
            im.err_hdr['Layer_%d' % l] = 'term%d' % l
    im.filename = 'three.fits'
    im.save()
    e0 = im.err.copy()
    tracking(S, False)
    b = data.Image('three.fits')
    S.same(tuple(b.err.shape), (1, 2, 2), 'one layer')
    S.eq(b.err[0], e0[0], 'combined layer kept')
    S.same([k for k in b.err_hdr if k.upper().startswith('LAYER_')], [], 'layer names dropped')
    b.filename = ''
    S.raises(ValueError, lambda: b.save(), 'frame without a name refused')


@harness('D07', quick=[dict(), dict(cube=True)])
def building(S, cube=False):
    """A frame built from arrays holds them and the headers given; without errors or flags it gets zeros of the right shape, and an error
    map without layers becomes one layer; wrong shapes and missing headers are refused; pipeline keywords are set where they are missing."""
    tracking(S, True)
    shape = ((2,) if cube else ()) + (1, 2)
    d = S.array('d', shape)
    e = S.array('e', shape, 0)
    q = S.bits('q', shape)
    err = S.choice('err', ['none', 'map', 'layers', 'bad'])
    dq = S.choice('dq', ['none', 'given', 'bad'])
    kw = {}
    if err != 'none':
        kw['err'] = {'map': e, 'layers': S.np.array([e, 2 * e]), 'bad': S.const(np.zeros((1, 1)))}[err]
    if dq != 'none':
        kw['dq'] = q if dq == 'given' else S.const(np.zeros((3, 3), dtype=np.uint16))
    had = S.choice('keywords', [True, False])
    ext = hdr(A=1, DESMEAR=True, CTI_CORR=True, IS_BAD=True) if had else hdr(A=1)
    pri = hdr(B=2, ORIGIN='else') if had else hdr(B=2)
    hl = S.choice('hdus', [True, False])
    extra = S.array('x', (2,))
    if hl:
        kw['input_hdulist'] = [fits.ImageHDU(np.arange(3.), name='MORE')]
        kw['err_hdr'], kw['dq_hdr'] = hdr(C=3), hdr(D=4)
    if 'bad' in (err, dq):
        S.raises(ValueError, lambda: data.Image(d, pri_hdr=pri, ext_hdr=ext, **kw), 'wrong shape refused')
        return
    S.raises(ValueError, lambda: data.Image(d, pri_hdr=pri), 'missing header refused')
    S.raises(ValueError, lambda: data.Image(d, ext_hdr=ext), 'missing header refused')
    im = data.Image(d, pri_hdr=pri, ext_hdr=ext, **kw)
    S.eq(im.data, d, 'data held')
    S.same(np.shape(im.err), (2 if err == 'layers' else 1,) + shape, 'shape of the error')
    if err == 'none':
        S.eq(im.err, np.zeros((1,) + shape), 'no error given: zero')
    else:
        S.eq(im.err[0], e, 'error held')
    S.same(np.shape(im.dq), shape, 'shape of the flags')
    S.eq(im.dq, q if dq == 'given' else np.zeros(shape, dtype=int), 'flags held, or zero')
    S.same((im.pri_hdr['B'], im.ext_hdr['A'], im.pri_hdr['ORIGIN']), (2, 1, 'DRP'), 'headers held')
    S.same([bool(im.ext_hdr[k]) for k in ('DESMEAR', 'CTI_CORR', 'IS_BAD')], [had] * 3, 'pipeline keywords kept or set')
    S.check('DRPVERSN' in im.ext_hdr and 'DRPCTIME' in im.ext_hdr, 'pipeline version recorded')
    S.same((im.err_hdr['EXTNAME'], im.dq_hdr['EXTNAME'], bool(im.err_hdr['TRK_ERRS'])), ('ERR', 'DQ', True), 'extension headers')
    S.same([h.name for h in im.hdu_list], ['MORE'] if hl else [], 'extra extensions')
    if hl:
        S.same((im.err_hdr['C'], im.dq_hdr['D']), (3, 4), 'extension headers given')
        kw['input_hdulist'][0].data[0] = 9.
        S.same(float(im.hdu_list['MORE'].data[0]), 0., 'own copy of the extra extensions')


@harness('D07', quick=[dict()])
def superseding(S):
    """Errors and flags given when a file is read replace those of the file; a file without error or flag extensions gets zeros."""
    tracking(S, False)
    S.scratch()
    im = image(S, shape=(1, 2))
    bare = S.choice('bare', [True, False])
    if bare:
        fits.HDUList([fits.PrimaryHDU(header=im.pri_hdr), fits.ImageHDU(data=np.array([[1., 2.]]), header=im.ext_hdr)]).writeto('a.fits')
        d0, e0, q0 = np.array([[1., 2.]]), np.zeros((1, 1, 2)), np.zeros((1, 2))
    else:
        im.save(filedir='.', filename='a.fits')
        d0, e0, q0 = im.data, im.err, im.dq
    how = S.choice('given', ['none', 'err', 'layer', 'dq', 'both', 'badshape'])
    e, q = S.array('e', (1, 2), 0), S.bits('q', (1, 2))
    kw = {}
    if how in ('err', 'both'):
        kw['err'] = e
    if how == 'layer':
        kw['err'] = S.np.array([e])
    if how in ('dq', 'both'):
        kw['dq'] = q
    if how == 'badshape':
        S.raises(ValueError, lambda: data.Image('a.fits', err=S.const(np.zeros((2, 2)))), 'wrong shape refused')
        S.raises(ValueError, lambda: data.Image('a.fits', dq=S.const(np.zeros((2, 2), dtype=np.uint16))), 'wrong shape refused')
        return
    got = data.Image('a.fits', **kw)
    S.eq(got.data, d0, 'data of the file')
    S.eq(got.err, S.np.array([e]) if 'err' in kw else e0, 'errors given or of the file')
    S.eq(got.dq, q if 'dq' in kw else q0, 'flags given or of the file')
    S.same((got.filename, len(got.hdu_list)), ('a.fits', 0) if 'err' not in kw and 'dq' not in kw else ('a.fits', len(got.hdu_list)), 'name')
