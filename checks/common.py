"""Builders shared by the harnesses (work in symbolic and concrete mode)."""
import os

import astropy.io.fits as fits
import numpy as np

import corgidrp
from corgidrp import data


def hdr(**kw):
    h = fits.Header()
    for k, v in kw.items():
        h[k] = v
    return h


def std_ext(shape, **kw):
    """an image extension header as read from a file"""
    h = fits.Header()
    h['XTENSION'], h['BITPIX'], h['NAXIS'] = 'IMAGE', -64, len(shape)
    for i, n in enumerate(reversed(shape)):
        h['NAXIS%d' % (i + 1)] = n
    h['PCOUNT'], h['GCOUNT'] = 0, 1
    for k, v in kw.items():
        h[k] = v
    return h


def image(S, tag='', shape=(2, 2), layers=1, dqdtype=np.uint16, nan=False, lo=None, hi=None, filename=None,
          pri=None, ext=None, dq=None, dat=None, err=None, cls=None, data_level='L1', **kw):
    """An Image with symbolic data, error and data-quality content."""
    p = hdr(TELESCOP='ROMAN', INSTRUME='CGI')
    for k, v in (pri or {}).items():
        p[k] = v
    e = hdr(DATALVL=data_level)
    for k, v in (ext or {}).items():
        e[k] = v
    d = S.array('data' + tag, shape, lo, hi, nan=nan) if dat is None else dat
    er = S.array('err' + tag, (layers,) + tuple(shape), 0) if err is None else err
    q = S.bits('dq' + tag, shape, dqdtype) if dq is None else dq
    im = (cls or data.Image)(d, pri_hdr=p, ext_hdr=e, err=er, dq=q, **kw)
    im.filename = filename if filename is not None else 'frame%s_L1_.fits' % tag
    return im


def dataset(S, n=2, tag='', **kw):
    per = {k: kw.pop(k) for k in list(kw) if k.endswith('_i')}
    frames = []
    for i in range(n):
        k = dict(kw)
        for q, f in per.items():
            k[q[:-2]] = f(i)
        frames.append(image(S, tag='%s%d' % (tag, i), **k))
    return data.Dataset(frames)


def snap(img):
    """everything observable of an image, for before/after comparison"""
    return dict(data=img.data.copy(), err=img.err.copy(), dq=img.dq.copy(), pri=hdict(img.pri_hdr), ext=hdict(img.ext_hdr),
                errh=hdict(img.err_hdr), dqh=hdict(img.dq_hdr), filename=img.filename, filedir=img.filedir,
                hdus=[(h.name, None if h.data is None else h.data.copy(), hdict(h.header)) for h in img.hdu_list],
                names=list(img.hdu_names))


def hdict(h):
    """list of (keyword, value) in order"""
    return [(k, v) for k, v in h.items()]


def hsame(S, a, b, label, ignore=()):
    ka = [k for k, _ in a if k not in ignore]
    kb = [k for k, _ in b if k not in ignore]
    S.same(ka, kb, label + ' keywords')
    if ka == kb:
        for (k, x), (_, y) in zip([q for q in a if q[0] not in ignore], [q for q in b if q[0] not in ignore]):
            S.same(x, y, label + ' [%s]' % k)


def unchanged(S, img, s, label='input'):
    S.eq(img.data, s['data'], label + ' data unchanged')
    S.eq(img.err, s['err'], label + ' err unchanged')
    S.eq(img.dq, s['dq'], label + ' dq unchanged')
    S.same(str(img.data.dtype), str(s['data'].dtype), label + ' data dtype unchanged')
    S.same(str(img.dq.dtype), str(s['dq'].dtype), label + ' dq dtype unchanged')
    hsame(S, hdict(img.pri_hdr), s['pri'], label + ' primary header unchanged')
    hsame(S, hdict(img.ext_hdr), s['ext'], label + ' extension header unchanged')
    hsame(S, hdict(img.err_hdr), s['errh'], label + ' err header unchanged')
    hsame(S, hdict(img.dq_hdr), s['dqh'], label + ' dq header unchanged')
    S.same(img.filename, s['filename'], label + ' filename unchanged')
    S.same(list(img.hdu_names), s['names'], label + ' hdu names unchanged')
    S.same([h.name for h in img.hdu_list], [h[0] for h in s['hdus']], label + ' hdus unchanged')
    for h, (n, d, hh) in zip(img.hdu_list, s['hdus']):
        if d is not None:
            S.eq(h.data, d, label + ' hdu data unchanged')


def history(h):
    return '\n'.join(str(v) for k, v in h.items() if k == 'HISTORY')


def tracking(S, on):
    S.setattr(corgidrp, 'track_individual_errors', on)


def coherent(S, ds, label=''):
    """every frame is a view of its slice of the cubes (destructive: writes sentinels)"""
    n = len(ds.frames)
    S.same([len(ds.all_data), len(ds.all_err), len(ds.all_dq)], [n, n, n], label + 'cubes have one slice per frame')
    for i, f in enumerate(ds.frames):
        S.eq(f.data, ds.all_data[i], label + 'frame data equals its cube slice')
        S.eq(f.err, ds.all_err[i], label + 'frame error equals its cube slice')
        S.eq(f.dq, ds.all_dq[i], label + 'frame dq equals its cube slice')
    for i, f in enumerate(ds.frames):
        z = (0,) * (f.data.ndim)
        f.data[z] = 1000.5 + i
        f.err[(0,) + z] = 2000.5 + i
        f.dq[z] = 3 + i
    for i in range(n):
        z = (i,) + (0,) * ds.frames[i].data.ndim
        S.eq(ds.all_data[z], 1000.5 + i, label + 'editing a frame edits the cube (data)')
        S.eq(ds.all_err[(i, 0) + z[1:]], 2000.5 + i, label + 'editing a frame edits the cube (err)')
        S.eq(ds.all_dq[z], 3 + i, label + 'editing a frame edits the cube (dq)')
    for i, f in enumerate(ds.frames):
        z = (-1,) * f.data.ndim
        ds.all_data[(i,) + z] = -5.5 - i
        ds.all_err[(i, 0) + z] = 77.5 + i
        ds.all_dq[(i,) + z] = 9 + i
        S.eq(f.data[z], -5.5 - i, label + 'editing the cube edits the frame (data)')
        S.eq(f.err[(0,) + z], 77.5 + i, label + 'editing the cube edits the frame (err)')
        S.eq(f.dq[z], 9 + i, label + 'editing the cube edits the frame (dq)')


def attached(S, ds, label):
    """coherent() for the aliasing alone, as one check"""
    ok = []
    for i, f in enumerate(ds.frames):
        z = (0,) * f.data.ndim
        f.data[z], f.err[(0,) + z], f.dq[z] = 1000.5 + i, 2000.5 + i, 3 + i
    for i in range(len(ds.frames)):
        z = (i,) + (0,) * ds.frames[i].data.ndim
        ok += [ds.all_data[z] == 1000.5 + i, ds.all_err[(i, 0) + z[1:]] == 2000.5 + i, ds.all_dq[z] == 3 + i]
    S.check(S.and_(*ok), label)
