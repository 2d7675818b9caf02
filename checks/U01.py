"""Data-quality flags: bit packing, flags to NaN and NaN to flags."""
import numpy as np

from symnp.reg import harness
from .common import *
from corgidrp.detector import nan_flags, flag_nans


@harness('U01', quick=[dict(n=1), dict(n=2)], thorough=[dict(n=3, shape=(2, 2)), dict(n=2, layers=2)])
def to_nan(S, n=1, shape=(1, 2), layers=1):
    """Pixels whose flag word reaches the threshold become NaN in data and error; all others keep value and error; flags stay."""
    shape = tuple(shape)
    tracking(S, layers > 1)
    ds = dataset(S, n, shape=shape, layers=layers, nan=True)
    th = S.choice('th', [1, 2, 64])
    s0 = [snap(f) for f in ds.frames]
    out = nan_flags(ds, threshold=th)
    for i in range(n):
        for p in np.ndindex(shape):
            bad = s0[i]['dq'][p] >= th
            x, e = out.all_data[i][p], out.all_err[i, 0][p]
            S.check(S.implies(bad, S.isnan(x)), 'flagged pixels are NaN')
            S.check(S.implies(bad, S.isnan(e)), 'errors of flagged pixels are NaN')
            S.eq(S.ite(bad, 0., x), S.ite(bad, 0., s0[i]['data'][p]), 'other pixels keep their value')
            S.eq(S.ite(bad, 0., e ** 2), S.ite(bad, 0., s0[i]['err'][0][p] ** 2), 'other pixels keep their error')
        S.eq(out.all_dq[i], s0[i]['dq'], 'flags kept')
        unchanged(S, ds.frames[i], s0[i])
    coherent(S, out)


@harness('U01', quick=[dict(n=1), dict(n=2)], thorough=[dict(n=3, shape=(2, 2))])
def to_flag(S, n=1, shape=(1, 2)):
    """NaN pixels, and only they, gain the flag; no flag is lost and data stay."""
    shape = tuple(shape)
    tracking(S, False)
    ds = dataset(S, n, shape=shape, nan=True)
    fl = S.choice('flag', [1, 64, 256])
    s0 = [snap(f) for f in ds.frames]
    out = flag_nans(ds, flag_val=fl)
    for i in range(n):
        for p in np.ndindex(shape):
            q = s0[i]['dq'][p].astype(int)
            S.eq(out.all_dq[i][p].astype(int), S.ite(S.isnan(s0[i]['data'][p]), q | fl, q), 'NaN pixels flagged, other flags kept')
        S.eq(out.all_data[i], s0[i]['data'], 'data kept')
        S.eq(out.all_err[i], s0[i]['err'], 'errors kept')
        unchanged(S, ds.frames[i], s0[i])
    coherent(S, out)


@harness('U01', quick=[dict(dt='uint16'), dict(dt='int64')], thorough=[dict(dt='uint64'), dict(dt='uint64', shape=(2, 2))])
def packing(S, dt='uint16', shape=(1, 2)):
    """Unpacking a flag word gives its 64 bits, most significant first (bit k at index 63-k); packing gives the word back."""
    shape = tuple(shape)
    w = S.bits('w', shape, np.dtype(dt), nbits=15 if dt == 'int64' else None)
    w0 = w.copy()
    u = data.unpackbits_64uint(w[..., None], axis=len(shape))
    S.same(tuple(u.shape), shape + (64,), '64 bits per word')
    for p in np.ndindex(shape):
        for k in range(64):
            v = (w0[p].astype(np.uint64) >> np.uint64(k)) & np.uint64(1)
            S.eq(u[p + (63 - k,)].astype(np.uint64), v, 'bit k of the word is element 63-k')
    b = data.packbits_64uint(u, axis=len(shape)).reshape(shape)
    S.eq(b.astype(np.uint64), w0.astype(np.uint64), 'packing restores the word')
    S.eq(w, w0, 'input unchanged')


@harness('U01', quick=[dict()])
def repack(S):
    """Packing any 64 bits and unpacking gives the bits."""
    b = S.bits('b', (1, 64), np.uint8, nbits=1)
    w = data.packbits_64uint(b, axis=1)
    S.eq(data.unpackbits_64uint(w, axis=1), b, 'unpacking restores the bits')


@harness('U01', quick=[dict()])
def maps(S):
    """The four flag dictionaries describe the same flags: value is 2 to the bit, and reverse maps invert forward maps."""
    b, v = data.get_flag_to_bit_map(), data.get_flag_to_value_map()
    k = S.choice('k', list(range(9)))
    S.same(sorted(b.values()), list(range(9)), 'nine different bits')
    name = data.get_bit_to_flag_map()[k]
    S.same((b[name], v[name], data.get_value_to_flag_map()[1 << k]), (k, 1 << k, name), 'maps agree')
    S.same({n: b[n] for n in ('bad_pixel_unspecified', 'data_replaced_by_filled_value', 'bad_pixel', 'hot_pixel', 'full_well_saturated_pixel',
            'non_linear_pixel', 'pixel_affected_by_cosmic_ray')}, dict(bad_pixel_unspecified=0, data_replaced_by_filled_value=1, bad_pixel=2,
            hot_pixel=3, full_well_saturated_pixel=5, non_linear_pixel=6, pixel_affected_by_cosmic_ray=7), 'the flag bits used by the pipeline')


@harness('U01', quick=[dict()], stubs=['numpy.ma.masked_array: records the data and the mask'])
def masked(S, shape=(2, 2)):
    """The masked view of an image holds its data and masks exactly the pixels with a nonzero flag word."""
    shape = tuple(shape)
    im = image(S, shape=shape, nan=True)
    s = snap(im)
    rec = []

    def arr(data, mask=None, **kw):
        rec.append((data, mask))
        return 'view'
    for k, f in (('masked_array', arr), ('array', arr), ('masked_where', lambda condition, a, **kw: arr(a, condition))):
        S.setattr(data.ma, k, f)
    S.same(im.get_masked_data(), 'view', 'one masked array')
    d, m = rec[0]
    S.eq(d, s['data'], 'data of the image')
    for p in np.ndindex(shape):
        S.check(S.truth(m[p]) == (s['dq'][p] != 0), 'masked where flagged')
    unchanged(S, im, s)
