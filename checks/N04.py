"""World coordinates."""
from types import SimpleNamespace

import numpy as np

from symnp.reg import harness
from .common import *
from corgidrp.l2b_to_l3 import create_wcs


@harness('N04', quick=[dict(n=1), dict(n=2), dict(n=1, shape=(3, 2))], thorough=[dict(n=3, shape=(4, 5)), dict(n=2, shape=(1, 6))])
def wcs(S, n=1, shape=(2, 3)):
    """Every frame gets a tangent-plane solution at its own pointing, corrected by the calibrated offset, referenced to the
    central pixel; the CD matrix is the calibrated plate scale turned by north angle plus the roll of the frame, with east
    to the left. Data, errors and flags stay."""
    shape = tuple(shape)
    tracking(S, False)
    north, px, py = S.real('north', -180, 180), S.real('px', 1, 100), S.real('py', 1, 100)
    dra, ddec = S.real('dra', -1, 1), S.real('ddec', -1, 1)
    ra, dec, roll = ([S.real('%s%d' % (k, i), lo, hi) for i in range(n)] for k, lo, hi in (('ra', 0, 360), ('dec', -90, 90), ('roll', -180, 180)))
    cal = SimpleNamespace(northangle=north, platescale=(px, py), avg_offset=(dra, ddec))
    ds = dataset(S, n, shape=shape, nan=True, pri_i=lambda i: dict(RA=ra[i], DEC=dec[i], ROLL=roll[i]))
    s0 = [snap(f) for f in ds.frames]
    out = create_wcs(ds, cal)
    for i, f in enumerate(out.frames):
        h = f.ext_hdr
        a = S.np.radians(north + roll[i])
        c, s = S.np.cos(a), S.np.sin(a)
        deg = 1e-3 / 3600
        for k, want in (('CD1_1', -c * px), ('CD1_2', s * px), ('CD2_1', s * py), ('CD2_2', c * py)):
            S.eq(h[k] / deg, want, 'CD matrix: scale, rotation and parity', tol=1e-7)
        S.same((h['CRPIX1'], h['CRPIX2']), ((shape[1] - 1) // 2, (shape[0] - 1) // 2), 'reference pixel')
        S.eq(h['CRVAL1'], ra[i] - dra, 'right ascension of the frame corrected', tol=1e-9)
        S.eq(h['CRVAL2'], dec[i] - ddec, 'declination of the frame corrected', tol=1e-9)
        S.same((h['CTYPE1'], h['CTYPE2']), ('RA---TAN', 'DEC--TAN'), 'projection')
        S.eq(h['CDELT1'] / deg, px, 'scale', tol=1e-7)
        S.eq(h['CDELT2'] / deg, py, 'scale', tol=1e-7)
        S.eq(h['PLTSCALE'], (px + py) / 2, 'mean plate scale', tol=1e-9)
        for k in ('data', 'err', 'dq'):
            S.eq(getattr(f, k), s0[i][k], k + ' kept')
        hsame(S, hdict(f.pri_hdr), s0[i]['pri'], 'primary header kept')
        unchanged(S, ds.frames[i], s0[i])
    coherent(S, out)
