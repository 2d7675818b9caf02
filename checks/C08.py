"""Data sets of the k-gain and non-linearity calibrations; illumination drift."""
import os
import types
import warnings

import numpy as np

from symnp.reg import harness
from . import stubs
from .common import *
from corgidrp import calibrate_kgain, calibrate_nonlin
from corgidrp.calibrate_kgain import kgain_dataset_2_list
from corgidrp.calibrate_nonlin import nonlin_dataset_2_stack


def frame(S, k, obs, t, gain=1., when=None, gm=None, ga=0., dat=None, **kw):
    e = dict(EXPTIME=t, EMGAIN_C=gain, EMGAIN_A=ga, DATETIME='2026-01-01T00:%02d:%02d' % (k // 60, k % 60) if when is None else when)
    if gm is not None:
        e['EMGAIN_M'] = gm
    if dat is None:
        dat = S.const(np.array([[float(k), 0.]]))
        dat[0, 1] = S.real('x%d' % k)
    shp = dat.shape
    return image(S, tag='c%d' % k, shape=shp, dat=dat, err=S.const(np.zeros((1,) + shp)), dq=S.const(np.zeros(shp, dtype=np.uint16)),
                 pri=dict(OBSNAME=obs), ext=e, filename='c%d_.fits' % k, **kw)


def order(S, xs):
    k = S.choice('order', ['time', 'back', 'comb'])
    return {'time': xs, 'back': xs[::-1], 'comb': xs[1::2] + xs[::2]}[k]


def gains(S, c):
    """measured (if there), applied and commanded gain; what counts"""
    gm = S.real('measured', 1, 50) if S.choice('hasm', [True, False]) else None
    ga = S.choice('appl', [0., 'sym', -1.])
    ga = S.real('applied', 1, 50) if ga == 'sym' else ga
    return gm, ga, gm if gm is not None else S.ite(ga > 0, ga, c)


def content(S, stack, frames, label):
    """the stack holds exactly the data of these frames in this order"""
    S.eq(stack, S.np.array([f.data for f in frames]), label)


@harness('C08', quick=[dict(sets=2, per=2, nmean=2), dict(sets=2, per=1, nmean=1, rep=True), dict(sets=1, per=2, nmean=2, mixed=True)],
         thorough=[dict(sets=3, per=2, nmean=2, rep=True, mixed=True)])
def kgain_sets(S, sets=2, per=2, nmean=2, rep=False, mixed=False):
    """The calibration frames are grouped into sets of equal exposure time, a repeated exposure time gives two sets; the mean
    frames are kept apart, also if they share an exposure time; one gain is that of the measured, else applied, else commanded
    value."""
    tracking(S, False)
    ts = [S.real('t%d' % i, .1, 50) for i in range(sets)]
    for i in range(sets):
        for j in range(i):
            S.assume(S.or_(ts[i] > ts[j] + 1e-2, ts[i] < ts[j] - 1e-2))
    tm = ts[S.choice('mt', list(range(sets)))] if mixed else S.real('tm', 60, 70)
    gain = S.choice('gain', [1., 2.5])
    gm, ga, want = gains(S, gain)
    k, mean, cal, groups = 0, [], [], []
    for _ in range(nmean):
        mean.append(frame(S, k, 'MNFRAME', tm))
        k += 1
    for i, t in enumerate(ts + ([ts[0]] if rep else [])):
        g = []
        for _ in range(per):
            g.append(frame(S, k, 'KGAIN', t, gain, gm=gm, ga=ga))
            k += 1
        cal += g
        groups.append(g)
    ds = data.Dataset(order(S, mean + cal))
    s0 = [snap(f) for f in ds.frames]
    listed = list(ds.frames)
    stack, mstack, got = kgain_dataset_2_list(ds)
    content(S, mstack, [f for f in listed if f.pri_hdr['OBSNAME'] == 'MNFRAME'], 'mean frames are those labelled so')
    S.same(sorted(len(s) for s in stack), [per] * len(groups), 'one stack per set of exposures')
    ident = lambda d: int(d[0, 0])
    byid = {ident(f.data): f for f in cal}
    seen = []
    for s in stack:
        fs = [byid[ident(d)] for d in s]
        content(S, s, fs, 'frames as they are')
        seen += [f.filename for f in fs]
        for f in fs[1:]:
            S.check(f.ext_hdr['EXPTIME'] == fs[0].ext_hdr['EXPTIME'], 'same exposure time in a stack')
        pos = [listed.index(f) for f in fs]
        S.same(pos, sorted(pos), 'frames of a stack in their order')
    S.same(sorted(seen), sorted(f.filename for f in cal), 'every calibration frame once')
    S.eq(got, want, 'gain: measured, else applied, else commanded', tol=1e-9)
    for f, s in zip(ds.frames, s0):
        unchanged(S, f, s)
    attached(S, ds, 'input stays attached')


@harness('C08', quick=[dict(ng=2, per=2, nmean=2), dict(ng=2, per=1, nmean=2, same=True)], thorough=[dict(ng=3, per=2, nmean=3)])
def nonlin_sets(S, ng=2, per=2, nmean=2, same=False):
    """The calibration frames are grouped by commanded gain, with their exposure times and dates in the same order, one actual
    gain (measured, else applied, else commanded) per group; the mean frames are kept apart."""
    tracking(S, False)
    gs = [S.real('g%d' % i, 1.5, 90) for i in range(ng)]
    for i in range(ng):
        for j in range(i):
            S.assume(S.or_(gs[i] > gs[j] + 1e-2, gs[i] < gs[j] - 1e-2))
    if same:
        gs[0] = 1.
    tm = S.real('tm', 1, 9)
    k, mean, cal, want = 0, [], [], {}
    for _ in range(nmean):
        mean.append(frame(S, k, 'MNFRAME', tm))
        k += 1
    hasm = S.choice('hasm', [True, False])
    appl = S.choice('appl', [True, False])
    for i, g in enumerate(gs):
        gm = S.real('measured%d' % i, 1, 90) if hasm else None
        ga = S.real('applied%d' % i, 1, 90) if appl else -1.
        for j in range(per):
            f = frame(S, k, S.choice('obs%d' % i, ['NONLIN', 'KGAIN']), S.real('t%d' % k, .1, 50), g, gm=gm, ga=ga)
            want[k] = gm if hasm else ga if appl else g
            cal.append(f)
            k += 1
    ds = data.Dataset(order(S, mean + cal))
    listed = list(ds.frames)
    s0 = [snap(f) for f in ds.frames]
    stack, mstack, exp, dates, lens, act = nonlin_dataset_2_stack(ds)
    content(S, mstack, [f for f in listed if f.pri_hdr['OBSNAME'] == 'MNFRAME'], 'mean frames are those labelled so')
    S.same([int(n) for n in lens], [per] * ng, 'one group per gain')
    S.same(len(act), ng, 'one actual gain per group')
    byid = {int(f.data[0, 0]): f for f in cal}
    fs = [byid[int(d[0, 0])] for d in stack]
    content(S, stack, fs, 'frames as they are')
    S.same(sorted(f.filename for f in fs), sorted(f.filename for f in cal), 'every calibration frame once')
    for f, t, d in zip(fs, exp, dates):
        S.eq(t, f.ext_hdr['EXPTIME'], 'exposure time of the frame')
        S.same(str(d), f.ext_hdr['DATETIME'], 'date of the frame')
    for i in range(ng):
        grp = fs[i * per:(i + 1) * per]
        for f in grp:
            S.check(f.ext_hdr['EMGAIN_C'] == grp[0].ext_hdr['EMGAIN_C'], 'one commanded gain per group')
        S.eq(act[i], want[int(grp[0].data[0, 0])], 'gain: measured, else applied, else commanded (per group)', tol=1e-9)
    for f, s in zip(ds.frames, s0):
        unchanged(S, f, s)
    attached(S, ds, 'input stays attached')


BAD = {'gain<1': dict(gain=.5), 'exposure 0': dict(t=0.), 'exposure negative': dict(t=-1.), 'exposure integer': dict(t=3), 'same date': dict(when='2026-01-01T00:00:02'),
       'measured gain < 1': dict(gm=.5), 'applied gain < 1': dict(ga=.5), 'mean frame with gain': dict(obs='MNFRAME', gain=2.), 'date no text': dict(when=5)}


@harness('C08', quick=[dict()])
def refused(S):
    """Unphysical or inconsistent frames are refused in whatever place they come."""
    tracking(S, False)
    kind = S.choice('kind', sorted(BAD) + ['other gain', 'lengths', 'unknown label', 'mean exposures'])
    lin = S.choice('lin', [True, False])
    where = S.choice('where', [2, 5])
    fs = []
    for k in range(6):
        a = dict(obs='MNFRAME' if k < 2 else 'NONLIN' if lin else 'KGAIN', t=5. if k < 2 else 7. if k < 4 else 8., gain=1. if k < 2 or not lin else 3.)
        if k == where:
            a.update(BAD.get(kind, {}))
            if kind == 'same date' and k == 2:
                a['when'] = '2026-01-01T00:00:05'
            if kind == 'measured gain < 1':
                a['gm'] = S.real('gm', 0, .99)
            if kind == 'gain<1':
                a['gain'] = S.real('gain', .1, .99)
            if kind == 'other gain':
                a['gain'] = S.real('gain', 4, 99)
            if kind == 'unknown label':
                a['obs'] = 'DARK'
            if kind == 'mean exposures':
                a.update(obs='MNFRAME', gain=1., t=9.)
        fs.append(frame(S, k, a.pop('obs'), a.pop('t'), **a))
    if kind == 'measured gain < 1' or kind == 'applied gain < 1' or kind == 'mean exposures' or kind == 'unknown label':
        # of the first frame of a group; only the non-linearity sets know these labels
        if where == 5 and kind.endswith('< 1'):
            return
        if not lin and not kind.endswith('< 1'):
            return
    if lin and kind in ('other gain', 'lengths'):
        return
    if not lin and kind == 'lengths':
        fs.append(frame(S, 9, 'KGAIN', 8.))
    ds = data.Dataset(fs)
    S.raises(Exception, lambda: (nonlin_dataset_2_stack if lin else kgain_dataset_2_list)(ds), 'refused: ' + kind)


PAR = dict(rowroi1=0, rowroi2=2, colroi1=0, colroi2=2, rowback11=2, rowback12=3, rowback21=3, rowback22=4, colback11=0, colback12=2, colback21=0,
           colback22=2, min_exp_time=0, num_bins=2, min_bin=0, min_mask_factor=1.1)


def lowess(S):
    def f(endog, exog, frac=None, **k):
        """smoothing of a constant: the constant"""
        return S.np.array([[x, y] for x, y in zip(exog, endog)])
    return f


def straight(S):
    """interp1d of a constant"""
    class I:
        def __init__(self, x, y, kind='linear', fill_value=None, **k):
            for v in y:
                S.eq(v, 1., 'relative gain of a linear detector is one at every signal', tol=1e-6)

        def __call__(self, q):
            return S.np.ones(np.shape(q))
    return I


@harness('C08', quick=[dict(drifts=[0., .002, .02]), dict(ng=2, drifts=[.002, -.0015]), dict(reps=4, drifts=[-.0015, .01])], thorough=[dict(n=6), dict(ng=2), dict(reps=6, n=7)],
         stubs=['lowess: smoothing of a constant is that constant', 'interp1d: interpolation of a constant is that constant'])
def drift(S, ng=1, n=4, reps=2, drifts=(0., .002, -.0015, .02)):
    """A linear detector under linearly drifting illumination has relative gain one at every signal level and gain: the repeated
    exposures at the start and the end correct the drift. The table has the counts in rows and the actual gains in columns."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    stubs.use(S, **{'statsmodels.nonparametric.smoothers_lowess.lowess': lowess(S), 'scipy.interpolate.interp1d': straight(S)})

    def spot(v, bg):
        d = S.const(np.zeros((4, 2)))
        for i in np.ndindex(4, 2):
            d[i] = (v if i[0] < 2 and i != (1, 1) else 0.) + bg
        return d
    fs, k = [], 0
    for _ in range(2):
        fs.append(frame(S, k, 'MNFRAME', 5., dat=spot(1000., 0.)))
        k += 1
    gs = [1., 20.][:ng] if ng > 1 else [20.]
    act = []
    for i, g in enumerate(gs):
        rate = S.choice('rate%d' % i, [95., 210.]) if ng == 1 else [95., 210.][i]
        drift = S.choice('drift%d' % i, list(drifts))
        bg = S.real('bg%d' % i, -5, 5)
        ga = S.real('gain%d' % i, 1, 30)
        act.append(ga)
        t0 = k
        ts = [2.] + [4.] * (reps // 2) + [4. + 3 * (j + 1) for j in range(n - 2)] + [4.] * (reps - reps // 2)
        for t in ts:
            fs.append(frame(S, k, 'NONLIN' if g > 1 else 'KGAIN', t, g, ga=ga, dat=spot(rate * (t * (1 + drift * (k - t0))), bg)))
            k += 1
    ds = data.Dataset(fs)
    s0 = [snap(f) for f in ds.frames]
    lo, hi = S.choice('range', [(800., 2000.), (20., 14000.)])
    out = calibrate_nonlin.calibrate_nonlin(ds, n_cal=4, n_mean=2, norm_val=2000 if lo < 800 else 820, min_write=lo, max_write=hi,
                                            make_plot=False, nonlin_params=dict(PAR))
    counts = [20. * j for j in range(1, 701) if lo <= 20 * j <= hi]
    S.same(tuple(out.data.shape), (len(counts) + 1, ng + 1), 'one row per signal, one column per gain')
    S.eq(out.data[1:, 0], np.array(counts), 'signal levels asked for')
    S.check(np.isnan(out.data[0, 0]) if not S.symbolic else S.isnan(out.data[0, 0]), 'corner not a number')
    for i, g in enumerate(gs):
        col = [j for j in range(ng)]
        S.check(S.or_(*[out.data[0, 1 + j] == act[i] for j in col]), 'column for the actual gain')
    S.eq(out.data[1:, 1:], np.ones((len(counts), ng)), 'correction of a linear detector is one', tol=1e-6)
    S.same(out.ext_hdr['DATATYPE'], 'NonLinearityCalibration', 'type')
    S.check('c0_.fits' in [out.ext_hdr['FILE%d' % j] for j in range(len(fs))], 'inputs listed')
    for f, s in zip(ds.frames, s0):
        unchanged(S, f, s)


KPAR = dict(rowroi1=0, rowroi2=3, colroi1=0, colroi2=3, rn_bins1=-4, rn_bins2=4, max_DN_val=3000, signal_bins_N=4)


@harness('C08', quick=[dict()], stubs=['Gaussian fit of the read noise histogram: a symbolic width', 'histogram, prescan deviation, binned means and deviations: fixed values'])
def kgain_product(S):
    """The k-gain product holds one gain with error, the photon transfer curve and the read noise in electrons (the widths of the
    fitted Gaussians over sqrt 2 times the gain); it lists its inputs and leaves them as they are."""
    tracking(S, False)
    warnings.simplefilter('ignore')
    width, true = S.real('width', 1, 10), S.choice('true', [8., 6.5])
    calls = [0]
    mark = lambda k: 2. ** k / 64
    means = np.arange(18.).reshape(2, 3, 3) + 950
    good = means.mean(axis=0)
    used = []

    def ptc(frame_in, mean_frame, binwidth, max_DN):
        calls[0] += 1
        S.same(float(max_DN), 3000., 'largest signal')
        v = float(frame_in[0, 0])
        one = [k for k in range(15) if abs(v - 300 - mark(k)) < 1e-9]
        two = [(a, b) for a in range(15) for b in range(15) if a != b and a // 5 == b // 5 and abs(v - mark(a) + mark(b)) < 1e-9]
        S.check(len(one) + len(two) == 1, 'signals are measured in frames and noise in differences of frames of one set')
        if one:
            want, j = fs[2 + one[0]].data, one[0] // 5
            used.append(one[0])
        elif two:
            want, j = fs[2 + two[0][0]].data - fs[2 + two[0][1]].data, two[0][0] // 5
        if one or two:
            S.eq(frame_in, want, 'pixels of the frame')
            lvl = sum(f.data[p] for f in fs[2 + 5 * j:7 + 5 * j] for p in np.ndindex(3, 3)) / 45
            S.eq(mean_frame, good * (lvl / good.mean()), 'mean frame scaled to the light of the set', tol=1e-6)
        m = 500. + 60. * (calls[0] // 20) + 40. * np.arange(9.).reshape(3, 3)
        return m, np.sqrt(2 * (m / true * (1 + .01 * np.cos(calls[0] + np.arange(9.).reshape(3, 3))) + 16))
    for n, f in dict(Single_peakfit=lambda x, y: width, histc_roi=lambda *a, **k: np.zeros(7), diff2std=lambda *a, **k: 4., ptc_bin2=ptc).items():
        S.setattr(calibrate_kgain, n, f)
    fs = [frame(S, k, 'MNFRAME', 5., dat=S.const(means[k])) for k in range(2)]
    ga = S.real('ga', 1, 2)
    for k in range(15):
        d = S.const(np.full((3, 3), 300. + k))
        d[0, 0] = 300 + mark(k)
        d[1, 2], d[2, 0] = S.real('c%d' % k, 300, 500), S.real('d%d' % k, 300, 500)
        fs.append(frame(S, 2 + k, 'KGAIN', 1. + k // 5, ga=ga, dat=d))
    ds = data.Dataset(fs)
    s0 = [snap(f) for f in ds.frames]
    out = calibrate_kgain.calibrate_kgain(ds, n_cal=3, n_mean=2, min_val=400, max_val=2800, binwidth=10, make_plot=False, kgain_params=dict(KPAR))
    S.same(sorted(set(used)), list(range(15)), 'signals of all frames')
    k = out.data[0, 0]
    S.check(S.and_(k > .97 * true, k < 1.03 * true), 'gain from the shot noise')
    ok = ~np.isnan(out.ptc[:, 0])
    S.check(ok.sum() >= 2, 'points on the photon transfer curve')
    S.check(np.all(abs(out.ptc[ok, 1] ** 2 * true / out.ptc[ok, 0] - 1) < .05), 'photon transfer curve: shot noise without read noise')
    S.eq(out.data, np.array([[k]]), 'gain is the data')
    S.eq(out.ext_hdr['RN'], width / np.sqrt(2) * k, 'read noise in electrons', tol=1e-6)
    S.same(out.ext_hdr['RN_UNIT'], 'detected electrons', 'unit')
    S.eq(out.ext_hdr['RN_ERR'], width / np.sqrt(2) * out.err[0, 0, 0], 'read noise error from that of the gain', tol=1e-6)
    S.same(tuple(out.ptc.shape)[1], 2, 'photon transfer curve: means and deviations')
    S.same(sorted(out.ext_hdr['FILE%d' % i] for i in range(17)), sorted(f.filename for f in fs), 'inputs listed')
    for f, s in zip(ds.frames, s0):
        unchanged(S, f, s)
    attached(S, ds, 'input stays attached')


@harness('C08', quick=[dict(), dict(vals=[120., 260., 120., 500., 260., 640.])], thorough=[dict(shape=(4, 3), bw=2, vals=[50., 350., 150., 250., 260., 340., 355., 799., 100., 200., 300., 400.])])
def transfer(S, shape=(2, 3), bw=1, vals=(250., 100., 420., 260., 300., 10.), top=600.):
    """Signals and noise of the photon transfer curve are means and standard deviations over all pixels whose mean signal lies in one
    of equal intervals, in rising order; the read noise of a difference is that of one frame; histograms count its prescan pixels."""
    shape = tuple(shape)
    f = S.array('f', shape, -100, 100)
    ref = f.copy()
    mean = np.array(vals).reshape(shape)
    m, n = calibrate_kgain.ptc_bin2(f, mean, bw, top)
    nb = -(-shape[0] // bw) * -(-shape[1] // bw)
    step = top / nb
    k = 0
    seen = []
    for i, j in np.ndindex(*m.shape):
        if i >= -(-shape[0] // bw) - 1 or j >= -(-shape[1] // bw) - 1:
            S.eq(m[i, j], 0, 'empty')
            continue
        k += 1
        pix = [q for q in np.ndindex(*shape) if k * step <= mean[q] < (k + 1) * step]
        if not pix:
            S.eq(m[i, j], 0, 'no pixel with this signal')
            S.eq(n[i, j], 0, 'no pixel with this signal')
            continue
        a = sum(ref[q] for q in pix) / len(pix)
        S.eq(m[i, j], a, 'mean of the pixels', tol=1e-9)
        S.eq(n[i, j] ** 2, sum((ref[q] - a) ** 2 for q in pix) / len(pix), 'deviation of the pixels', tol=1e-6)
        S.check(n[i, j] >= 0, 'deviation not negative')
        seen.append(pix)
    S.check(len(seen) > 0, 'some signals')


@harness('C08', quick=[dict()])
def prescan_noise(S):
    """The read noise from a frame difference is the standard deviation of its reliable prescan over the square root of two, and the
    histogram counts exactly the reliable prescan pixels."""
    reg = dict(SCI=dict(frame_rows=3, frame_cols=4, image=dict(rows=2, cols=1, r0c0=[0, 3]), prescan=dict(rows=3, cols=3, r0c0=[0, 0], col_start=1, col_end=3),
                        prescan_reliable=dict(rows=2, cols=2, r0c0=[1, 1])))
    d = S.array('d', (3, 4), -3, 3)
    sd = calibrate_kgain.diff2std(d, reg)
    v = [d[1 + i, 1 + j] for i in range(2) for j in range(2)]
    a = sum(v) / 4
    S.eq(sd * sd, sum((q - a) ** 2 for q in v) / 6, 'noise of one frame', tol=1e-6)
    S.check(sd >= 0, 'noise not negative')
    bins = np.array([-2, 0, 1])
    h = calibrate_kgain.histc_roi(d, bins, reg)
    S.same(len(h), 2, 'bins')
    S.eq(h[0], sum(S.ite(S.and_(q >= -2, q < 0), 1, 0) for q in v), 'counts of the first bin')
    S.eq(h[1], sum(S.ite(S.and_(q >= 0, q <= 1), 1, 0) for q in v), 'counts of the last bin')
