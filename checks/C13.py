"""Trap-pump calibration: illumination, trap laws, dipoles, fits, location and product."""
import types
import warnings

import numpy as np

from symnp.reg import harness
from .common import *
from .L01 import med
from corgidrp import pump_trap_calibration as ptc

K = 8.6173e-5


@harness('C13', quick=[dict(shape=(3, 2), binsize=2), dict(shape=(2, 5), binsize=2), dict(shape=(1, 3), binsize=1), dict(shape=(2, 2), binsize=3), dict(shape=(3, 3), binsize=None)],
         thorough=[dict(shape=(5, 4), binsize=2), dict(shape=(4, 5), binsize=3), dict(shape=(2, 4), binsize=5)])
def illumination(S, shape, binsize):
    """From every pixel the median of its own square of the detector (the last ones take the remainder) is subtracted, or the
    median of the whole image; what was subtracted is reported; the image stays as it is."""
    shape = tuple(shape)
    img = S.array('x', shape, -50, 50)
    was = np.array(img, dtype=object)
    local = S.choice('local', [True, False])
    cor, ill = ptc.illumination_correction(img, binsize, local)

    def block(i, n):
        if not local or binsize is None or n < binsize:
            return 0, n
        k = min(i // binsize, n // binsize - 1)
        return k * binsize, n if k == n // binsize - 1 else (k + 1) * binsize
    for p in np.ndindex(shape):
        (a, b), (c, d) = block(p[0], shape[0]), block(p[1], shape[1])
        m = med(S, [was[i, j] for i in range(a, b) for j in range(c, d)])
        S.eq(cor[p], was[p] - m, 'median of the own square subtracted', tol=1e-9)
        S.eq(ill[p], m, 'subtracted level reported', tol=1e-9)
        S.eq(img[p], was[p], 'image unchanged')


def e(x):
    return float(np.exp(x))


def law(k, t, tau):
    a, b = {1: (1, 2), 2: (2, 3), 3: (1, 4)}[k]
    return e(-a * t / tau) - e(-b * t / tau)


@harness('C13', quick=[dict()])
def laws(S):
    """The dipole amplitudes of one trap follow the probability function of its number, those of two traps are the sum; the
    release time follows E and cross section, with its propagated error."""
    t = np.array([0., 2e-5, 1e-4, 3e-3])
    off, n = S.real('off', -20, 20), S.real('n', 1, 5000)
    tc, tau, tc2, tau2 = 3e-5, S.choice('tau', [1e-4, 4e-3]), 7e-5, 6e-4
    one = lambda k, i, tc, tau: n * (1 - e(-t[i] / tc)) * law(k, t[i], tau)
    for k in (1, 2, 3):
        r = getattr(ptc, 'P%d' % k)(t, off, tc, tau, num_pumps=n)
        for i in range(len(t)):
            S.eq(r[i], off + one(k, i, tc, tau), 'probability function P%d' % k, tol=1e-9)
    for k, l in ((1, 1), (1, 2), (2, 2), (3, 3), (2, 3)):
        r = getattr(ptc, 'P%d_P%d' % (k, l))(t, off, tc, tau, tc2, tau2, num_pumps=n)
        for i in range(len(t)):
            S.eq(r[i], off + one(k, i, tc, tau) + one(l, i, tc2, tau2), 'two traps P%d P%d' % (k, l), tol=1e-9)
    T, E = S.choice('T', [160., 185.]), S.choice('E', [.2, .3])
    cs, sE, sc = S.real('cs', .5, 50), S.real('sE', 0, .05), S.real('sc', 0, 5)
    r = ptc.tau_temp(T, E, cs)
    Eg = 1.1692 - 4.9e-4 * T ** 2 / (T + 655)
    m = 6 ** (2 / 3) * ((.1905 * 1.1692 * 9.109e-31 / Eg) ** 2 * .1963 * 9.109e-31) ** (1 / 3)
    N = 2 * (2 * np.pi * m * 1.381e-23 * T / 6.626e-34 ** 2) ** 1.5
    want = e(E / (K * T)) / (N * np.sqrt(3 * 1.381e-23 * T / m) * 1e-19)
    S.eq(r * cs / want, 1., 'release time for energy level and cross section', tol=1e-6)
    c = S.choice('c', [2., 7.])
    s = ptc.sig_tau_temp(T, E, c, sE, sc)
    S.eq((s * (c * c / want)) ** 2, sc ** 2 + (c * sE / (K * T)) ** 2, 'error of the release time', tol=1e-5)


@harness('C13', quick=[dict(n=1, limit=1), dict(n=2, limit=2, edge=True), dict(n=3, limit=2, flip=True)], thorough=[dict(n=3, limit=3, flip=True, free=3), dict(n=4, limit=2, flip=True, free=3)])
def dipoles(S, n=1, limit=1, edge=False, flip=False, free=2):
    """A dipole is a pixel above and its neighbour in the next or previous row below the threshold, in at least the required
    number of frames; it is listed once, as above, below or both, with its amplitudes in frame order, its times and levels."""
    R, C = 4, 2
    f, col = (S.choice('f', [1., 1.5]), S.choice('col', [0, 1])) if n == 1 else (1.5, 1)
    stack = S.const(np.zeros((n, R, C)))
    rows = []
    for z in range(n):
        hi = 2 if not edge else S.choice('row', [0, 3]) if z == 0 else 3
        lo = hi + 1 if hi == 0 or (flip and z % 2) else hi - 1
        stack[z, hi, col] = S.real('a%d' % z, -100, 100) if z < free else 60.
        stack[z, lo, col] = S.real('b%d' % z, -100, 100) if n == 1 else -40.
        rows.append((hi, lo))
    was = np.array(stack, dtype=object)
    t = [1e-6 * (7 - z) for z in range(n)]
    mn, mx = S.array('mn', (R, C), 0, 5), S.array('mx', (R, C), 5, 9)
    above, below, both = ptc.trap_id(stack, mn, mx, t, f, limit)
    # what is bright and dark: the median of a frame with two pixels that are not zero is zero
    up, lw = {}, {}
    for z in range(n):
        a, b = [was[z, r, col] for r in rows[z]]
        var = (a * a + b * b) / (R * C) - ((a + b) / (R * C)) ** 2
        for r, x in zip(rows[z], (a, b)):
            S.assume(S.or_(x * x > f * f * var + 1e-3, x * x < f * f * var - 1e-3, x == 0))
            big = S.truth(x * x > f * f * var)
            up[z, r] = big and S.truth(x > 0)
            lw[z, r] = big and S.truth(x < 0)
    for r in range(R):
        for c in range(C):
            za = [z for z in range(n) if c == col and up.get((z, r)) and lw.get((z, r + 1))]
            zb = [z for z in range(n) if c == col and up.get((z, r)) and lw.get((z, r - 1))]
            isa, isb = len(za) >= limit, len(zb) >= limit
            S.same(((r, c) in above, (r, c) in below, (r, c) in both), (isa and not isb, isb and not isa, isa and isb), 'dipole listed once, where it belongs')
            for d, key, there in ((above, 'amps_above', isa and not isb), (below, 'amps_below', isb and not isa), (both, 'amps_both', isa and isb)):
                if there and (r, c) in d:
                    S.eq(d[r, c][key], was[:, r, c], 'amplitudes in the order of the frames')
                    S.eq(d[r, c]['loc_med_min'], mn[r, c], 'lowest level of the pixel')
                    S.eq(d[r, c]['loc_med_max'], mx[r, c], 'highest level of the pixel')
            if isa and isb and (r, c) in both:
                for k, zs in (('above', za), ('below', zb)):
                    S.eq(both[r, c][k]['amp'], S.np.array([was[z, r, c] for z in zs]), 'amplitudes of each dipole of a pixel with both')
                    S.same([float(x) for x in both[r, c][k]['t']], [t[z] for z in zs], 'times of each dipole of a pixel with both')


def fits(S, true, sig):
    """an ideal fit: it finds the parameters if the model reproduces the data, and ends far from the data otherwise"""
    def f(model, x, y, p0=None, bounds=None, **kw):
        p = np.array(p0, dtype=float)
        k = len(p)
        r = None
        if k in true:
            q = S.np.array(true[k])
            r = model(x, *true[k])
            if all(S.truth(S.and_(r[i] - y[i] < 1e-9, y[i] - r[i] < 1e-9)) for i in range(len(x))):
                cov = S.const(np.zeros((k, k)))
                for i in range(k):
                    cov[i, i] = sig[i] ** 2
                return q, cov
        return S.np.array([500. + i for i in range(k)]), S.const(np.eye(k))
    return f


def shim(S, f):
    import scipy.optimize
    S.setattr(scipy.optimize, 'curve_fit', f)
    if hasattr(ptc, 'curve_fit'):
        S.setattr(ptc, 'curve_fit', f)


@harness('C13', quick=[dict(const=True), dict(const=False), dict(const=True, two=True), dict(const=False, two=True), dict(const=True, two=True, both=True), dict(const=False, two=True, both=True)],
         stubs=['curve_fit: an ideal fit, which returns the true parameters for the model that reproduces the data and far-off ones otherwise'])
def fit(S, const=True, two=False, both=False):
    """The fit of a dipole reports the probability function that made it, with capture and release time and their own errors;
    two traps in a pixel are told apart, also by orientation."""
    scheme = S.choice('scheme', [1, 2, 3, 4])
    ks = [1, 2] if scheme < 3 else [3, 2]
    combos = [(k,) for k in ks] if not two else [(1, 1), (1, 2), (2, 2)] if scheme < 3 else [(3, 3), (2, 3), (2, 2)]
    ps = combos[S.choice('law', list(range(len(combos))))]
    t = np.array([1e-5, 4e-5, 1e-4, 2e-4, 5e-4, 1e-3, 4e-3])
    off, pump = 1.5 if two else S.real('off', -5, 5), 1000
    taus = [1.5e-4, 8e-4]
    if two and S.choice('swap', [False, True]):
        taus = taus[::-1]
    if const:
        caps = [.5 if two else S.real('pc', .4, .6), .8]
        c = lambda j, i: caps[j]
    else:
        caps = [2e-6, 3e-6]
        c = lambda j, i: 1 - e(-t[i] / caps[j])
    y = S.np.array([off + sum(pump * c(j, i) * law(k, t[i], taus[j]) for j, k in enumerate(ps)) for i in range(len(t))])
    par = [off]
    for j in range(len(ps)):
        par += [caps[j], taus[j]]
    sig = [.1, S.real('s1', .01, 1), S.real('s2', .01, 1), S.real('s3', .01, 1), S.real('s4', .01, 1)]
    shim(S, fits(S, {len(par): par}, sig))
    bounds = (0, 2) if const else (0, 1e-5)
    a = None
    if both:
        # the dipole above peaks at the time of the maximum of the first or second trap
        own = S.choice('first', [True, False])
        peak = {1: np.log(2), 2: np.log(1.5), 3: 2 * np.log(2) / 3}[ps[0 if own else 1]] * taus[0 if own else 1]
        a = dict(amp=np.array([3., 9., 5.]), t=np.array([peak / 7, peak, peak * 7]))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = (ptc.trap_fit_const if const else ptc.trap_fit)(scheme, y, t, pump, .9, 0.7e-6, 1.3e-2, bounds[0], bounds[1], -10, 10, **(dict(both_a=a) if both else {}))
    S.check(r is not None, 'dipole is fitted')
    if r is None:
        return
    ent = [(ps[j], [caps[j], sig[1 + 2 * j], taus[j], sig[2 + 2 * j]]) for j in range(len(ps))]

    def entry(got, want, label):
        for g, w, nm in zip(got, want, ('capture', 'error of capture', 'release time', 'error of release time')):
            S.eq(g, w, label + nm, tol=1e-6)
    if both:
        x, y = (ent[0], ent[1]) if own else (ent[1], ent[0])
        S.same(sorted(r), ['a', 'b'], 'one trap above, one below')
        for key, (k, w) in (('a', x), ('b', y)):
            S.same(list(r[key]), [k], 'probability function of the trap ' + key)
            if k in r[key]:
                S.same(len(r[key][k]), 1, 'one trap per orientation')
                entry(r[key][k][0], w, 'trap %s: ' % key)
        return
    S.same(sorted(r), sorted(set(ps)), 'probability functions found')
    for k in sorted(set(ps)):
        w = [v for kk, v in ent if kk == k]
        got = r.get(k, [])
        S.same(len(got), len(w), 'traps per probability function')
        for g, v in zip(got, w):
            entry(g, v, '')


PLACES = {  # location: (scheme, orientation, probability function) that have to agree
    'LHSel2': ((1, 'above', 2), (2, 'below', 1), (4, 'above', 3)), 'RHSel2': ((1, 'above', 1), (2, 'below', 2), (4, 'below', 3)),
    'LHSel4': ((1, 'below', 1), (2, 'above', 2), (3, 'above', 3)), 'RHSel4': ((1, 'below', 2), (2, 'above', 1), (3, 'below', 3)),
    'LHSel1': ((1, 'below', 1), (3, 'below', 3)), 'CENel1': ((3, 'below', 2), (4, 'above', 2)), 'RHSel1': ((1, 'above', 1), (4, 'above', 3)),
    'CENel2': ((1, 'above', 1), (2, 'below', 1)), 'LHSel3': ((2, 'below', 1), (4, 'below', 3)), 'CENel3': ((3, 'above', 2), (4, 'below', 2)),
    'RHSel3': ((2, 'above', 1), (3, 'above', 3)), 'CENel4': ((1, 'below', 1), (2, 'above', 1))}
CODE = {'LHS': 10, 'CEN': 20, 'RHS': 30}


class Pumped:
    """a campaign whose dipoles and fits are recorded values; what the analysis asks for is kept"""

    def __init__(self, S, temps, traps, order=1, pumps=2000, amps=None, per=None, level=0.):
        # traps: {temp: {scheme: {orientation: {(row, col): {prob: [[cap, cerr, tau, terr]..]}}}}}
        self.S, self.traps, self.asked, self.frames = S, traps, [], []
        self.amps = amps or {}
        self.per = per or {}
        k, fr = 0, []
        self.where = {}
        for T in temps:
            for s in (1, 2, 3, 4):
                for j in range(self.per.get(s, 2)):
                    self.where[k + 1.] = (T, s)
                    dat = S.const(np.full((2, 3), float(level)))
                    fr.append(image(S, tag='p%d' % k, shape=(2, 3), dat=dat, err=S.const(np.zeros((1, 2, 3))), dq=S.const(np.zeros((2, 3), dtype=np.uint16)),
                                    ext=dict(EXCAMT=T, TPTAU=k + 1., ARRTYPE='SCI', **{'TPSCHEM%d' % i: pumps if i == s else 0 for i in (1, 2, 3, 4)}),
                                    filename='tp%d_.fits' % k))
                    k += 1
        from corgidrp.data import Dataset
        self.ds = Dataset(fr[::order])
        S.setattr(ptc, 'trap_id', self.trap_id)
        S.setattr(ptc, 'trap_fit', self.trap_fit)
        S.setattr(ptc, 'trap_fit_const', self.trap_fit)
        S.setattr(ptc, 'fit_cs', self.fit_cs)
        self.cs = []
        self.seen = []

    def trap_id(self, frames, mn, mx, timings, thresh_factor=None, length_limit=None, **kw):
        S = self.S
        key = {self.where[round(float(x) * 1e6)] for x in timings}
        assert len(key) == 1
        T, s = key.pop()
        self.seen.append((T, s, len(frames), length_limit, self.S.np.array(frames)))
        out = {'above': {}, 'below': {}}
        for o in out:
            for px in self.traps.get(T, {}).get(s, {}).get(o, {}):
                a = self.amps.get((T, s, o, px), 500.)
                out[o][px] = {'amps_' + o: S.np.array([a / 2, a]), 'loc_med_min': S.const(np.array(0.))[()], 'loc_med_max': S.const(np.array(1.))[()]}
        both = {}
        for px in [p for p in out['above'] if p in out['below']]:
            A, B = out['above'].pop(px)['amps_above'], out['below'].pop(px)['amps_below']
            both[px] = {'amps_both': S.np.array([A[0], A[1], B[0], B[1]]), 'loc_med_min': S.const(np.array(0.))[()], 'loc_med_max': S.const(np.array(1.))[()],
                        'above': {'amp': A, 't': np.array([1e-6, 2e-6])}, 'below': {'amp': B, 't': np.array([3e-6, 4e-6])}}
        self.now = (T, s)
        self.order = [('above', p) for p in out['above']] + [('below', p) for p in out['below']] + [('both', p) for p in both]
        return out['above'], out['below'], both

    def trap_fit(self, scheme, amps, times, num_pumps, *a, both_a=None, **kw):
        T, s = self.now
        assert scheme == s
        self.asked.append((T, s, int(num_pumps)))
        o, px = self.order.pop(0)
        tr = self.traps[T][s]
        cp = lambda d: {k: [list(x) for x in v] for k, v in d.items()}
        if o == 'both':
            assert both_a is not None
            return {'a': cp(tr['above'][px]), 'b': cp(tr['below'][px])}
        d = tr[o][px]
        return None if d is None else cp(d)

    def fit_cs(self, taus, errs, temps, *a, **kw):
        self.cs.append((list(taus), list(errs), [float(t) for t in temps], a))
        k = len(self.cs)
        return .2 + .1 * k, .01, 2e-15 * k, 1e-16, .95, self.S.const(np.array(1e-6 * k))[()], 1e-8

    def run(self, **kw):
        import contextlib, io
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            return ptc.tpump_analysis(self.ds, bin_size=None, **kw)


def entry(S, name, tau0=1e-4):
    """capture, its error, release time in units of its scale, its error"""
    return [S.real(name + 'c', .1, 1), S.real(name + 'ce', .01, .1), S.real(name + 't', .5, 2), S.real(name + 'te', .01, .2)]


def big(S, xs):
    m = xs[0]
    for x in xs[1:]:
        m = S.ite(x > m, x, m)
    return m


def small(S, xs):
    m = xs[0]
    for x in xs[1:]:
        m = S.ite(x < m, x, m)
    return m


@harness('C13', quick=[dict(), dict(const=False, back=True)], stubs=['detection and fits of dipoles: recorded values; fit of the cross section: recorded values'])
def location(S, const=True, back=False):
    """A trap is placed at the sub-electrode location whose schemes, orientations and probability functions agree, with the
    window of release times of all of them, at every temperature; it is listed once with the documented code."""
    tracking(S, False)
    place = S.choice('place', sorted(PLACES))
    temps = [170., 160.]
    px = (1, 2)
    traps, ent = {}, {}
    for T in temps:
        traps[T] = {}
        for s, o, k in PLACES[place]:
            ent[T, s] = entry(S, 'T%d_%d' % (T, s))
            traps[T].setdefault(s, {}).setdefault(o, {})[px] = {k: [ent[T, s]]}
        # scheme 1 always has a trap somewhere, which belongs to no location
        traps[T].setdefault(1, {}).setdefault('above', {}).setdefault((0, 0), {1: [[.5, .1, 1., .1]]})
    P = Pumped(S, temps, traps, order=-1 if back else 1, per={2: 3} if back else None)
    s0 = [snap(f) for f in P.ds.frames]
    out = P.run(tfit_const=const, input_T=175.)
    S.same(out.data.shape, (1, 10), 'one trap')
    S.same([int(v) for v in out.data[0, :4]], [px[0], px[1], CODE[place[:3]] + int(place[-1]), 0], 'place of the trap')
    S.same(len(P.cs), 1, 'one fit of the cross section')
    taus, errs, ts, rest = P.cs[0]
    S.same(ts, sorted(temps), 'temperatures in order')
    S.same(rest[-1], 175., 'temperature asked for')
    for i, T in enumerate(sorted(temps)):
        w = [ent[T, s] for s, o, k in PLACES[place]]
        up, lo = big(S, [x[2] + x[3] for x in w]), small(S, [x[2] - x[3] for x in w])
        S.eq(taus[i], (up + lo) / 2, 'release time', tol=1e-9)
        S.eq(errs[i], (up - lo) / 2, 'half width of the window', tol=1e-9)
    first = PLACES[place][0]
    S.eq(out.data[0, 4], ent[160., first[0]][0], 'capture', tol=1e-9)
    S.eq(out.data[0, 6:9], S.np.array([.3, 2e-15, .95]), 'energy, cross section, quality of fit')
    S.eq(out.data[0, 9], 1e-6, 'release time at the temperature asked for')
    S.same(out.ext_hdr['BADFITCT'], 0, 'no bad fit')
    S.same(out.ext_hdr['PRSBELCT'], 2 * (len(PLACES[place]) + 1), 'dipoles counted')
    S.same((out.ext_hdr['TWOORLES'], out.ext_hdr['NONCONTC'], out.ext_hdr['UNTEMPFD']), (1, 0, 0), 'counters')
    S.check(all(a[2] == 2000 for a in P.asked), 'number of pumps')
    S.same({(T, s): n for T, s, n, _, _ in P.seen}, {(T, s): P.per.get(s, 2) for T in temps for s in (1, 2, 3, 4)}, 'every frame goes into its scheme and temperature')
    for f, s in zip(P.ds.frames, s0):
        unchanged(S, f, s)
    coherent(S, P.ds, 'input: ')
    S.same(sorted(out.ext_hdr['FILE%d' % i] for i in range(out.ext_hdr['DRPNFILE'])), sorted(f.filename for f in P.ds.frames), 'inputs listed')


@harness('C13', quick=[dict(), dict(temps=2)], stubs=['detection and fits of dipoles: recorded values; fit of the cross section: recorded values'])
def pairs(S, temps=1):
    """Two traps at the same location: fits are paired across schemes so that the window of release times is smallest, each used
    once; across temperatures a trap keeps the nearest release time."""
    tracking(S, False)
    px = (0, 1)
    Ts = [160., 170.][:temps]
    traps, A, B = {}, {}, {}
    for T in Ts:
        if temps == 1:
            A[T] = [[S.real('ca%d' % i, .1, 1), .1, S.real('ta%d' % i, .5, 2), .1 + .05 * i] for i in range(2)]
            B[T] = [[.4, .1, S.real('tb%d' % i, .5, 2), .08 * (1 + i)] for i in range(2)]
        else:
            A[T] = [[.5, .1, S.real('T%d_%d' % (T, i), .5, 2), .1] for i in range(2)]
            B[T] = [[.4, .1, A[T][i][2], .1] for i in range(2)]
            S.assume(S.or_(A[T][0][2] > A[T][1][2] + 1e-2, A[T][0][2] < A[T][1][2] - 1e-2))
        traps[T] = {1: {'above': {px: {1: A[T]}}}, 2: {'below': {px: {1: B[T]}}}}
    P = Pumped(S, Ts, traps)
    out = P.run()
    S.same(sorted([int(v) for v in r[:4]] for r in out.data), [[0, 1, 22, 0], [0, 1, 22, 1]], 'two traps at the location')
    win = lambda x, y: (small(S, [x[2] - x[3], y[2] - y[3]]), big(S, [x[2] + x[3], y[2] + y[3]]))
    if temps == 1:
        a, b = A[160.], B[160.]
        ws = {(i, j): win(a[i], b[j]) for i in range(2) for j in range(2)}
        wid = {k: v[1] - v[0] for k, v in ws.items()}
        ks = sorted(wid)
        for i, k in enumerate(ks):
            for l in ks[:i]:
                S.assume(S.or_(wid[k] > wid[l] + 1e-3, wid[k] < wid[l] - 1e-3))
        best = ks[0]
        for k in ks[1:]:
            if S.truth(wid[k] < wid[best]):
                best = k
        other = (1 - best[0], 1 - best[1])
        for row, k in ((0, best), (1, other)):
            taus, errs, _, _ = P.cs[row]
            S.eq(taus[0], (ws[k][0] + ws[k][1]) / 2, 'pair with the smallest window first', tol=1e-9)
            S.eq(errs[0], wid[k] / 2, 'half width of its window', tol=1e-9)
            S.eq(out.data[row, 4], a[k[0]][0], 'capture of the pair', tol=1e-9)
        return
    # the first trap of the first temperature takes the nearest of the second, the other the rest
    t0, t1 = [x[2] for x in A[160.]], [x[2] for x in A[170.]]
    n0 = P.cs[0][0]
    S.same([len(c[0]) for c in P.cs], [2, 2], 'both temperatures used')
    for c in P.cs[:1]:
        x = c[0][0]
        d = [(t1[i] - x) * (t1[i] - x) for i in range(2)]
        S.assume(S.or_(d[0] > d[1] + 1e-3, d[0] < d[1] - 1e-3))
        S.eq(c[0][1], S.ite(d[0] < d[1], t1[0], t1[1]), 'nearest release time at the next temperature', tol=1e-9)
    S.eq(P.cs[0][0][0] + P.cs[1][0][0], t0[0] + t0[1], 'every release time of the first temperature used once', tol=1e-9)
    S.eq(P.cs[0][0][1] + P.cs[1][0][1], t1[0] + t1[1], 'every release time of the second temperature used once', tol=1e-9)


@harness('C13', quick=[dict(), dict(k=2), dict(field=True), dict(both=True)], stubs=['detection and fits of dipoles: recorded values; fit of the cross section: recorded values'])
def electrons(S, k=1, field=False, both=False):
    """The amplitudes of scheme 1 set the electrons per count: the median peak is the largest amplitude there can be; the
    frames of the other schemes and the amplitudes of the product are in electrons."""
    tracking(S, False)
    px = (1, 1)
    amp = [S.real('amp%d' % i, 10, 400) for i in range(3)]
    if both:
        # peaks above (0) and below (1) at one pixel; the recorded peak of the pixel is their maximum
        traps = {160.: {1: {'above': {px: {1: [entry(S, 'a')]}}, 'below': {px: {1: [entry(S, 'b')]}}}, 4: {'above': {px: {3: [entry(S, 'c')]}}}}}
        amps = {(160., 1, 'above', px): amp[0], (160., 1, 'below', px): amp[1]}
        peak = big(S, amp[:2])
    else:
        traps = {160.: {1: {'above': {px: {1: [entry(S, 'a')]}, (0, 0): {k: [[.5, .1, 1., .1]]}}, 'below': {(0, 2): {k: [[.5, .1, 1., .1]]}}}, 4: {'above': {px: {3: [entry(S, 'c')]}}}}}
        amps = {(160., 1, 'above', px): amp[0], (160., 1, 'above', (0, 0)): amp[1], (160., 1, 'below', (0, 2)): amp[2]}
        peak = med(S, amp)
    lev = S.real('lev', 50, 900) if field else None
    P = Pumped(S, [160.], traps, amps=amps, level=3.)
    for f in P.ds.frames:
        f.data[0, 1] = 8.
    out = P.run(k_prob=k, mean_field=lev, ill_corr=False)
    top = 2000 * (1 / 4 if k == 1 else 4 / 27)
    mx = small(S, [lev, top]) if field else top
    S.same([int(v) for v in out.data[0, :4]], [1, 1, 31, 0], 'trap of schemes 1 and 4')
    S.eq(out.data[0, 5] * peak, amp[0] * mx, 'amplitude in electrons', tol=1e-6)
    for T, s, n, lim, fr in P.seen:
        S.same(lim, 2, 'number of frames asked for')
        for z in range(n):
            S.eq(fr[z][0, 1] * (1 if s == 1 else peak), 5. * (1 if s == 1 else mx), 'frames in electrons, less their level', tol=1e-6)
            S.eq(fr[z][1, 1], 0., 'level subtracted', tol=1e-9)


@harness('C13', quick=[dict(n=1), dict(n=2)])
def product(S, n=2):
    """A trap calibration holds per trap its place, location code, number, capture time, amplitude, energy, cross section,
    quality and release time, lists its inputs and leaves their headers alone; the traps come back from it."""
    tracking(S, False)
    ds = dataset(S, 2, shape=(1, 1), filename_i=lambda i: 'cgi_t%d_L2a_.fits' % i)
    s0 = [snap(f) for f in ds.frames]
    d, want = {}, []
    for i in range(n):
        loc = S.choice('loc', sorted(PLACES)) if i == 0 else 'CENel3'
        key = ((3, S.choice('c%d' % i, [0, 7]) if i else 7), loc, S.choice('k%d' % i, [0, 1]))
        if key in d:
            key = key[:2] + (1 - key[2],)
        v = {k: S.real('%s%d' % (k, i), .1, 9) for k in ('cap', 'amp', 'E', 'cs', 'Rsq', 'tau')}
        none = S.choice('none', [False, True]) if i == 0 else False
        d[key] = {'T': [160], 'tau': [1.], 'sigma_tau': [.1], 'cap': [[v['cap'], .1, v['amp'], 5., .2, 6.], [7., 7., 7., 7., 7., 7.]],
                  'E': None if none else v['E'], 'cs': None if none else v['cs'], 'Rsq': None if none else v['Rsq'], 'tau at input T': None if none else v['tau'],
                  'sig_E': .1, 'sig_cs': .1, 'sig_tau at input T': .1}
        want.append((key, v, none))
    out = ptc.create_TrapCalibration_from_trap_dict(d, ds)
    S.same(out.data.shape, (n, 10), 'one row per trap')
    for i, (key, v, none) in enumerate(want):
        r = out.data[i]
        S.same([int(x) for x in r[:4]], [key[0][0], key[0][1], CODE[key[1][:3]] + int(key[1][-1]), key[2]], 'place, location code and number')
        S.eq(r[4], v['cap'], 'capture')
        S.eq(r[5], v['amp'], 'amplitude')
        for j, k in ((6, 'E'), (7, 'cs'), (8, 'Rsq'), (9, 'tau')):
            if none:
                S.check(S.isnan(r[j]), 'no fit: NaN')
            else:
                S.eq(r[j], v[k], 'fitted ' + k)
    S.same(out.ext_hdr['DATATYPE'], 'TrapCalibration', 'data type')
    S.same(sorted(out.ext_hdr['FILE%d' % i] for i in range(out.ext_hdr['DRPNFILE'])), [f.filename for f in ds.frames], 'inputs listed')
    for f, s in zip(ds.frames, s0):
        unchanged(S, f, s)
    back = ptc.rebuild_dict(out.data)
    if len(set(k for k, _, _ in want)) == n:
        S.same(sorted(((int(a[0]), int(a[1])), b, c) for a, b, c in back), sorted(k for k, _, _ in want), 'traps come back')
        for k, got in back.items():
            key = ((int(k[0][0]), int(k[0][1])), k[1], k[2])
            v, none = [(v, none) for kk, v, none in want if kk == key][0]
            if not none:
                S.eq(got['E'], v['E'], 'energy comes back')
                S.eq(got['tau at input T'], v['tau'], 'release time comes back')


@harness('C13', quick=[dict()], stubs=['curve_fit: recorded parameters'])
def cross_section(S):
    """Energy level and cross section of the better determined fit are reported with their units and errors, the release time at
    the temperature asked for and its error follow from them; too few temperatures or a failed fit give nothing."""
    T = np.array([160., 165., 170., 175.])
    E, cs = .25, S.choice('cs', [2., 11.])
    s = {True: [S.real('sE', .001, .1), S.real('sc', .01, 2)], False: [S.real('fE', .001, .1), S.real('fc', .01, 2)]}
    mode = S.choice('mode', ['ok', 'few', 'fail'])
    errs = S.choice('errs', [[.1, .1, .1, .1], [.1, .3, 0., .2]])
    calls = []

    def cf(model, x, y, p0=None, sigma=None, absolute_sigma=False, check_finite=None, bounds=None, **kw):
        calls.append([None] if sigma is None else [float(v) for v in sigma])
        if mode == 'fail':
            raise RuntimeError('no fit')
        c = S.const(np.zeros((2, 2)))
        for i in range(2):
            c[i, i] = s[bool(absolute_sigma)][i] ** 2
        return S.np.array([E, cs]), c
    shim(S, cf)
    if mode == 'few':
        T = np.array([160., 165., 165., 160.])
    unit = [ptc.tau_temp(float(t), E, 1.) for t in T]
    dev = S.choice('dev', [-.04, .02])
    y = S.np.array([unit[i] / cs * (1 + (dev if i == 1 else 0)) for i in range(4)])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = ptc.fit_cs(y, np.array(errs), T, .8, 0, 1, 0, 50, 180.)
    if mode != 'ok':
        S.same(tuple(r), (None,) * 7, 'no fit: nothing')
        return
    S.check(all(len(c) == 4 and all(0 < g < 1e-6 if e == 0 else abs(g - e) < 1e-9 for g, e in zip(c, errs)) for c in calls), 'fits weighted by the errors')
    w = s[True] if S.truth(s[True][0] + s[True][1] >= s[False][0] + s[False][1]) else s[False]
    q = np.array([unit[i] / cs for i in range(4)])
    yy = np.array([float(v) for v in y])
    S.eq(r[4], 1 - ((yy - q) ** 2).sum() / ((yy - yy.mean()) ** 2).sum() * 3 / 2, 'quality of the fit', tol=1e-6)
    S.eq(r[0], E, 'energy level')
    S.eq(r[1], w[0], 'error of the energy level', tol=1e-9)
    S.eq(r[2] / 1e-15, cs, 'cross section in square centimetres', tol=1e-9)
    S.eq(r[3] / 1e-15, w[1], 'its error', tol=1e-9)
    u = ptc.tau_temp(180., E, 1.)
    S.eq(r[5] * cs / u, 1., 'release time at the temperature asked for', tol=1e-6)
    S.eq((r[6] * cs * cs / u) ** 2, w[1] ** 2 + (cs * w[0] / (K * 180.)) ** 2, 'error of the release time', tol=1e-5)
