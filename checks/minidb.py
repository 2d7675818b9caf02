"""A table stand-in for pandas on the symbolic side of the calibration-database checks (cells may be symbolic)."""
import io
import operator
import os

import numpy as np
import astropy.time
import pandas


class Col:
    def __init__(self, S, xs, idx=None):
        self.S, self.xs = S, list(xs)
        self.idx = Index(range(len(self.xs)) if idx is None else idx)

    def _map(self, f, o=None):
        if o is None:
            return Col(self.S, [f(x) for x in self.xs], self.idx)
        os_ = o.xs if isinstance(o, Col) else list(o) if isinstance(o, (list, np.ndarray)) else [o] * len(self.xs)
        return Col(self.S, [f(x, y) for x, y in zip(self.xs, os_)], self.idx)

    def __and__(self, o):
        return self._map(lambda x, y: self.S.and_(x, y), o)

    def __or__(self, o):
        return self._map(lambda x, y: self.S.or_(x, y), o)

    def __invert__(self):
        return self._map(lambda x: self.S.not_(x))

    def __neg__(self):
        return self._map(lambda x: -x)

    def __abs__(self):
        return self._map(abs)
    abs = __abs__

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from symnp.core import EngineLimit
        if method == '__call__' and ufunc in (np.absolute, np.fabs) and inputs[0] is self:
            return abs(self)
        if method == '__call__' and ufunc in (np.floor, np.square):
            return self._map({np.floor: lambda x: x // 1, np.square: lambda x: x * x}[ufunc])
        if method == '__call__' and ufunc in (np.logical_and, np.logical_or):
            return self & inputs[1] if ufunc is np.logical_and else self | inputs[1]
        if method == '__call__' and ufunc in UFUNCS:
            a, b = inputs
            if a is self:
                return self._map(UFUNCS[ufunc], b)
            return self._map(lambda x, y: UFUNCS[ufunc](y, x), a)
        raise EngineLimit('%s of a table column' % ufunc)

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        from symnp.core import EngineLimit
        raise EngineLimit('column method %s' % n)

    def argmin(self):
        return self._arg(lambda a, b: a < b)

    def argmax(self):
        return self._arg(lambda a, b: a > b)

    def _arg(self, better):
        if not self.xs:
            raise ValueError('attempt to get argmin of an empty sequence')
        k = 0
        for i in range(1, len(self.xs)):
            if better(self.xs[i], self.xs[k]):
                k = i
        return k

    def idxmin(self):
        return self.idx[self.argmin()]

    def idxmax(self):
        return self.idx[self.argmax()]

    def min(self):
        return self.xs[self.argmin()]

    def max(self):
        return self.xs[self.argmax()]

    def argsort(self):
        return np.array(_order(self.xs))

    def any(self):
        return bool(self.S.or_(*self.xs)) if self.xs else False

    def all(self):
        return bool(self.S.and_(*self.xs)) if self.xs else True

    def apply(self, f):
        return self._map(f)

    def astype(self, t):
        return self

    def isin(self, vs):
        return self._map(lambda x: x in vs)

    @property
    def values(self):
        if all(isinstance(x, str) for x in self.xs):
            return np.array(self.xs, dtype=object)
        return self.S.np.array(self.xs)

    def to_numpy(self):
        return self.values

    def tolist(self):
        return list(self.xs)

    def __len__(self):
        return len(self.xs)

    def __iter__(self):
        return iter(self.xs)

    def __getitem__(self, i):
        if isinstance(i, Col):
            keep = [j for j, m in enumerate(i.xs) if m]
            return Col(self.S, [self.xs[j] for j in keep], [self.idx[j] for j in keep])
        return self.xs[self.idx.index(int(i))]

    @property
    def iloc(self):
        return self.xs

    @property
    def loc(self):
        return self

    @property
    def index(self):
        return self.idx

    @property
    def empty(self):
        return not self.xs


def _order(xs):
    """stable order of possibly symbolic values"""
    out = []
    for i in range(len(xs)):
        k = len(out)
        while k and xs[i] < xs[out[k - 1]]:
            k -= 1
        out.insert(k, i)
    return out


def _bin(f):
    return lambda self, o: self._map(f, o), lambda self, o: self._map(lambda x, y: f(y, x), o)


UFUNCS = {}
for _n, _u in dict(add=np.add, sub=np.subtract, mul=np.multiply, truediv=np.true_divide, floordiv=np.floor_divide, mod=np.mod, pow=np.power,
                   eq=np.equal, ne=np.not_equal, lt=np.less, le=np.less_equal, gt=np.greater, ge=np.greater_equal).items():
    _f = getattr(operator, _n)
    UFUNCS[_u] = _f
    _l, _r = _bin(_f)
    setattr(Col, '__%s__' % _n, _l)
    if _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
        setattr(Col, '__r%s__' % _n, _r)


class Index(list):
    @property
    def values(self):
        return np.array(list(self), dtype=int)

    def __getitem__(self, k):
        if isinstance(k, (list, np.ndarray)):
            return Index(list.__getitem__(self, int(i)) for i in k)
        return list.__getitem__(self, k)


class Columns(list):
    @property
    def values(self):
        return list(self)


class Cells:
    def __init__(self, rows):
        self.rows = rows

    def __contains__(self, v):
        return any(isinstance(x, type(v)) and bool(x == v) for r in self.rows for x in r)


class Loc:
    def __init__(self, f, pos):
        self.f, self.pos = f, pos

    def __getitem__(self, k):
        if self.pos:
            if isinstance(k, tuple):
                r, c = k
                return self.f.rows[r][c]
            return Row(self.f, self.f.rows[k])
        if isinstance(k, tuple):
            r, c = k
            if isinstance(r, (int, np.integer)):
                return self.f.rows[self.f.idx.index(int(r))][self.f.columns.index(c)]
            s = self.f[r]
            return s[c] if isinstance(c, str) else s
        if isinstance(k, (int, np.integer)):
            return Row(self.f, self.f.rows[self.f.idx.index(int(k))])
        return self.f[k]

    def __setitem__(self, k, v):
        r, c = k
        c = [c] if isinstance(c, str) else list(c)
        v = [v] if len(c) == 1 and not isinstance(v, (list, tuple)) else list(v)
        if isinstance(r, Col):
            rows = [i for i, m in enumerate(r.xs) if m]
        else:
            rows = [self.f.idx.index(int(i)) for i in np.atleast_1d(np.asarray(r))]
        for i in rows:
            for q, x in zip(c, v):
                self.f.rows[i][self.f.columns.index(q)] = x


class Row:
    def __init__(self, f, r):
        self.f, self.r = f, r

    def __getitem__(self, k):
        return self.r[k] if isinstance(k, int) else self.r[self.f.columns.index(k)]


class Frame:
    def __init__(self, S, rows=(), columns=None, idx=None):
        self.S = S
        self.columns = Columns(columns)
        self.rows = [list(r) for r in rows]
        self.idx = Index(range(len(self.rows)) if idx is None else idx)

    def __len__(self):
        return len(self.rows)

    def _sel(self, keep):
        return Frame(self.S, [self.rows[i] for i in keep], self.columns, [self.idx[i] for i in keep])

    def __getitem__(self, k):
        if isinstance(k, str):
            j = self.columns.index(k)
            return Col(self.S, [r[j] for r in self.rows], self.idx)
        if isinstance(k, Col):
            return self._sel([i for i, m in enumerate(k.xs) if m])
        if isinstance(k, (list, np.ndarray)) and all(isinstance(x, str) for x in k):
            js = [self.columns.index(x) for x in k]
            return Frame(self.S, [[r[j] for j in js] for r in self.rows], list(k), self.idx)
        from symnp.core import EngineLimit
        raise EngineLimit('table selection by %s' % type(k))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        from symnp.core import EngineLimit
        raise EngineLimit('table method %s' % n)

    @property
    def loc(self):
        return Loc(self, False)

    @property
    def iloc(self):
        return Loc(self, True)

    @property
    def values(self):
        return Cells(self.rows)

    @property
    def index(self):
        return self.idx

    @property
    def empty(self):
        return not self.rows

    def drop(self, labels=None, index=None, axis=0):
        ls = [int(x) for x in np.atleast_1d(np.asarray(list(labels if labels is not None else index)))]
        return self._sel([i for i in range(len(self.rows)) if self.idx[i] not in ls])

    def reset_index(self, drop=False):
        return Frame(self.S, self.rows, self.columns)

    def sort_values(self, by, ascending=True, ignore_index=False):
        o = _order(self[by if isinstance(by, str) else by[0]].xs)
        f = self._sel(o if ascending else o[::-1])
        return f.reset_index() if ignore_index else f

    def iterrows(self):
        return [(i, Row(self, r)) for i, r in zip(self.idx, self.rows)]

    @property
    def shape(self):
        return (len(self.rows), len(self.columns))

    def head(self, n=5):
        return self._sel(range(min(n, len(self.rows))))

    def copy(self, deep=True):
        return Frame(self.S, self.rows, self.columns, self.idx)

    def to_csv(self, path, index=True):
        open(path, 'a').close()
        STORE[os.path.abspath(path)] = ([list(r) for r in self.rows], list(self.columns))


STORE = {}


def _parsed(x, kw):
    """a concrete number as the real reader gives it back"""
    if type(x) in (float, np.float64) and x == x:
        b = io.StringIO()
        pandas.DataFrame({'a': [x]}).to_csv(b, index=False)
        b.seek(0)
        return float(pandas.read_csv(b, dtype={'a': float}, **{k: v for k, v in kw.items() if k in ('float_precision', 'engine')})['a'][0])
    return x


class PD:
    """what corgidrp.caldb sees as pandas"""
    def __init__(self, S):
        self.S = S

    def DataFrame(self, rows=(), columns=None, **kw):
        return Frame(self.S, rows if rows is not None else (), columns)

    def read_csv(self, path, **kw):
        rows, cols = STORE[os.path.abspath(path)]
        return Frame(self.S, [[_parsed(x, kw) for x in r] for r in rows], cols)

    def concat(self, fs, ignore_index=False, **kw):
        fs = list(fs)
        return Frame(self.S, [r for f in fs for r in f.rows], fs[0].columns, None if ignore_index else [i for f in fs for i in f.idx])


class Times:
    """astropy.time with symbolic modified Julian dates"""
    class Time:
        def __init__(self, v, *a, **k):
            self.t = None
            if isinstance(v, str) or type(v) is float and k:
                self.t = astropy.time.Time(v, *a, **k)
            else:
                self.v = v

        @property
        def mjd(self):
            return self.t.mjd if self.t is not None else self.v

        def __getattr__(self, n):
            return getattr(self.__dict__['t'], n)

        @staticmethod
        def now():
            return astropy.time.Time.now()


def stand_in(S):
    """use the stand-ins on the symbolic side"""
    STORE.clear()
    if S.symbolic:
        from corgidrp import caldb, data
        S.setattr(caldb, 'pd', PD(S))
        S.setattr(caldb, 'time', Times)
        S.setattr(data.Image, 'get_hash', lambda self: 'hash')


def stamp(S, mjd):
    """a header time stamp for a day (symbolic number, or text on the concrete side)"""
    return mjd if S.symbolic else astropy.time.Time(float(mjd), format='mjd').isot
