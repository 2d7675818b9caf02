"""Runs corgidrp's source symbolically: an import hook compiles the package's
current source after a mechanical rewrite of call sites that CPython would not
dispatch to symbolic operands (float(x), type(x), max(...), ...), and hands the
modules proxies of numpy, numpy.ma, math and scipy that understand symbolic
operands.  Nothing of the package's own code is replaced or summarised here.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import math
import os
import sys
import types
import warnings

from fractions import Fraction

import numpy as np

from . import core, arr
from .swap import KEEP, Gap
from .core import (Sym, SymBool, SymReal, SymInt, SymStr, EngineLimit, is_sym, ite, mkbool, tbool)
from .arr import SymArray, GSel, GIdx, asarr, sym_array, raw, any_sym_deep, norm_dtype, wrap, _o

MAXSYM = 6000          # largest array created by the code under test that is held symbolically
CREATED_NATIVE = []    # shapes that exceeded it

# ----------------------------------------------------------------------------
# builtins


def b_float(x=0.0):
    if isinstance(x, SymArray):
        x = x._one()
    t = type(x)
    if t is SymStr:
        return float(x.concretise())
    if is_sym(x):
        v, n, i = core.lift_real(x)
        return core.mkreal(v, n, i)
    return float(x)


def b_int(x=0, *a):
    if isinstance(x, SymArray):
        x = x._one()
    t = type(x)
    if t is SymStr:
        return int(x.concretise(), *a)
    if t is SymReal:
        return core.real_to_int(x)
    if t in (SymInt, SymBool):
        x = core.to_int(x)
        if type(x) is SymInt and x.bv:
            return core.mkint(core.z3.simplify(core.as_int_term(x)))
        return x
    return int(x, *a)


def b_bool(x=False):
    if is_sym(x) and type(x) is not SymStr:
        return mkbool(tbool(x))
    return bool(x)


def b_str(*a, **k):
    if len(a) == 1 and type(a[0]) is SymStr:
        return a[0]
    if len(a) == 1 and type(a[0]) is SymInt:
        return str(core.concretise_int(a[0], limit=12))
    return str(*a, **k)


def b_round(x, n=None):
    if is_sym(x):
        return x.__round__(n)
    if isinstance(x, SymArray):
        return np.round(x, n or 0)
    return round(x, n) if n is not None else round(x)


def b_type(*a):
    if len(a) == 1:
        t = type(a[0])
        if t is SymReal:
            return float
        if t is SymInt:
            return int
        if t is SymBool:
            return bool
        if t is SymStr:
            return str
        if t is SymArray:
            return np.ndarray
        return t
    return type(*a)


def b_minmax(mx):
    f0 = max if mx else min

    def f(*a, **k):
        if k:
            return f0(*a, **k)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if any(is_sym(x) for x in xs) and all(core.is_num(x) for x in xs):
            acc = xs[0]
            for x in xs[1:]:
                c = (x > acc) if mx else (x < acc)
                acc = ite(c, x, acc)
            return acc
        return f0(xs)
    return f


b_max, b_min = b_minmax(True), b_minmax(False)


def b_isinstance(x, cls):
    if isinstance(x, (SymArray,)) and cls is np.ndarray:
        return True
    return isinstance(x, cls)


def b_cast(f, x):
    """np.float64(x) and friends"""
    if isinstance(f, type) and issubclass(f, np.generic):
        dt = np.dtype(f)
        if is_sym(x):
            return arr.cast_scalar(x, dt)
        if isinstance(x, SymArray):
            r = arr.cast(x, dt)
            return raw(r)[()] if r.ndim == 0 else r
    return f(x)


def b_sorted(xs, key=None, reverse=False):
    return sorted(xs, key=key, reverse=reverse)


REWRITE = {'float': b_float, 'int': b_int, 'bool': b_bool, 'str': b_str, 'round': b_round, 'type': b_type,
           'max': b_max, 'min': b_min}
CASTS = {'float64', 'float32', 'int64', 'int32', 'int16', 'uint8', 'uint16', 'uint32', 'uint64', 'bool_', 'int_',
         'str_', 'float_'}


# ----------------------------------------------------------------------------
# numpy proxy

class SymMasked:
    """The subset of numpy.ma.MaskedArray semantics corgidrp relies on."""
    __array_priority__ = 3000.0
    _symmasked = True

    def __init__(self, data, mask=False, **k):
        if isinstance(data, SymMasked):
            mask = np.logical_or(asarr(data.mask), mask)
            data = data.data
        self.data = sym_array(data)
        m = asarr(mask) if mask is not np.ma.nomask else asarr(False)
        self.mask = wrap(np.array(np.broadcast_to(raw(arr.cast(m, arr.B1)), self.data.shape)), arr.B1)

    shape = property(lambda s: s.data.shape)
    ndim = property(lambda s: s.data.ndim)
    size = property(lambda s: s.data.size)
    dtype = property(lambda s: s.data.dtype)

    def __array__(self, *a, **k):
        raise EngineLimit('masked array converted')

    def _red(self, fn, axis, ld):
        """fn(values, masks) -> (value, mask) per output cell"""
        d, m = raw(self.data), raw(self.mask)
        ax = arr._norm_axes(axis, d.ndim)
        keep = [i for i in range(d.ndim) if i not in ax]
        osh = tuple(d.shape[i] for i in keep)
        dt_ = np.transpose(d, keep + list(ax)).reshape(osh + (-1,))
        mt_ = np.transpose(m, keep + list(ax)).reshape(osh + (-1,))
        o = np.ndarray(osh, dtype=object)
        om = np.ndarray(osh, dtype=object)
        for i in np.ndindex(osh):
            o[i], om[i] = fn(list(dt_[i]), [tbool(x) for x in mt_[i]])
        r = SymMasked(wrap(o, ld), wrap(om, arr.B1))
        if not osh:
            return raw(r.data)[()]
        return r

    @staticmethod
    def _cnt(ms):
        n = 0
        for m in ms:
            n = n + core.to_int(mkbool(core.b_not(m)))
        return n

    @staticmethod
    def _guard_sum(xs, ms):
        s = 0.0 if any(isinstance(x, float) or type(x) is SymReal for x in xs) else 0
        for x, m in zip(xs, ms):
            s = s + ite(m, s * 0 if not is_sym(s) else 0, x)
        return s

    def sum(self, axis=None, **k):
        ld = self.data.dtype if self.data.dtype.kind == 'f' else arr.I8
        return self._red(lambda xs, ms: (self._guard_sum(xs, ms), mkbool(core.b_and(*ms))), axis, ld)

    def count(self, axis=None):
        r = self._red(lambda xs, ms: (self._cnt(ms), False), axis, arr.I8)
        return r.data if isinstance(r, SymMasked) else r

    def _mean1(self, xs, ms):
        allm = core.fold(core.b_and(*ms))
        if allm is True:
            return 0.0, True
        n = self._cnt(ms)
        nn = ite(allm, 1, n)
        return ite(allm, 0.0, core.r_div(self._guard_sum(xs, ms), nn)), mkbool(allm)

    def mean(self, axis=None, **k):
        return self._red(self._mean1, axis, arr.F8)

    def var(self, axis=None, ddof=0, **k):
        def f(xs, ms):
            mu, am = self._mean1(xs, ms)
            s = 0.0
            for x, m in zip(xs, ms):
                d = core.r_sub(x, mu)
                s = core.r_add(s, ite(m, 0.0, core.r_mul(d, d)))
            n = self._cnt(ms) - ddof
            bad = n <= 0
            nn = ite(bad, 1, n)
            return ite(bad, 0.0, core.r_div(s, nn)), mkbool(tbool(bad))
        return self._red(f, axis, arr.F8)

    def std(self, axis=None, ddof=0, **k):
        v = self.var(axis=axis, ddof=ddof)
        if isinstance(v, SymMasked):
            return SymMasked(np.sqrt(v.data), v.mask)
        return core.r_sqrt(v)

    def filled(self, fill_value=None):
        if fill_value is None:
            raise EngineLimit('default fill value')
        return np.where(self.mask, fill_value, self.data)

    def copy(self):
        return SymMasked(self.data, self.mask)

    def __getitem__(self, k):
        d, m = self.data[k], self.mask[k]
        if isinstance(d, np.ndarray):
            return SymMasked(d, m)
        if not is_sym(m):
            return np.ma.masked if m else d
        return np.ma.masked if bool(m) else d

    def __setitem__(self, k, v):
        self.data[k] = v
        self.mask[k] = False

    def __len__(self):
        return len(self.data)

    def _un(self, name):
        return SymMasked(getattr(np, name)(self.data), self.mask)

    def __neg__(self):
        return self._un('negative')

    def __abs__(self):
        return self._un('absolute')

    def __array_ufunc__(self, uf, method, *ins, **kw):
        if method != '__call__' or kw.get('out') is not None:
            raise EngineLimit('masked ufunc ' + method)
        ds, ms = [], False
        for x in ins:
            if isinstance(x, SymMasked):
                ds.append(x.data)
                ms = np.logical_or(ms, x.mask)
            elif isinstance(x, np.ma.MaskedArray):
                ds.append(np.ma.getdata(x))
                ms = np.logical_or(ms, np.ma.getmaskarray(x))
            else:
                ds.append(x)
        if uf.__name__ in ('divide', 'true_divide'):
            ms = np.logical_or(ms, np.equal(ds[1], 0))
        r = arr.array_ufunc(uf, '__call__', tuple(ds), {})
        return SymMasked(r, ms)

    def __array_function__(self, func, types_, args, kwargs):
        n = func.__name__
        if n in ('sum', 'mean', 'std', 'var') and args and isinstance(args[0], SymMasked):
            return getattr(args[0], n)(*args[1:], **kwargs)
        raise EngineLimit('masked ' + n)


def _mabin(name, rev=False):
    uf = getattr(np, name)

    def m(self, o):
        return self.__array_ufunc__(uf, '__call__', *((o, self) if rev else (self, o)))
    return m


for _p, _u in dict(add='add', sub='subtract', mul='multiply', truediv='true_divide', pow='power').items():
    setattr(SymMasked, '__%s__' % _p, _mabin(_u))
    setattr(SymMasked, '__r%s__' % _p, _mabin(_u, True))
for _p, _u in dict(lt='less', le='less_equal', gt='greater', ge='greater_equal', eq='equal', ne='not_equal').items():
    setattr(SymMasked, '__%s__' % _p, _mabin(_u))
SymMasked.__hash__ = object.__hash__


class MAProxy(types.ModuleType):
    def __init__(self):
        super().__init__('numpy.ma')

    MaskedArray = np.ma.MaskedArray
    masked = np.ma.masked
    nomask = np.ma.nomask

    def masked_array(self, data=None, mask=np.ma.nomask, **k):
        if any_sym_deep(data) or any_sym_deep(mask) or isinstance(data, SymMasked):
            return SymMasked(data, mask, **k)
        return np.ma.masked_array(data, mask=mask, **k)
    array = masked_array

    def getdata(self, a, *x, **k):
        return a.data if isinstance(a, SymMasked) else (a if isinstance(a, SymArray) else np.ma.getdata(a, *x, **k))

    def getmaskarray(self, a):
        return a.mask if isinstance(a, SymMasked) else np.ma.getmaskarray(a)

    def getmask(self, a):
        return a.mask if isinstance(a, SymMasked) else np.ma.getmask(a)

    def filled(self, a, fill_value=None):
        return a.filled(fill_value) if isinstance(a, SymMasked) else a

    def std(self, a, axis=None, ddof=0, **k):
        return a.std(axis=axis, ddof=ddof) if hasattr(a, 'std') else np.std(a, axis=axis, ddof=ddof)

    def var(self, a, axis=None, ddof=0, **k):
        return a.var(axis=axis, ddof=ddof)

    def mean(self, a, axis=None, **k):
        return a.mean(axis=axis)

    def sum(self, a, axis=None, **k):
        return a.sum(axis=axis)

    def sqrt(self, a):
        return SymMasked(np.sqrt(a.data), a.mask) if isinstance(a, SymMasked) else np.sqrt(a)

    def masked_invalid(self, a, *x, **k):
        if any_sym_deep(a):
            return SymMasked(a, np.logical_not(np.isfinite(a)))
        return np.ma.masked_invalid(a, *x, **k)

    def masked_where(self, c, a, *x, **k):
        if any_sym_deep(a) or any_sym_deep(c):
            return SymMasked(a, c)
        return np.ma.masked_where(c, a, *x, **k)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(np.ma, n)


def _size(shape):
    if isinstance(shape, (int, np.integer)) and not is_sym(shape):
        return int(shape)
    n = 1
    for s in shape:
        n *= int(s)
    return n


def _cshape(shape):
    if isinstance(shape, SymArray):
        shape = tuple(arr._conc_index(shape).tolist()) if shape.ndim else arr._conc_index(shape._one())
    if is_sym(shape):
        return int(arr._conc_index(shape))
    if isinstance(shape, (tuple, list)):
        return tuple(arr._conc_index(s) if is_sym(s) else int(s) for s in shape)
    return shape


def _creator(name):
    orig = _o[name]

    def f(shape, *a, **k):
        shape = _cshape(shape)
        if name == 'full':
            fill = a[0] if a else k.pop('fill_value')
            dt = norm_dtype(a[1] if len(a) > 1 else k.get('dtype'))
            if dt is None:
                dt = arr.scalar_dt(fill) if not isinstance(fill, np.ndarray) else asarr(fill).dtype
            if not isinstance(fill, np.ndarray):
                if dt.kind in 'fiub' and (_size(shape) <= MAXSYM or is_sym(fill)):
                    return wrap(arr._full_obj(shape, arr.cast_scalar(fill, dt)), dt)
                return orig(shape, fill, dtype=dt)
            r = wrap(arr._full_obj(shape, 0), dt)
            r[...] = fill
            return r
        dt = norm_dtype(a[0] if a else k.get('dtype')) or arr.F8
        if dt.kind in 'fiub' and _size(shape) <= MAXSYM:
            return wrap(arr._full_obj(shape, arr.cast_scalar({'zeros': 0, 'ones': 1, 'empty': 0}[name], dt)), dt)
        if dt == arr.OBJ and _size(shape) <= MAXSYM:
            return orig(shape, *a, **k)
        CREATED_NATIVE.append((name, shape))
        return orig(shape, *a, **k)
    f.__name__ = name
    return f


def _like_creator(name):
    orig = _o[name]

    def f(a, *args, **k):
        if isinstance(a, (SymArray, GSel)) or any_sym_deep(a) or \
                (np.size(a) <= MAXSYM and not k and np.asarray(a).dtype.kind in 'fiub'):
            if name == 'full_like' and not isinstance(a, SymArray):
                a = sym_array(a)
            return arr.FN[getattr(np, name)](a if isinstance(a, (SymArray, GSel)) else sym_array(a), *args, **k)
        return orig(a, *args, **k)
    return f


def p_array(x, dtype=None, copy=True, **k):
    if isinstance(x, SymMasked):
        return x.data.copy()
    if any_sym_deep(x):
        return sym_array(x, dtype=dtype, copy=bool(copy), ndmin=k.get('ndmin', 0))
    if isinstance(x, SymMasked):
        return x.data
    if dtype is not None:
        r = _o['array'](x, dtype=dtype, copy=copy, **k)
    else:
        r = _o['array'](x, copy=copy, **k)
    if r.dtype.kind in 'fiub' and r.size <= MAXSYM and r.size > 0:
        return sym_array(r)
    return r


def p_asarray(x, dtype=None, **k):
    if isinstance(x, SymMasked):
        return x.data
    if any_sym_deep(x):
        return sym_array(x, dtype=dtype, copy=False)
    return _o['asarray'](x, dtype=dtype) if dtype is not None else _o['asarray'](x)


def _concrete(x):
    """all-concrete SymArray -> native array"""
    if isinstance(x, SymArray) and not arr.has_sym(x):
        return raw(x).astype(x.dtype) if x.dtype != arr.OBJ else raw(x)
    if isinstance(x, (list, tuple)) and not hasattr(x, '_fields'):
        return type(x)(_concrete(v) for v in x)
    return x


def p_arange(*a, **k):
    a = [arr._conc_index(x) if type(x) in (SymInt, SymBool) else x for x in a]
    if any_sym_deep(a):
        # symbolic real bounds: the length is concretised by forking
        st, en, sp = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        n = b_int(core.r_ceil(core.r_div(core.r_sub(en, st), sp)))
        n = max(0, core.concretise_int(n) if is_sym(n) else n)
        return sym_array([st + i * sp for i in range(n)]) if n else _o['zeros'](0)
    return _o['arange'](*a, **k)


def p_linspace(start, stop, num=50, endpoint=True, **k):
    if any_sym_deep((start, stop)) and not any_sym_deep(num):
        d = (num - 1 if endpoint else num)
        return sym_array([start + (stop - start) * (i / d) if d else start for i in range(num)])
    return np.linspace(_concrete(start), _concrete(stop), arr._conc_index(num), endpoint=endpoint, **k)


def p_copy(a, *x, **k):
    return sym_array(a) if any_sym_deep(a) else _o['copy'](a, *x, **k)


def p_isscalar(x):
    return True if is_sym(x) else np.isscalar(x)


def p_vectorize(f, *a, **k):
    def g(*args):
        if any_sym_deep(args):
            bs = np.broadcast_arrays(*[raw(asarr(x)) for x in args])
            out = np.ndarray(bs[0].shape, dtype=object)
            for i in np.ndindex(out.shape):
                out[i] = f(*[b[i] for b in bs])
            return sym_array(wrap(out, arr.infer_ld(out)))
        return np.vectorize(f, *a, **k)(*args)
    return g


class UFProxy:
    """A ufunc that first turns nested lists with symbolic content into arrays."""

    def __init__(self, uf):
        object.__setattr__(self, '_uf', uf)

    def __call__(self, *a, **k):
        uf = self._uf
        if any(isinstance(x, SymMasked) for x in a):
            return uf(*a, **k)
        if any(isinstance(x, (list, tuple)) and any_sym_deep(x) for x in a):
            a = tuple(sym_array(x) if isinstance(x, (list, tuple)) else x for x in a)
        if any_sym_deep(a) or k.get('out') is not None and any_sym_deep(k['out']):
            kk = dict(k)
            if 'out' in kk and not isinstance(kk['out'], tuple):
                kk['out'] = (kk['out'],)
            return arr.array_ufunc(uf, '__call__', a, kk)
        return uf(*a, **k)

    def reduce(self, a, *x, **k):
        if any_sym_deep(a):
            names = ['axis', 'dtype', 'out', 'keepdims']
            k = dict(zip(names, x), **k)
            return arr.uf_reduce(self._uf, asarr(a) if not isinstance(a, GSel) else a, **k)
        return self._uf.reduce(a, *x, **k)

    def __getattr__(self, n):
        return getattr(self._uf, n)

    def __reduce__(self):
        return self._uf.__reduce__()


def _fnproxy(f):
    def g(*a, **k):
        if any_sym_deep(a) or any(any_sym_deep(v) for v in k.values()):
            a = tuple(sym_array(x) if isinstance(x, list) and any_sym_deep(x) and f not in _LISTOK else x for x in a)
            if f in arr.FN or getattr(f, '__name__', '') in arr.STRUCTURAL:
                return arr.array_function(f, (), a, k)
            # all concrete?  then use the native function
            if not any(_really_sym(x) for x in a) and not any(_really_sym(v) for v in k.values()):
                r = f(*[_concrete(x) for x in a], **{q: _concrete(v) for q, v in k.items()})
                return sym_array(r) if isinstance(r, np.ndarray) and r.dtype.kind in 'fiub' and r.size <= MAXSYM else r
            return arr.array_function(f, (), a, k)
        return f(*a, **k)
    try:
        g.__name__ = f.__name__
    except Exception:
        pass
    return g


def _really_sym(x):
    if isinstance(x, SymArray):
        return arr.has_sym(x)
    if isinstance(x, (GSel, GIdx)) or is_sym(x):
        return True
    if isinstance(x, (list, tuple)):
        return any(_really_sym(v) for v in x)
    if isinstance(x, np.ndarray) and arr.rawdt(x) == arr.OBJ:
        return any(is_sym(v) for v in x.flat)
    return False


_LISTOK = {np.concatenate, np.stack, np.vstack, np.hstack, np.dstack, np.column_stack, np.block, np.ix_, np.append,
           np.meshgrid, np.broadcast_arrays}


class LinalgProxy(types.ModuleType):
    def __init__(self):
        super().__init__('numpy.linalg')

    def norm(self, x, ord=None, axis=None, **k):
        if any_sym_deep(x):
            if ord not in (None, 2):
                raise EngineLimit('norm')
            return np.sqrt(np.sum(asarr(x) * asarr(x), axis=axis))
        return np.linalg.norm(x, ord=ord, axis=axis, **k)

    def inv(self, m):
        if _really_sym(m):
            m = asarr(m)
            if m.shape == (2, 2):
                a, b, c, d = [raw(m)[i] for i in np.ndindex(2, 2)]
                det = a * d - b * c
                return sym_array([[d / det, -b / det], [-c / det, a / det]])
            raise EngineLimit('inv')
        return np.linalg.inv(_concrete(m))

    def det(self, m):
        if _really_sym(m):
            m = asarr(m)
            if m.shape == (2, 2):
                a, b, c, d = [raw(m)[i] for i in np.ndindex(2, 2)]
                return a * d - b * c
            raise EngineLimit('det')
        return np.linalg.det(_concrete(m))

    def lstsq(self, a, b, rcond=None):
        """Least squares with symbolic right-hand side and a concrete design matrix: linear in b."""
        if _really_sym(a):
            raise EngineLimit('lstsq with a symbolic design matrix')
        if _really_sym(b):
            A = np.asarray(_concrete(a), dtype=float)
            P = np.linalg.pinv(A)
            P = np.where(np.abs(P) < 1e-13, 0, P)
            if asarr(b).ndim == 1:
                x = linear_map(P, asarr(b))
            else:
                x = arr.f_dot(sym_array(P), asarr(b))
            return x, np.zeros(0), np.linalg.matrix_rank(A), np.zeros(0)
        return np.linalg.lstsq(_concrete(a), _concrete(b), rcond=rcond)

    def pinv(self, a, *x, **k):
        if _really_sym(a):
            raise EngineLimit('pinv')
        return np.linalg.pinv(_concrete(a), *x, **k)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return shim(getattr(np.linalg, n), 'numpy.linalg.' + n)


class NPProxy(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.__dict__['_cache'] = {}

    def __getattr__(self, n):
        c = self.__dict__['_cache']
        if n in c:
            return c[n]
        v = getattr(np, n)
        if isinstance(v, np.ufunc):
            v = UFProxy(v)
        elif isinstance(v, type) or isinstance(v, (types.ModuleType,)) or not callable(v):
            pass
        elif n in ('c_', 'r_', 's_', 'mgrid', 'ogrid', 'index_exp', 'errstate', 'printoptions', 'dtype', 'finfo', 'iinfo',
                   'isscalar', 'random', 'broadcast_shapes', 'ndindex', 'ndenumerate'):
            pass
        else:
            v = _fnproxy(v)
        c[n] = v
        return v

    def __dir__(self):
        return dir(np)


def p_c_():
    class C:
        def __getitem__(self, k):
            if any_sym_deep(k):
                cols = [asarr(x) for x in k]
                cols = [x[:, None] if x.ndim == 1 else x for x in cols]
                return np.concatenate(cols, axis=1)
            return np.c_[k]
    return C()


def p_ndenumerate(a):
    if isinstance(a, SymArray):
        return ((i, raw(a)[i]) for i in np.ndindex(a.shape))
    return np.ndenumerate(a)


def p_indices(dims, *a, **k):
    return np.indices(_cshape(dims), *a, **k)


MESH = [False]   # coordinate grids that symbolic values are later stored into (set by a harness)


def p_meshgrid(*xs, **k):
    r = np.meshgrid(*[_concrete(x) for x in xs], **k) if not any(_really_sym(x) for x in xs) else arr.array_function(np.meshgrid, (), xs, k)
    return [sym_array(q) if MESH[0] and q.size <= MAXSYM and q.dtype.kind in 'fiub' else q for q in r]


def p_eye(n, *a, **k):
    r = np.eye(n, *a, **k)
    return sym_array(r) if r.size <= MAXSYM else r


def p_random():
    return np.random


def _fraction(v):
    """the simple fraction that a float weight of a least-squares fit stands for, if there is one within rounding"""
    f = Fraction(float(v)).limit_denominator(10 ** 5)
    return f if abs(float(f) - v) < 1e-14 * max(1., abs(v)) else float(v)


def linear_map(m, y):
    """m @ y for a concrete matrix and a symbolic vector"""
    ys = list(raw(y))
    out = np.ndarray((m.shape[0],), dtype=object)
    for i in range(m.shape[0]):
        t = 0.0
        for j, v in enumerate(ys):
            t = core.r_add(t, core.r_mul(_fraction(m[i, j]) if core.is_sym(v) else float(m[i, j]), v))
        out[i] = t
    return wrap(out, np.dtype(float))


def p_polyfit(x, y, deg, **k):
    if any_sym_deep((x, y)) and (_really_sym(x) or _really_sym(y)):
        y = asarr(y)
        if _really_sym(x) or y.ndim != 1 or k:
            raise EngineLimit('polyfit')
        return linear_map(np.polyfit(_concrete(x), np.eye(y.shape[0]), deg), y)
    return np.polyfit(_concrete(x), _concrete(y), deg, **k)


def p_corrcoef(*a, **k):
    if any(_really_sym(x) for x in a):
        raise EngineLimit('corrcoef')
    return np.corrcoef(*[_concrete(x) for x in a], **k)


def p_intersect1d(a, b, **k):
    if not _really_sym(a) and not _really_sym(b):
        return np.intersect1d(_concrete(a), _concrete(b), **k)
    raise EngineLimit('intersect1d')


def p_savetxt(*a, **k):
    return None


def build_np():
    p = NPProxy()
    d = p.__dict__
    for n in ('zeros', 'ones', 'empty', 'full'):
        d[n] = _creator(n)
    for n in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
        d[n] = _like_creator(n)
    d['array'] = p_array
    d['asarray'] = d['asanyarray'] = d['ascontiguousarray'] = p_asarray
    d['arange'] = p_arange
    d['linspace'] = p_linspace
    d['copy'] = p_copy
    d['isscalar'] = p_isscalar
    d['vectorize'] = p_vectorize
    d['ma'] = MAProxy()
    d['linalg'] = LinalgProxy()
    d['c_'] = p_c_()
    d['ndenumerate'] = p_ndenumerate
    d['indices'] = p_indices
    d['eye'] = p_eye
    d['meshgrid'] = p_meshgrid
    d['identity'] = p_eye
    d['polyfit'] = p_polyfit
    d['corrcoef'] = p_corrcoef
    d['intersect1d'] = p_intersect1d
    d['ndarray'] = np.ndarray
    d['__name__'] = 'numpy'
    d['__version__'] = np.__version__
    return p


class MathProxy(types.ModuleType):
    def __init__(self):
        super().__init__('math')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        f = getattr(math, n)
        if not callable(f):
            return f
        tr = {'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan', 'atan2': 'arctan2', 'pow': 'power'}

        def g(*a, **k):
            if not any_sym_deep(a):
                return f(*a, **k)
            a = [x._one() if isinstance(x, SymArray) else x for x in a]
            if n in ('floor', 'ceil', 'trunc'):
                r = {'floor': core.r_floor, 'ceil': core.r_ceil, 'trunc': core.r_trunc}[n](a[0])
                return core.real_to_int(r)
            if n == 'isclose':
                return arr.f_isclose(*a, **dict(dict(rtol=1e-9, atol=0.0), **{{'rel_tol': 'rtol', 'abs_tol': 'atol'}[q]: v for q, v in k.items()}))
            uf = arr.UF.get(tr.get(n, n))
            if uf is None:
                raise EngineLimit('math.' + n)
            return uf(*a)
        return g


# ----------------------------------------------------------------------------
# third-party shims

STUBS = {}       # 'scipy.ndimage.median_filter' -> replacement used for symbolic operands
USED = set()     # external functions that met symbolic operands


def shim(f, qual):
    if id(f) in KEEP:
        return f
    if isinstance(f, type) and not qual.startswith(('photutils', 'scipy.interpolate')) and qual not in STUBS:
        return f
    if not callable(f):
        return f

    def g(*a, **k):
        s = STUBS.get(qual)
        if s is not None:
            USED.add(qual)
            return s(*a, **k)
        if any(_really_sym(x) for x in a) or any(_really_sym(v) for v in k.values()):
            raise EngineLimit('symbolic operand to ' + qual)
        return f(*[_concrete(x) for x in a], **{q: _concrete(v) for q, v in k.items()})
    g.__name__ = getattr(f, '__name__', qual)
    g.__wrapped__ = f
    g._symnp_shim = True
    return g


class ModShim(types.ModuleType):
    def __init__(self, mod):
        super().__init__(mod.__name__)
        self.__dict__['_m'] = mod

    def __getattr__(self, n):
        if n.startswith('__'):
            return getattr(self._m, n)
        try:
            v = getattr(self._m, n)
        except AttributeError:
            v = importlib.import_module(self._m.__name__ + '.' + n)
        q = self._m.__name__ + '.' + n
        if isinstance(v, types.ModuleType):
            return ModShim(v)
        return shim(v, q)


SHIMMED = ('scipy', 'photutils', 'statsmodels', 'pyklip.klip', 'astropy.convolution', 'pyklip.fakes', 'pyklip.kpp')

NP = build_np()
MATH = MathProxy()


# ----------------------------------------------------------------------------
# pandas: the grouping of rows by (symbolic) values; contract: rows with equal keys form one group

class SymIndices:
    def __init__(self, items):
        self._items = items

    def __iter__(self):
        return iter([k for k, _ in self._items])

    def keys(self):
        return [k for k, _ in self._items]

    def values(self):
        return [np.array(v) for _, v in self._items]

    def items(self):
        return [(k, np.array(v)) for k, v in self._items]

    def __len__(self):
        return len(self._items)

    def __getitem__(self, key):
        for k, v in self._items:
            if k is key:
                return np.array(v)
        raise EngineLimit('looking up a group by an equal key')


class SymGroupBy:
    def __init__(self, rows):
        self.rows = rows

    @property
    def indices(self):
        groups = []
        for i, r in enumerate(self.rows):
            for g in groups:
                if all(bool(a == b) for a, b in zip(g[0], r)):
                    g[1].append(i)
                    break
            else:
                groups.append((r, [i]))
        # groups come out sorted by key
        out = []
        for g in groups:
            k = 0
            while k < len(out) and _tuple_lt(out[k][0], g[0]):
                k += 1
            out.insert(k, g)
        return SymIndices([(g[0][0] if len(g[0]) == 1 else g[0], g[1]) for g in out])

    groups = property(lambda self: {k: v for k, v in self.indices.items()})
    ngroups = property(lambda self: len(self.indices))

    def __getattr__(self, n):
        raise EngineLimit('grouped symbolic table: ' + n)


def _tuple_lt(a, b):
    for x, y in zip(a, b):
        if isinstance(x, str) != isinstance(y, str):
            x, y = str(x), str(y)
        if bool(x < y):
            return True
        if bool(y < x):
            return False
    return False


class SymFrame:
    def __init__(self, cols, names):
        self.cols, self.names = cols, list(names)

    def groupby(self, by, **k):
        by = [by] if isinstance(by, str) else list(by)
        ix = [self.names.index(b) for b in by]
        n = len(self.cols[0]) if self.cols else 0
        return SymGroupBy([tuple(self.cols[c][r] for c in ix) for r in range(n)])

    def __getattr__(self, n):
        raise EngineLimit('symbolic table: ' + n)


def sym_dataframe(orig):
    def DataFrame(data=None, *a, **k):
        cols = k.get('columns', a[1] if len(a) > 1 else None)
        if isinstance(data, SymArray) and arr.has_sym(data):
            r = raw(data)
            return SymFrame([[r[i, j] for i in range(r.shape[0])] for j in range(r.shape[1])], cols)
        if isinstance(data, dict) and any(_really_sym(x) for v in data.values() if isinstance(v, (list, tuple, np.ndarray)) for x in v):
            return SymFrame([list(v) for v in data.values()], list(data))
        if isinstance(data, (list, tuple)) and cols is not None and any(
                _really_sym(x) for row in data if isinstance(row, (list, tuple)) for x in row):
            return SymFrame([list(c) for c in zip(*data)], cols)
        return orig(_concrete(data), *a, **k)
    return DataFrame


class PandasShim(types.ModuleType):
    def __init__(self, mod):
        super().__init__('pandas')
        self.__dict__['_m'] = mod
        self.__dict__['_df'] = sym_dataframe(mod.DataFrame)

    def __getattr__(self, n):
        if n == 'DataFrame':
            return self._df
        v = getattr(self._m, n)
        if isinstance(v, types.FunctionType):
            return shim(v, 'pandas.' + n)
        return v


def proxy_module(mod):
    n = mod.__name__
    if n == 'numpy':
        return NP
    if n == 'numpy.ma':
        return NP.ma
    if n == 'numpy.linalg':
        return NP.linalg
    if n == 'math':
        return MATH
    if n == 'pandas':
        return PandasShim(mod)
    if any(n == p or n.startswith(p + '.') for p in SHIMMED):
        return ModShim(mod)
    return mod


def sym_import(name, asname_full):
    """import a.b.c as x  (asname_full True) / import a.b.c (binds a)"""
    mod = importlib.import_module(name)
    if asname_full:
        return proxy_module(mod)
    return proxy_module(sys.modules[name.split('.')[0]])


def sym_from(modname, attr):
    mod = importlib.import_module(modname)
    if modname == 'numpy' or modname.startswith('numpy.') or modname == 'math':
        return getattr(proxy_module(mod), attr)
    if any(modname == p or modname.startswith(p + '.') for p in SHIMMED):
        try:
            v = getattr(mod, attr)
        except AttributeError:
            v = importlib.import_module(modname + '.' + attr)
        if isinstance(v, types.ModuleType):
            return ModShim(v)
        q = modname + '.' + attr
        return shim(v, q)
    try:
        return getattr(mod, attr)
    except AttributeError:
        return importlib.import_module(modname + '.' + attr)


# ----------------------------------------------------------------------------
# import hook

PFX = 'symnp__'


class Rewriter(ast.NodeTransformer):
    def __init__(self, top):
        self.assigned = set()

    def visit_Import(self, node):
        out = []
        for a in node.names:
            if a.name.split('.')[0] == 'corgidrp':
                out.append(ast.Import(names=[a]))
                continue
            tgt = a.asname or a.name.split('.')[0]
            call = ast.Call(ast.Name(PFX + 'import', ast.Load()),
                            [ast.Constant(a.name), ast.Constant(bool(a.asname))], [])
            out.append(ast.Assign([ast.Name(tgt, ast.Store())], call))
        return [ast.copy_location(ast.fix_missing_locations(ast.copy_location(o, node)), node) for o in out]

    def visit_ImportFrom(self, node):
        if node.level or node.module.split('.')[0] in ('corgidrp', '__future__') or any(a.name == '*' for a in node.names):
            return node
        out = []
        for a in node.names:
            call = ast.Call(ast.Name(PFX + 'from', ast.Load()), [ast.Constant(node.module), ast.Constant(a.name)], [])
            out.append(ast.Assign([ast.Name(a.asname or a.name, ast.Store())], call))
        return [ast.fix_missing_locations(ast.copy_location(o, node)) for o in out]

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in REWRITE and not any(isinstance(x, ast.Starred) for x in node.args):
            node.func = ast.copy_location(ast.Name(PFX + f.id, ast.Load()), f)
        elif isinstance(f, ast.Attribute) and f.attr in CASTS and len(node.args) == 1 and not node.keywords:
            return ast.copy_location(ast.Call(ast.copy_location(ast.Name(PFX + 'cast', ast.Load()), f),
                                              [f, node.args[0]], []), node)
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        return node


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        tree = Rewriter(None).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True, optimize=_optimize)

    def get_code(self, fullname):
        p = self.get_filename(fullname)
        return self.source_to_code(self.get_data(p), p)

    def exec_module(self, module):
        d = module.__dict__
        for k, v in REWRITE.items():
            d[PFX + k] = v
        d[PFX + 'cast'] = b_cast
        d[PFX + 'import'] = sym_import
        d[PFX + 'from'] = sym_from
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root):
        self.root = root

    def find_spec(self, name, path, target=None):
        if name != 'corgidrp' and not name.startswith('corgidrp.'):
            return None
        p = os.path.join(self.root, *name.split('.'))
        if os.path.exists(os.path.join(p, '__init__.py')):
            f = os.path.join(p, '__init__.py')
            sub = [p]
        else:
            f, sub = p + '.py', None
        if not os.path.exists(f):
            return None
        ld = Loader(name, f)
        return importlib.util.spec_from_file_location(name, f, loader=ld, submodule_search_locations=sub)


_installed = False


def install(root):
    global _installed
    if _installed:
        return
    _installed = True
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(root))
    patch_fits()
    patch_pandas()


# ----------------------------------------------------------------------------
# FITS headers with symbolic values

def patch_fits():
    import astropy.io.fits as fits
    H = fits.Header
    o = {n: getattr(H, n) for n in ('__getitem__', '__setitem__', '__delitem__', 'copy', 'get', 'set', 'items', 'values',
                                    'pop', 'rename_keyword', 'update', 'extend', 'append', 'insert', 'tostring',
                                    '__eq__', 'remove', 'clear')}

    def tab(h):
        t = h.__dict__.get('_symtab')
        if t is None:
            t = h.__dict__['_symtab'] = {}
        return t

    def norm(k):
        if type(k) is SymStr:
            return k.concretise().upper()
        return k.upper() if isinstance(k, str) else k

    def unsym(v):
        if isinstance(v, SymArray) and v.ndim == 0:
            v = v._one()
        if isinstance(v, SymArray) and v.size == 1 and v.ndim == 0:
            v = v._one()
        return v

    def gi(self, key):
        if type(key) is SymStr:
            key = key.concretise()
        if isinstance(key, str):
            t = tab(self)
            if t:
                k = norm(key)
                if k in t:
                    return t[k]
        return o['__getitem__'](self, key)

    def si(self, key, value):
        if type(key) is SymStr:
            key = key.concretise()
        if self is None:
            return
        com = None
        v = value
        tup = isinstance(value, tuple) and not isinstance(value, Sym)
        if tup:
            v = value[0] if value else None
            com = value[1] if len(value) > 1 else None
        v = unsym(v)
        if isinstance(key, str):
            k = norm(key)
            t = tab(self)
            if is_sym(v):
                if k in ('HISTORY', 'COMMENT', ''):
                    o['__setitem__'](self, key, '<sym>')
                    return
                ph = 0.0 if type(v) is not SymStr else ''
                o['__setitem__'](self, key, (ph, com) if com is not None else ph)
                t[k] = v
                return
            if k in t:
                del t[k]
            if v is not value and not tup:
                value = v
            o['__setitem__'](self, key, value)
            return
        if is_sym(v):
            kw = self.cards[key].keyword
            si(self, kw, value)
            return
        o['__setitem__'](self, key, value)

    def di(self, key):
        if isinstance(key, str):
            tab(self).pop(norm(key), None)
        o['__delitem__'](self, key)

    def cp(self, strip=False):
        h = o['copy'](self, strip=strip)
        h.__dict__['_symtab'] = dict(tab(self))
        return h

    def get(self, key, default=None):
        try:
            return self[key]
        except (KeyError, IndexError):
            return default

    def st(self, keyword, value=None, comment=None, before=None, after=None):
        value = unsym(value)
        if is_sym(value):
            t = tab(self)
            ph = 0.0 if type(value) is not SymStr else ''
            o['set'](self, keyword, ph, comment, before, after)
            t[norm(keyword)] = value
            return
        t = tab(self)
        k = norm(keyword)
        if value is not None:
            t.pop(k, None)
        elif k in t:
            keep = t[k]
            o['set'](self, keyword, value, comment, before, after)
            t[k] = keep
            return
        o['set'](self, keyword, value, comment, before, after)

    def items(self):
        for c in self.cards:
            yield c.keyword, (tab(self).get(c.keyword.upper(), c.value) if tab(self) else c.value)

    def values(self):
        for c in self.cards:
            yield tab(self).get(c.keyword.upper(), c.value)

    def pop(self, *args):
        if args and isinstance(args[0], str) and norm(args[0]) in tab(self):
            v = self[args[0]]
            del self[args[0]]
            return v
        return o['pop'](self, *args)

    def rename(self, old, new, force=False):
        t = tab(self)
        k = norm(old)
        v = t.pop(k, None)
        o['rename_keyword'](self, old, new, force)
        if v is not None:
            t[norm(new)] = v

    def merge(name):
        def f(self, *args, **kw):
            src = args[0] if args else None
            if isinstance(src, H) and tab(src):
                keys = [c.keyword for c in src.cards]
                r = o[name](self, *args, **kw)
                for k in keys:
                    if k.upper() in tab(src):
                        tab(self)[k.upper()] = tab(src)[k.upper()]
                    else:
                        tab(self).pop(k.upper(), None)
                return r
            if name == 'update' and isinstance(src, dict):
                for k, v in src.items():
                    self[k] = v
                return None
            if name == 'append' and isinstance(src, tuple) and len(src) > 1 and is_sym(src[1]):
                si(self, src[0], tuple(src[1:]))
                return None
            return o[name](self, *args, **kw)
        return f

    def eq(self, other):
        if self is other:
            return True
        if tab(self) or (isinstance(other, H) and tab(other)):
            raise EngineLimit('comparing headers with symbolic values')
        return o['__eq__'](self, other)

    H.__getitem__, H.__setitem__, H.__delitem__, H.copy = gi, si, di, cp
    H.get, H.set, H.items, H.values, H.pop, H.rename_keyword = get, st, items, values, pop, rename
    H.update, H.extend, H.append = merge('update'), merge('extend'), merge('append')
    H.__copy__ = lambda self: self.copy()
    H.__deepcopy__ = lambda self, memo: self.copy()

    # image HDUs holding symbolic arrays
    _ImageHDU, _PrimaryHDU = fits.ImageHDU, fits.PrimaryHDU

    def native(data):
        return raw(data).astype(data.dtype) if data.dtype.kind in 'fiub' else raw(data)

    def mk(base):
        class SymHDU(base):
            def __init__(self, data=None, header=None, *a, **k):
                if isinstance(data, SymMasked):
                    data = data.data
                if data is not None and isinstance(data, SymArray) and data.dtype == arr.B1:
                    raise KeyError('bool')          # as astropy does for boolean image data
                if isinstance(data, SymArray):
                    ph = np.zeros(data.shape, dtype=data.dtype if data.dtype.kind in 'fiu' else float)
                    base.__init__(self, ph, header, *a, **k)
                    self.__dict__['data'] = data
                else:
                    base.__init__(self, data, header, *a, **k)
                if header is not None and isinstance(header, H) and tab(header):
                    tab(self.header).update(tab(header))

            def __setattr__(self, n, v):
                if n == 'data' and isinstance(v, SymArray):
                    base.__setattr__(self, 'data', np.zeros(v.shape, dtype=v.dtype if v.dtype.kind in 'fiu' else float))
                    self.__dict__['data'] = v
                    return
                base.__setattr__(self, n, v)

            def copy(self):
                d = self.__dict__.get('data')
                if not isinstance(d, SymArray) and not tab(self.header):
                    return base.copy(self)
                # as astropy: data and header are copied
                return type(self)(d.copy() if d is not None else None, self.header.copy())

            def __deepcopy__(self, memo):
                d = self.__dict__.get('data')
                if isinstance(d, SymArray):
                    return type(self)(d.copy(), self.header.copy())
                r = base.copy(self)
                if d is not None and isinstance(d, np.ndarray):
                    r = type(self)(d.copy(), self.header.copy())
                return r
        SymHDU.__name__ = base.__name__
        SymHDU.__qualname__ = base.__qualname__
        return SymHDU
    SI, SP = mk(_ImageHDU), mk(_PrimaryHDU)
    fits.ImageHDU, fits.PrimaryHDU = SI, SP
    for m in ('astropy.io.fits.hdu', 'astropy.io.fits.hdu.hdulist'):
        mod = sys.modules.get(m)
        if mod is not None:
            if hasattr(mod, 'ImageHDU'):
                mod.ImageHDU = SI
            if hasattr(mod, 'PrimaryHDU'):
                mod.PrimaryHDU = SP

    # an in-memory store for files with symbolic content
    L = fits.HDUList
    o_write, o_open = L.writeto, fits.open

    def writeto(self, fileobj, *a, **k):
        symbolic = False
        for h in self:
            d = h.__dict__.get('data')
            if tab(h.header) or isinstance(d, SymArray) and arr.has_sym(d):
                symbolic = True
        if not symbolic and not MEMFS_ALWAYS[0]:
            for h in self:
                d = h.__dict__.get('data')
                if isinstance(d, SymArray):
                    h.__dict__['data'] = native(d)
            MEMFS.pop(_key(fileobj), None)
            return o_write(self, fileobj, *a, **k)
        out = []
        for h in self:
            d = h.__dict__.get('data')
            if isinstance(d, np.ndarray) and not isinstance(d, SymArray):
                d = d.copy()
            elif isinstance(d, SymArray):
                d = d.copy()
            hd = h.header.copy()
            out.append((type(h), d, hd))
        MEMFS[_key(fileobj)] = out

    def fopen(name, *a, **k):
        if isinstance(name, str) and _key(name) in MEMFS:
            hs = []
            for t, d, hd in MEMFS[_key(name)]:
                hs.append(t(d.copy() if d is not None else None, hd.copy()))
            return L(hs)
        return o_open(name, *a, **k)
    L.writeto = writeto
    fits.open = fopen


MEMFS = {}


def _key(name):
    return os.path.abspath(name) if isinstance(name, str) else name


MEMFS_ALWAYS = [False]


def patch_pandas():
    pass
