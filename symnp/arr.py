"""SymArray: numpy arrays whose elements may be symbolic scalars.

Storage is an ordinary object-dtype ndarray (so views, strides, broadcasting and
aliasing are numpy's own); the logical dtype is kept beside it.  ufuncs and
array functions are re-implemented elementwise over symbolic scalars.
"""
import itertools
import math
import operator
import warnings

import numpy as np
import numpy.core.numeric as _nn  # noqa: F401

from . import core
from .core import (Sym, SymBool, SymReal, SymInt, SymStr, EngineLimit, is_sym, ite, mkbool, tbool,
                   b_and, b_or, b_not, ctx, fold)

_ND = np.ndarray
_RAWDT = np.ndarray.dtype.__get__
OBJ = np.dtype(object)
F8, I8, B1 = np.dtype(float), np.dtype(np.int64), np.dtype(bool)

# originals, captured before numpy is patched
_o = {n: getattr(np, n) for n in
      ('array', 'asarray', 'zeros', 'ones', 'full', 'empty', 'zeros_like', 'ones_like', 'full_like',
       'empty_like', 'frompyfunc', 'arange', 'asanyarray', 'ascontiguousarray', 'result_type',
       'can_cast', 'issubdtype', 'copy')}


def rawdt(a):
    return _RAWDT(a)


def norm_dtype(dt):
    if dt is None:
        return None
    if dt is float:
        return F8
    if dt is int:
        return I8
    if dt is bool:
        return B1
    return np.dtype(dt)


def raw(a):
    """underlying object/native ndarray (no subclass)"""
    return _ND.view(a, _ND) if isinstance(a, SymArray) else a


class SymArray(np.ndarray):
    __array_priority__ = 1000.0

    def __array_finalize__(self, obj):
        self._ld = getattr(obj, '_ld', None)

    # -- dtype
    @property
    def dtype(self):
        return self._ld if self._ld is not None else _RAWDT(self)

    @dtype.setter
    def dtype(self, v):
        raise EngineLimit('setting dtype')

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.size * self.dtype.itemsize

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, types, args, kwargs)

    def __reduce__(self):
        raise EngineLimit('pickling a symbolic array')

    def __repr__(self):
        return 'SymArray(shape=%s, dtype=%s)' % (self.shape, self.dtype)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    # -- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, value):
        setitem(self, key, value)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        return (self[i] for i in range(len(self)))

    def __contains__(self, x):
        return bool((self == x).any())

    def item(self, *a):
        return raw(self).item(*a)

    def tolist(self):
        return raw(self).tolist()

    # -- conversions
    def astype(self, dt, order='K', casting='unsafe', subok=True, copy=True):
        return cast(self, norm_dtype(dt))

    def view(self, *a, **k):
        dt = k.get('dtype', a[0] if a else None)
        if dt is None or (isinstance(dt, type) and issubclass(dt, np.ndarray)):
            if dt is np.ndarray:
                return _ND.view(self, SymArray)
            return _ND.view(self, SymArray)
        return view_dtype(self, norm_dtype(dt))

    def copy(self, order='C'):
        return wrap(raw(self).copy(), self._ld)

    def filled(self, *a):
        return self

    def newbyteorder(self, *a):
        return self

    def byteswap(self, *a):
        raise EngineLimit('byteswap')

    # -- scalar protocols
    def __bool__(self):
        if self.size == 1:
            return bool(raw(self).reshape(-1)[0])
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. '
                         'Use a.any() or a.all()')

    def _one(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return raw(self).reshape(-1)[0]

    def __float__(self):
        return float(self._one())

    def __int__(self):
        return int(self._one())

    def __index__(self):
        if self.ndim != 0 or self.dtype.kind not in 'iu':
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return operator.index(self._one())

    def __complex__(self):
        raise EngineLimit('complex')

    # comparisons/arith: numpy's ndarray dunders call ufuncs, which dispatch to us

    def __matmul__(self, o):
        return np.matmul(self, o)

    def __rmatmul__(self, o):
        return np.matmul(o, self)

    def __imatmul__(self, o):
        raise EngineLimit('imatmul')

    def __divmod__(self, o):
        return self // o, self % o

    # -- methods with value semantics
    def sum(self, axis=None, dtype=None, out=None, **k):
        return np.sum(self, axis=axis, dtype=dtype, out=out, **k)

    def prod(self, axis=None, **k):
        return np.prod(self, axis=axis, **k)

    def mean(self, axis=None, dtype=None, out=None, **k):
        return f_mean(self, axis=axis, **k)

    def std(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return f_std(self, axis=axis, ddof=ddof, **k)

    def var(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return f_var(self, axis=axis, ddof=ddof, **k)

    def max(self, axis=None, out=None, **k):
        return np.maximum.reduce(self, axis=axis, **k)

    def min(self, axis=None, out=None, **k):
        return np.minimum.reduce(self, axis=axis, **k)

    def ptp(self, axis=None, **k):
        return self.max(axis) - self.min(axis)

    def any(self, axis=None, out=None, **k):
        return np.logical_or.reduce(self, axis=axis, **k)

    def all(self, axis=None, out=None, **k):
        return np.logical_and.reduce(self, axis=axis, **k)

    def argmax(self, axis=None, out=None, **k):
        return f_argmax(self, axis)

    def argmin(self, axis=None, out=None, **k):
        return f_argmin(self, axis)

    def argsort(self, axis=-1, kind=None, order=None, **k):
        return f_argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None, **k):
        raw(self)[...] = raw(f_sort(self, axis))

    def cumsum(self, axis=None, dtype=None, out=None):
        return f_cumsum(self, axis)

    def nonzero(self):
        return f_nonzero(self)

    def clip(self, min=None, max=None, out=None, **k):
        return f_clip(self, min, max, out=out)

    def round(self, decimals=0, out=None):
        return f_round(self, decimals)

    def dot(self, o, out=None):
        return f_dot(self, o)

    def fill(self, v):
        self[...] = v

    def take(self, idx, axis=None, **k):
        return np.take(self, idx, axis=axis)

    def conj(self):
        return self
    conjugate = conj

    @property
    def real(self):
        return self

    @property
    def T(self):
        return _ND.transpose(self)

    @property
    def data(self):
        return self

    def tobytes(self, *a):
        if has_sym(self):
            raise EngineLimit('bytes of a symbolic array')
        return raw(self).astype(self.dtype).tobytes()

    def flatten(self, order='C'):
        return wrap(raw(self).flatten(order), self._ld)

    @property
    def flat(self):
        return _Flat(self)


class _Flat:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, k):
        return wrap(raw(self.a).flatten(), self.a._ld)[k]

    def __setitem__(self, k, v):
        a = self.a
        idx = np.unravel_index(_o['arange'](a.size)[k], a.shape)
        a[idx] = v

    def __iter__(self):
        return iter(self.a.ravel())

    def __len__(self):
        return self.a.size


# ----------------------------------------------------------------------------
# construction

def wrap(o, ld):
    """object ndarray + logical dtype -> SymArray"""
    if rawdt(o) != OBJ:
        o = to_obj(o)
    r = _ND.view(o, SymArray)
    r._ld = ld
    return r


def wrap0(x):
    o = np.ndarray((), dtype=object)
    o[()] = x
    return wrap(o, scalar_dt(x))


def to_obj(a):
    """native ndarray -> object ndarray of numpy scalars -> python scalars"""
    a = _o['asarray'](a)
    if rawdt(a) == OBJ:
        return a
    return a.astype(object)


def scalar_dt(x):
    t = type(x)
    if t is SymReal:
        return F8
    if t is SymBool:
        return B1
    if t is SymInt:
        return x.dt
    if isinstance(x, (bool, np.bool_)):
        return B1
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, int):
        return I8
    if isinstance(x, float):
        return F8
    return OBJ


def has_sym(a):
    return any(is_sym(x) for x in raw(a).flat) if isinstance(a, np.ndarray) and rawdt(a) == OBJ else is_sym(a)


def any_sym_deep(x, depth=4):
    if is_sym(x) or isinstance(x, (SymArray, GSel, GIdx)):
        return True
    if isinstance(x, np.ndarray):
        return rawdt(x) == OBJ and any(is_sym(v) for v in x.flat)
    if depth and isinstance(x, (list, tuple)):
        return any(any_sym_deep(v, depth - 1) for v in x)
    return False


def infer_ld(o, default=F8):
    """logical dtype of an object ndarray's elements"""
    dts = set()
    for x in o.flat:
        dts.add(scalar_dt(x))
    if not dts:
        return default
    if OBJ in dts:
        return OBJ
    dts = list(dts)
    r = dts[0]
    for d in dts[1:]:
        r = np.promote_types(r, d)
    return r


def sym_array(x, dtype=None, copy=True, ndmin=0):
    """np.array replacement for anything containing symbolic content"""
    dtype = norm_dtype(dtype)
    if isinstance(x, (GSel, GIdx)):
        x = x.materialise()
    if isinstance(x, SymArray):
        r = x.copy() if copy else x
        if dtype is not None and dtype != x.dtype:
            r = cast(x, dtype)
    elif is_sym(x):
        r = wrap0(x)
        if dtype is not None:
            r = cast(r, dtype)
    elif isinstance(x, np.ndarray):
        o = to_obj(x)
        if copy and o is x:
            o = o.copy()
        ld = rawdt(x) if rawdt(x) != OBJ else infer_ld(o)
        r = wrap(o, ld)
        if dtype is not None:
            r = cast(r, dtype)
    else:
        o, ld = _nested(x)
        r = wrap(o, ld if ld is not None else infer_ld(o))
        if dtype is not None:
            r = cast(r, dtype)
        elif r._ld != OBJ:
            r = cast(r, r._ld)
    while r.ndim < ndmin:
        r = r[None]
    return r


def _nested(x):
    """nested sequence -> (object ndarray, dtype)"""
    if isinstance(x, (GSel, GIdx)):
        x = x.materialise()
    if isinstance(x, SymArray):
        return raw(x), x.dtype
    if isinstance(x, np.ndarray):
        return to_obj(x), (rawdt(x) if rawdt(x) != OBJ else infer_ld(to_obj(x)))
    if is_sym(x) or isinstance(x, (str, bytes)) or not hasattr(x, '__len__'):
        o = np.ndarray((), dtype=object)
        o[()] = x
        return o, scalar_dt(x)
    parts = [_nested(v) for v in x]
    if not parts:
        return np.ndarray((0,), dtype=object), F8
    sh = parts[0][0].shape
    for p, _ in parts:
        if p.shape != sh:
            raise ValueError('setting an array element with a sequence. The requested array has an '
                             'inhomogeneous shape')
    o = np.ndarray((len(parts),) + sh, dtype=object)
    for i, (p, _) in enumerate(parts):
        o[i] = p if p.ndim else p[()]
    dts = [d for _, d in parts]
    if any(d == OBJ for d in dts):
        ld = OBJ
    else:
        ld = dts[0]
        for d in dts[1:]:
            ld = np.promote_types(ld, d)
    return o, ld


def asarr(x):
    """-> SymArray or scalar wrapped 0-d SymArray"""
    if isinstance(x, SymArray):
        return x
    return sym_array(x, copy=False)


def unwrap0(a):
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return raw(a)[()]
    return a


# ----------------------------------------------------------------------------
# casts

def cast_scalar(x, dt):
    k = dt.kind
    if dt == OBJ:
        return x
    if not is_sym(x):
        if k == 'f':
            if x is None:
                x = float('nan')
            return dt.type(x) if dt != F8 else float(x)
        if k == 'b':
            return bool(x)
        if k in 'iu':
            if isinstance(x, (float, np.floating)):
                with np.errstate(all='ignore'), warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    return int(np.float64(x).astype(dt))
            x = int(x)
            return int(np.array(x, dtype=np.int64 if x < 2**63 else np.uint64).astype(dt)) \
                if not (np.iinfo(dt).min <= x <= np.iinfo(dt).max) else x
        if k in 'US':
            return str(x)
        return dt.type(x)
    t = type(x)
    if t is SymStr:
        if k in 'US':
            return x
        raise EngineLimit('cast of symbolic string')
    if k == 'f':
        if t is SymReal:
            return x
        v, n, i = core.lift_real(x)
        return core.mkreal(v, n, i)
    if k == 'b':
        return mkbool(tbool(x))
    if k in 'iu':
        if t is SymBool:
            return core.to_int(x, dt)
        if t is SymInt:
            if x.dt == dt:
                return x
            if x.bv:
                return core.mkint(core.z3.simplify(core.as_bv(x, dt)), dt)
            if dt.itemsize >= 8 and dt.kind == 'i':
                return SymInt(x.v, dt)
            if dt.itemsize >= 8:
                return SymInt(x.v, dt)
            return core.mkint(core.as_bv(x, dt), dt)
        # real -> int: C truncation; NaN gives an arbitrary-but-fixed value (INT_MIN)
        xx = x
        if x.nan is not False or x.inf is not False:
            bad = b_or(x.nan, x.inf)
            if ctx().branch(bad):
                with np.errstate(all='ignore'), warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    return int(np.float64(np.nan).astype(dt))
            xx = core.mkreal(x.v)
            if not is_sym(xx):
                return cast_scalar(xx, dt)
        r = core.real_to_int(xx, dt)
        if dt.itemsize < 8 and type(r) is SymInt:
            return core.mkint(core.as_bv(r, dt), dt)
        return r
    if k in 'US':
        return str(x)
    if k == 'c':
        raise EngineLimit('complex')
    raise EngineLimit('cast to %s' % dt)


def cast(a, dt):
    a = asarr(a)
    dt = norm_dtype(dt)
    if a.dtype == dt and dt != OBJ:
        return a.copy()
    src = raw(a)
    out = np.ndarray(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = cast_scalar(src[i], dt)
    return wrap(out, dt)


def store_cast(x, dt):
    """cast used on assignment into an array of logical dtype dt"""
    if dt is None or dt == OBJ:
        return x
    if dt.kind in 'iu':
        if isinstance(x, (float, np.floating)) and not is_sym(x):
            if math.isnan(x):
                raise ValueError('cannot convert float NaN to integer')
            if math.isinf(x):
                raise OverflowError('cannot convert float infinity to integer')
        if not is_sym(x) and isinstance(x, (int, np.integer)):
            info = np.iinfo(dt)
            if isinstance(x, int) and not (info.min <= x <= info.max):
                raise OverflowError('Python integer %d out of bounds for %s' % (x, dt))
    return cast_scalar(x, dt)


def view_dtype(a, dt):
    src = a.dtype
    if dt == src:
        return _ND.view(a, SymArray)
    if src.kind in 'iu' and dt.kind in 'iu' and src.itemsize == dt.itemsize:
        out = np.ndarray(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            out[i] = cast_scalar(raw(a)[i], dt)
        return wrap(out, dt)
    if src.kind in 'iu' and dt == np.dtype(np.uint8):
        n = src.itemsize
        out = np.ndarray(a.shape[:-1] + (a.shape[-1] * n,), dtype=object)
        big = src.byteorder == '>'
        for i in np.ndindex(a.shape):
            x = raw(a)[i]
            for b in range(n):
                pos = (n - 1 - b) if big else b
                if is_sym(x):
                    t = core.as_bv(x, src)
                    e = core.mkint(core.z3.simplify(core.z3.Extract(8 * b + 7, 8 * b, t)), dt)
                else:
                    e = (int(x) >> (8 * b)) & 0xff
                out[i[:-1] + (i[-1] * n + pos,)] = e
        return wrap(out, dt)
    if src == np.dtype(np.uint8) and dt.kind in 'iu':
        n = dt.itemsize
        if a.shape[-1] % n:
            raise ValueError('view size mismatch')
        out = np.ndarray(a.shape[:-1] + (a.shape[-1] // n,), dtype=object)
        z3 = core.z3
        for i in np.ndindex(out.shape):
            bs = [raw(a)[i[:-1] + (i[-1] * n + b,)] for b in range(n)]
            if dt.byteorder == '>':
                bs = bs[::-1]
            t = z3.Concat(*[core.as_bv(b, np.dtype(np.uint8)) for b in reversed(bs)]) if n > 1 \
                else core.as_bv(bs[0], np.dtype(np.uint8))
            out[i] = core.mkint(z3.simplify(t), dt)
        return wrap(out, dt)
    if dt == B1 and src == np.dtype(np.uint8) or src == B1 and dt == np.dtype(np.uint8):
        return cast(a, dt)
    raise EngineLimit('view %s as %s' % (src, dt))


# ----------------------------------------------------------------------------
# guarded selections (results of symbolic masks)

class GIdx:
    """One component of np.where(mask)/np.nonzero(mask) for a symbolic mask."""

    def __init__(self, mask, axis):
        self.mask, self.axis = mask, axis

    def _cells(self):
        return [(i, raw(self.mask)[i]) for i in np.ndindex(self.mask.shape)]

    def materialise(self):
        m = concretise_mask(self.mask)
        return np.nonzero(m)[self.axis]

    def __len__(self):
        return len(self.materialise())

    @property
    def size(self):
        return mask_count(self.mask)

    @property
    def shape(self):
        return (len(self),)

    @property
    def ndim(self):
        return 1

    def __array__(self, dtype=None, copy=None):
        return self.materialise()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.materialise(), n)

    def __iter__(self):
        return iter(self.materialise())

    def __getitem__(self, k):
        return self.materialise()[k]

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        inputs = tuple(x.materialise() if isinstance(x, GIdx) else x for x in inputs)
        return getattr(ufunc, method)(*inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, types, args, kwargs)


def _gidx_bin(op):
    def m(self, o):
        if isinstance(o, GIdx):
            o = o.materialise()
        return op(self.materialise(), o)
    return m


for _n in ('add', 'sub', 'mul', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'floordiv', 'mod', 'truediv'):
    setattr(GIdx, '__%s__' % _n, _gidx_bin(getattr(operator, _n)))
GIdx.__radd__ = lambda s, o: o + s.materialise()
GIdx.__rsub__ = lambda s, o: o - s.materialise()
GIdx.__rmul__ = lambda s, o: o * s.materialise()
GIdx.__hash__ = object.__hash__


def mask_count(m):
    n = 0
    for x in raw(m).flat:
        n = n + core.to_int(x) if is_sym(x) else n + int(bool(x))
    return n


def concretise_mask(m):
    """fork until every element of a boolean mask is concrete"""
    r = raw(m)
    out = np.ndarray(m.shape, dtype=bool)
    for i in np.ndindex(m.shape):
        out[i] = bool(r[i])
    return out


def _same_guards(a, b):
    if a is b:
        return True
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is y:
            continue
        if isinstance(x, bool) or isinstance(y, bool):
            if x is y:
                continue
            return False
        if not x.eq(y):
            return False
    return True


class GSel:
    """a[mask] for a symbolic mask: values with guards; the length is symbolic."""
    __array_priority__ = 1500.0

    def __init__(self, vals, guards, ld):
        self.vals, self.guards, self._ld = vals, guards, ld   # vals: object ndarray (N, ...)

    @property
    def dtype(self):
        return self._ld

    @property
    def ndim(self):
        return self.vals.ndim

    @property
    def shape(self):
        return (len(self),) + self.vals.shape[1:]

    def _simple(self):
        return self.vals.ndim == 1

    def materialise(self):
        keep = [i for i, g in enumerate(self.guards) if ctx().branch(g)] \
            if any(not isinstance(g, bool) for g in self.guards) \
            else [i for i, g in enumerate(self.guards) if g]
        return wrap(self.vals[keep], self._ld)

    def count(self):
        n = 0
        for g in self.guards:
            n = n + core.to_int(mkbool(g))
        return n

    @property
    def size(self):
        n = self.count()
        for s in self.vals.shape[1:]:
            n = n * s
        return n

    def __len__(self):
        n = self.count()
        return n if isinstance(n, int) else core.concretise_int(n)

    def __iter__(self):
        return iter(self.materialise())

    def __array__(self, dtype=None, copy=None):
        return raw(self.materialise())

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, types, args, kwargs)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.materialise(), n)

    def __getitem__(self, k):
        return self.materialise()[k]

    def astype(self, dt, **k):
        dt = norm_dtype(dt)
        return GSel(raw(cast(wrap(self.vals, self._ld), dt)), self.guards, dt)

    def copy(self):
        return GSel(self.vals.copy(), self.guards, self._ld)

    def ravel(self):
        return self if self._simple() else self.materialise().ravel()
    flatten = ravel

    # reductions
    def sum(self, axis=None, **k):
        if not self._simple():
            return self.materialise().sum(axis=axis, **k)
        z = 0.0 if self._ld.kind == 'f' else 0
        s = z
        for v, g in zip(self.vals, self.guards):
            s = s + ite(g, core.to_int(v), z)
        return s

    def mean(self, axis=None, **k):
        if not self._simple():
            return self.materialise().mean(axis=axis, **k)
        return core.r_div(self.sum(), self.count())

    def var(self, axis=None, ddof=0, **k):
        if not self._simple():
            return self.materialise().var(axis=axis, ddof=ddof, **k)
        m = self.mean()
        s = 0.0
        for v, g in zip(self.vals, self.guards):
            d = core.r_sub(v, m)
            s = s + ite(g, core.r_mul(d, d), 0.0)
        return core.r_div(s, self.count() - ddof)

    def std(self, axis=None, ddof=0, **k):
        if not self._simple():
            return self.materialise().std(axis=axis, ddof=ddof, **k)
        return core.r_sqrt(self.var(ddof=ddof))

    def any(self, axis=None, **k):
        return mkbool(fold(b_or(*[b_and(g, tbool(v)) for v, g in zip(self.vals, self.guards)])))

    def all(self, axis=None, **k):
        return mkbool(fold(b_and(*[b_or(b_not(g), tbool(v)) for v, g in zip(self.vals, self.guards)])))


def _gsel_ufunc(name, r=False):
    uf = getattr(np, name)

    def m(self, o):
        return array_ufunc(uf, '__call__', (o, self) if r else (self, o), {})
    return m


for _p, _u in dict(add='add', sub='subtract', mul='multiply', truediv='true_divide', floordiv='floor_divide',
                   mod='remainder', pow='power', **{'and': 'bitwise_and', 'or': 'bitwise_or', 'xor': 'bitwise_xor'},
                   lshift='left_shift', rshift='right_shift').items():
    setattr(GSel, '__%s__' % _p, _gsel_ufunc(_u))
    setattr(GSel, '__r%s__' % _p, _gsel_ufunc(_u, True))
for _p, _u in dict(lt='less', le='less_equal', gt='greater', ge='greater_equal', eq='equal', ne='not_equal').items():
    setattr(GSel, '__%s__' % _p, _gsel_ufunc(_u))
GSel.__hash__ = object.__hash__
GSel.__neg__ = lambda s: array_ufunc(np.negative, '__call__', (s,), {})
GSel.__invert__ = lambda s: array_ufunc(np.invert, '__call__', (s,), {})
GSel.__abs__ = lambda s: array_ufunc(np.absolute, '__call__', (s,), {})


# ----------------------------------------------------------------------------
# indexing

def _is_mask(k):
    if isinstance(k, SymArray):
        return k.dtype == B1
    return isinstance(k, np.ndarray) and rawdt(k) == B1


def _conc_index(k):
    """make an index component concrete where it is symbolic but not a mask"""
    if isinstance(k, tuple):
        return tuple(_conc_index(x) for x in k)
    if isinstance(k, GSel):
        k = k.materialise()
    if isinstance(k, SymArray):
        if k.dtype == B1:
            if not has_sym(k):
                return raw(k).astype(bool)
            return k
        if k.dtype.kind not in 'iu':
            if k.size == 0:
                return raw(k).astype(float)
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        out = np.ndarray(k.shape, dtype=np.int64)
        for i in np.ndindex(k.shape):
            out[i] = operator.index(raw(k)[i])
        return out
    if type(k) is SymInt:
        return operator.index(k)
    if type(k) is SymBool:
        return bool(k)
    if type(k) is SymReal:
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and '
                         'integer or boolean arrays are valid indices')
    if isinstance(k, slice):
        return slice(*[operator.index(x) if type(x) is SymInt else x for x in (k.start, k.stop, k.step)])
    if isinstance(k, list) and any_sym_deep(k):
        return _conc_index(sym_array(k))
    return k


def _plan(a, key):
    """Analyse a key.  -> ('plain', key) or ('guard', [(concrete key, guard)])"""
    key = _conc_index(key)
    parts = key if isinstance(key, tuple) else (key,)
    sym_masks = [p for p in parts if isinstance(p, SymArray) and p.dtype == B1]
    gidx = [p for p in parts if isinstance(p, GIdx)]
    if not sym_masks and not gidx:
        return 'plain', key
    if sym_masks and not gidx and len(sym_masks) == 1 and \
            not any(isinstance(p, (np.ndarray, list)) for p in parts if p is not sym_masks[0]) and \
            not any(isinstance(p, (int, np.integer)) and not isinstance(p, (bool, np.bool_)) for p in parts):
        m = sym_masks[0]
        cells = []
        for i in np.ndindex(m.shape):
            g = tbool(raw(m)[i])
            if g is False:
                continue
            kk = []
            for p in parts:
                if p is m:
                    kk.extend(i)
                else:
                    kk.append(p)
            cells.append((tuple(kk), g))
        # shape check as numpy does
        pos = 0
        for p in parts:
            if p is m:
                break
            if p is Ellipsis:
                pos = a.ndim - sum(1 if not (isinstance(q, SymArray) and q.dtype == B1) else q.ndim
                                   for q in parts if q is not None and q is not Ellipsis)
            elif p is not None:
                pos += 1
        if tuple(a.shape[pos:pos + m.ndim]) != m.shape:
            raise IndexError('boolean index did not match indexed array shape %s vs %s' % (a.shape, m.shape))
        lead = [p for p in parts[:parts.index(m) if False else [x is m for x in parts].index(True)]
                if p is not None]
        return 'guard', (cells, len(lead) == 0)
    if gidx and not sym_masks and all(p.mask is gidx[0].mask for p in gidx) and \
            not any(isinstance(p, (np.ndarray, list)) for p in parts) and \
            not any(isinstance(p, (int, np.integer)) for p in parts if not isinstance(p, GIdx)):
        m = gidx[0].mask
        cells = []
        for i in np.ndindex(m.shape):
            g = tbool(raw(m)[i])
            if g is False:
                continue
            kk = tuple(i[p.axis] if isinstance(p, GIdx) else p for p in parts)
            cells.append((kk, g))
        # where is the advanced dimension placed in the result?
        first = [isinstance(x, GIdx) for x in parts].index(True)
        contiguous = all(isinstance(x, GIdx) for x in parts[first:first + len(gidx)])
        front = (not contiguous) or all(p is None for p in parts[:first]) or first == 0
        return 'guard', (cells, front)
    # fall back: fork on the masks
    out = []
    for p in parts:
        if isinstance(p, SymArray) and p.dtype == B1:
            out.append(concretise_mask(p))
        elif isinstance(p, GIdx):
            out.append(p.materialise())
        else:
            out.append(p)
    return 'plain', tuple(out) if isinstance(key, tuple) else out[0]


def typed(x, ld):
    """a constant element as numpy would return it"""
    t = type(x)
    if t is int and ld.kind in 'iu' or t is float and ld.kind == 'f' or t is bool and ld.kind == 'b':
        return ld.type(x)
    return x


def getitem(a, key):
    mode, plan = _plan(a, key)
    if mode == 'plain':
        r = raw(a)[plan]
        if isinstance(r, np.ndarray) and (rawdt(r) == OBJ):
            return wrap(r, a._ld)
        return typed(r, a._ld)
    cells, front = plan
    if not front:
        # advanced dimension is not first: fork instead
        parts = key if isinstance(key, tuple) else (key,)
        out = []
        for p in parts:
            if isinstance(p, SymArray) and p.dtype == B1:
                out.append(concretise_mask(p))
            elif isinstance(p, GIdx):
                out.append(p.materialise())
            else:
                out.append(_conc_index(p))
        return getitem(a, tuple(out))
    vals = []
    shp = None
    for kk, g in cells:
        v = raw(a)[kk]
        vals.append(v)
        shp = v.shape if isinstance(v, np.ndarray) else ()
    if shp is None:
        # empty selection; use numpy for the shape
        parts = key if isinstance(key, tuple) else (key,)
        out = [np.zeros(p.shape, bool) if isinstance(p, SymArray) and p.dtype == B1 else
               (np.zeros(0, int) if isinstance(p, GIdx) else _conc_index(p)) for p in parts]
        return wrap(raw(a)[tuple(out)], a._ld)
    o = np.ndarray((len(vals),) + shp, dtype=object)
    for i, v in enumerate(vals):
        o[i] = v
    return GSel(o, [g for _, g in cells], a._ld)


def setitem(a, key, value):
    ld = a._ld
    if isinstance(value, GIdx):
        value = value.materialise()
    mode, plan = _plan(a, key)
    r = raw(a)
    if mode == 'plain':
        if isinstance(value, GSel):
            value = value.materialise()
        if isinstance(value, np.ndarray) and value.ndim == 0 and not isinstance(value, np.ma.MaskedArray):
            value = raw(asarr(value))[()]
        if isinstance(value, np.ndarray):
            if isinstance(value, np.ma.MaskedArray):
                value = np.ma.getdata(value)
            if isinstance(value, SymArray):
                v = value if value.dtype == ld else _cast_store(value, ld)
                r[plan] = raw(v)
            else:
                r[plan] = raw(_cast_store(asarr(value), ld))
        elif isinstance(value, (list, tuple)):
            r[plan] = raw(_cast_store(asarr(value), ld))
        else:
            r[plan] = store_cast(value, ld)
        return
    cells, front = plan
    if isinstance(value, GSel):
        if len(value.guards) == len(cells) and _same_guards(value.guards, [g for _, g in cells]):
            for (kk, g), v in zip(cells, value.vals):
                _gset(r, kk, g, v, ld)
            return
        value = value.materialise()
    if isinstance(value, (list, tuple)):
        value = asarr(value)
    if isinstance(value, np.ndarray) and value.ndim > 0:
        if not isinstance(value, SymArray):
            value = asarr(value)
        tgt = r[cells[0][0]] if cells else None
        tnd = tgt.ndim if isinstance(tgt, np.ndarray) else 0
        if value.ndim <= tnd and front:
            for kk, g in cells:
                _gset(r, kk, g, raw(value), ld)
            return
        # an array aligned with the (symbolic) number of selected cells: fork on the mask
        parts = key if isinstance(key, tuple) else (key,)
        out = []
        for p in parts:
            if isinstance(p, SymArray) and p.dtype == B1:
                out.append(concretise_mask(p))
            elif isinstance(p, GIdx):
                out.append(p.materialise())
            else:
                out.append(_conc_index(p))
        r[tuple(out)] = raw(_cast_store(value, ld))
        return
    if isinstance(value, np.ndarray):
        value = raw(asarr(value))[()]
    for kk, g in cells:
        _gset(r, kk, g, value, ld)


def _cast_store(v, ld):
    if ld is None or ld == OBJ or v.dtype == ld:
        return v
    out = np.ndarray(v.shape, dtype=object)
    s = raw(v)
    for i in np.ndindex(v.shape):
        out[i] = store_cast(s[i], ld)
    return wrap(out, ld)


def _gset(r, kk, g, v, ld):
    tgt = r[kk]
    if isinstance(tgt, np.ndarray):
        vv = np.broadcast_to(_o['asarray'](v, dtype=object) if not isinstance(v, np.ndarray) else v, tgt.shape)
        for i in np.ndindex(tgt.shape):
            tgt[i] = ite(g, store_cast(vv[i], ld), tgt[i])
    else:
        r[kk] = ite(g, store_cast(v, ld), tgt)


# ----------------------------------------------------------------------------
# ufuncs

def _bool_of(x):
    return mkbool(tbool(x))


def _s_eq(a, b):
    if isinstance(a, str) or isinstance(b, str):
        if type(a) is SymStr:
            return a == b
        return b == a if type(b) is SymStr else a == b
    return core.r_eq(a, b) if not (core._isint(a) and core._isint(b)) else core.i_cmp('eq', core.to_int(a), core.to_int(b))


def _int2(iop, rop):
    def f(a, b):
        if core._isint(a) and core._isint(b):
            return core.i_bin(iop, core.to_int(a), core.to_int(b))
        return rop(a, b)
    return f


def _cmp(iop, rop):
    def f(a, b):
        if core._isint(a) and core._isint(b):
            return core.i_cmp(iop, core.to_int(a), core.to_int(b))
        return rop(a, b)
    return f


def _bit(op):
    def f(a, b):
        if core.is_bool(a) and core.is_bool(b):
            return {'and': lambda: mkbool(b_and(tbool(a), tbool(b))),
                    'or': lambda: mkbool(b_or(tbool(a), tbool(b))),
                    'xor': lambda: mkbool(core.b_xor(tbool(a), tbool(b)))}[op]()
        return core.i_bin(op, core.to_int(a), core.to_int(b))
    return f


def _inv(a):
    if core.is_bool(a):
        return mkbool(b_not(tbool(a)))
    return ~a


def _u_max(a, b):
    if core._isint(a) and core._isint(b):
        if core.is_bool(a) and core.is_bool(b):
            return mkbool(b_or(tbool(a), tbool(b)))
        return core.i_ite(tbool(core.i_cmp('ge', a, b)), a, b)
    return core.r_max(a, b)


def _u_min(a, b):
    if core._isint(a) and core._isint(b):
        if core.is_bool(a) and core.is_bool(b):
            return mkbool(b_and(tbool(a), tbool(b)))
        return core.i_ite(tbool(core.i_cmp('le', a, b)), a, b)
    return core.r_min(a, b)


def _abs(a):
    return abs(a)


def _neg(a):
    return -core.to_int(a)


def _conv_uf(n):
    return lambda *a: core.r_uf(n, *a)


def _hyp(a, b):
    return core.r_sqrt(core.r_add(core.r_mul(a, a), core.r_mul(b, b)))


def _deg(k):
    return lambda a: core.r_mul(a, k)


def _isfin(a):
    return core.r_isfinite(a)


UF = {
    'add': _int2('add', core.r_add), 'subtract': _int2('sub', core.r_sub),
    'multiply': _int2('mul', core.r_mul), 'divide': core.r_div, 'true_divide': core.r_div,
    'floor_divide': _int2('floordiv', core.r_floordiv), 'remainder': _int2('mod', core.r_mod),
    'mod': _int2('mod', core.r_mod),
    'power': lambda a, b: core._i_pow(a, b) if core._isint(a) and core._isint(b) else core.r_pow(a, b),
    'float_power': core.r_pow,
    'negative': _neg, 'positive': lambda a: a, 'absolute': _abs, 'fabs': _abs,
    'square': lambda a: _int2('mul', core.r_mul)(a, a),
    'sqrt': core.r_sqrt, 'sign': core.r_sign, 'reciprocal': lambda a: core.r_div(1.0, a),
    'rint': core.r_rint, 'floor': core.r_floor, 'ceil': core.r_ceil, 'trunc': core.r_trunc,
    'maximum': _u_max, 'minimum': _u_min,
    'fmax': lambda a, b: core.r_fmax(a, b, True), 'fmin': lambda a, b: core.r_fmax(a, b, False),
    'less': _cmp('lt', core.r_lt), 'less_equal': _cmp('le', core.r_le),
    'greater': _cmp('gt', core.r_gt), 'greater_equal': _cmp('ge', core.r_ge),
    'equal': _s_eq, 'not_equal': lambda a, b: _inv(_s_eq(a, b)),
    'logical_and': lambda a, b: mkbool(b_and(tbool(a), tbool(b))),
    'logical_or': lambda a, b: mkbool(b_or(tbool(a), tbool(b))),
    'logical_xor': lambda a, b: mkbool(core.b_xor(tbool(a), tbool(b))),
    'logical_not': lambda a: mkbool(b_not(tbool(a))),
    'bitwise_and': _bit('and'), 'bitwise_or': _bit('or'), 'bitwise_xor': _bit('xor'),
    'invert': _inv, 'bitwise_not': _inv, 'bitwise_invert': _inv,
    'left_shift': lambda a, b: core.i_bin('lshift', a, b), 'right_shift': lambda a, b: core.i_bin('rshift', a, b),
    'isnan': core.r_isnan, 'isinf': core.r_isinf, 'isfinite': _isfin,
    'hypot': _hyp, 'deg2rad': _deg(math.pi / 180), 'radians': _deg(math.pi / 180),
    'rad2deg': _deg(180 / math.pi), 'degrees': _deg(180 / math.pi),
    'conjugate': lambda a: a, 'signbit': lambda a: core.r_lt(a, 0.0),
    'copysign': lambda a, b: ite(core.r_lt(b, 0.0), core.r_neg(core.r_abs(a)), core.r_abs(a)),
    'heaviside': lambda a, b: ite(core.r_lt(a, 0.0), 0.0, ite(core.r_eq(a, 0.0), b, 1.0)),
}
for _n in ('exp', 'log', 'log10', 'log2', 'sin', 'cos', 'tan', 'arctan', 'arcsin', 'arccos', 'arctan2', 'log1p',
           'expm1', 'sinh', 'cosh', 'tanh', 'exp2', 'cbrt'):
    UF[_n] = _conv_uf(_n)

PREDICATES = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and', 'logical_or',
              'logical_xor', 'logical_not', 'isnan', 'isinf', 'isfinite', 'signbit'}


def _dummy(x):
    """concrete stand-in with the logical dtype of x, for dtype resolution"""
    if isinstance(x, (SymArray, GSel)):
        return np.ones((1,), dtype=x.dtype)
    if isinstance(x, np.ndarray):
        return np.ones((1,), dtype=rawdt(x))
    t = type(x)
    if t is SymReal:
        return np.float64(1.0)
    if t is SymBool:
        return np.bool_(True)
    if t is SymInt:
        return x.dt.type(1) if x.dt != I8 else 1
    return x


def result_ld(ufunc, inputs):
    if ufunc.__name__ in PREDICATES:
        return B1
    ds = [_dummy(x) for x in inputs]
    ds = [1.0 if isinstance(d, float) and not isinstance(d, np.floating) else d for d in ds]
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = ufunc(*[d for d in ds])
    if isinstance(r, tuple):
        r = r[0]
    return np.asarray(r).dtype


def _conc_apply(ufunc, args, dts):
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = ufunc(*args)
    if isinstance(r, np.bool_):
        return bool(r)
    if isinstance(r, np.float64):
        return float(r)
    if isinstance(r, np.integer):
        return int(r)
    return r


def elementwise(ufunc, arrs, rld, fn, where=True, dts=None):
    """broadcast object arrays and apply"""
    bs = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    shape = bs[0].shape
    out = np.ndarray(shape, dtype=object)
    cdts = dts
    for i in np.ndindex(shape):
        args = [b[i] for b in bs]
        if any(is_sym(x) for x in args):
            v = fn(*args)
        else:
            cargs = [x if d is None or d == OBJ else d.type(x) for x, d in zip(args, cdts)]
            v = _conc_apply(ufunc, cargs, cdts)
        out[i] = v
    return out


def array_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    kw = dict(kw)
    out = kw.pop('out', None)
    if isinstance(out, tuple):
        out = out[0] if len(out) == 1 else out
    where = kw.pop('where', True)
    dtype = norm_dtype(kw.pop('dtype', None))
    for k in ('casting', 'order', 'subok', 'signature'):
        kw.pop(k, None)
    if any(isinstance(x, np.ma.MaskedArray) or getattr(x, '_symmasked', False) for x in inputs):
        return NotImplemented
    if any(isinstance(x, GIdx) for x in inputs):
        inputs = tuple(x.materialise() if isinstance(x, GIdx) else x for x in inputs)
    if method == 'reduce':
        return uf_reduce(ufunc, inputs[0], out=out, dtype=dtype, where=where, **kw)
    if method == 'accumulate':
        return uf_accumulate(ufunc, inputs[0], **kw)
    if method == 'outer':
        a, b = asarr(inputs[0]), asarr(inputs[1])
        a2 = a.reshape(a.shape + (1,) * b.ndim)
        return array_ufunc(ufunc, '__call__', (a2, b), {})
    if method == 'at':
        a, idx = inputs[0], inputs[1]
        idx = _conc_index(idx)
        if len(inputs) == 2:
            raise EngineLimit('ufunc.at unary')
        b = raw(asarr(inputs[2]))
        idxs = idx if isinstance(idx, tuple) else (idx,)
        ii = np.broadcast_arrays(*[np.asarray(x) for x in idxs])
        b = np.broadcast_to(b, ii[0].shape)
        for n in np.ndindex(ii[0].shape):
            kk = tuple(int(x[n]) for x in ii)
            a[kk] = unwrap0(array_ufunc(ufunc, '__call__', (a[kk], b[n]), {}))
        return None
    if method != '__call__':
        raise EngineLimit('ufunc method %s' % method)
    if name == 'matmul':
        return f_matmul(*inputs)
    if name in ('divmod',):
        return (array_ufunc(np.floor_divide, '__call__', inputs, {}), array_ufunc(np.remainder, '__call__', inputs, {}))
    if name == 'modf':
        t = np.trunc(inputs[0])
        return inputs[0] - t, t
    fn = UF.get(name)
    if fn is None:
        raise EngineLimit('ufunc ' + name)

    # guarded selections
    gs = [x for x in inputs if isinstance(x, GSel)]
    if gs:
        ok = all(_same_guards(g.guards, gs[0].guards) and g.vals.shape == gs[0].vals.shape for g in gs) and \
            all(isinstance(x, GSel) or not isinstance(x, (np.ndarray, list, tuple)) or
                getattr(x, 'ndim', 1) == 0 for x in inputs) and out is None
        if ok:
            ins = [wrap(x.vals, x._ld) if isinstance(x, GSel) else x for x in inputs]
            r = array_ufunc(ufunc, '__call__', tuple(ins), {})
            return GSel(raw(r), gs[0].guards, r._ld)
        inputs = tuple(x.materialise() if isinstance(x, GSel) else x for x in inputs)
        return array_ufunc(ufunc, '__call__', inputs, dict(out=(out,) if out is not None else None, where=where)
                           if out is not None or where is not True else {})

    if any(isinstance(x, (str, SymStr)) for x in inputs) or \
            any(isinstance(x, SymArray) and x.dtype == OBJ for x in inputs):
        rld = B1 if name in PREDICATES else OBJ
    else:
        try:
            rld = result_ld(ufunc, [asarr(x) if isinstance(x, (list, tuple)) else x for x in inputs])
        except TypeError as e:
            raise e
    if dtype is not None and name not in PREDICATES:
        rld = dtype
    arrs, dts = [], []
    for x in inputs:
        if isinstance(x, SymArray):
            arrs.append(raw(x))
            dts.append(x.dtype)
        elif isinstance(x, np.ndarray):
            arrs.append(to_obj(x))
            dts.append(rawdt(x) if rawdt(x) != OBJ else None)
        elif isinstance(x, (list, tuple)):
            s = asarr(x)
            arrs.append(raw(s))
            dts.append(s.dtype)
        else:
            o = np.ndarray((), dtype=object)
            o[()] = x
            arrs.append(o)
            dts.append(scalar_dt(x) if not isinstance(x, (int, float)) or isinstance(x, np.generic) else None)
    # integer ops on concrete values: use the result dtype for wrap-around
    if rld.kind in 'iu' and name in ('add', 'subtract', 'multiply', 'left_shift', 'power', 'bitwise_or', 'bitwise_and',
                                     'bitwise_xor', 'invert', 'negative'):
        dts = [rld if d is not None and d.kind in 'iub' or d is None else d for d in dts]
    res = elementwise(ufunc, arrs, rld, fn, dts=dts)
    # normalise element types to the result dtype
    if rld != OBJ:
        for i in np.ndindex(res.shape):
            x = res[i]
            if is_sym(x):
                t = type(x)
                if rld.kind == 'f' and t is not SymReal or rld.kind in 'iu' and (t is not SymInt or x.dt != rld) or \
                        rld.kind == 'b' and t is not SymBool:
                    res[i] = cast_scalar(x, rld)
            elif rld.kind == 'f' and not isinstance(x, float) and not is_sym(x):
                res[i] = float(x)
            elif rld.kind == 'b' and not isinstance(x, bool):
                res[i] = bool(x)
    r = wrap(res, rld)
    if out is not None:
        if isinstance(out, tuple):
            raise EngineLimit('multiple outputs')
        oldt = out.dtype
        if not _o['can_cast'](rld, oldt, 'same_kind'):
            raise np.exceptions.DTypePromotionError if False else TypeError(
                "Cannot cast ufunc '%s' output from %r to %r with casting rule 'same_kind'" % (name, rld, oldt))
        if not isinstance(out, SymArray):
            if has_sym(r):
                raise EngineLimit('in-place symbolic write into a native array')
            w = True if where is True else where
            np.copyto(out, raw(r).astype(oldt), where=w)
            return out
        if out.shape != r.shape and np.broadcast_shapes(out.shape, r.shape) != out.shape:
            raise ValueError('non-broadcastable output operand with shape %s' % (out.shape,))
        if where is not True:
            setitem(out, np.broadcast_to(asarr(where), out.shape), 0) if False else _masked_copy(out, r, where)
        else:
            setitem(out, Ellipsis, r)
        return out
    if where is not True:
        base = wrap(_full_obj(r.shape, 0), rld)
        _masked_copy(base, r, where)
        r = base
    if r.ndim == 0 and not any(isinstance(x, np.ndarray) and x.ndim == 0 and False for x in inputs):
        return raw(r)[()]
    return r


def _full_obj(shape, v):
    o = np.ndarray(shape, dtype=object)
    t = np.ndarray((), dtype=object)
    t[()] = v
    o[...] = t
    return o


def _masked_copy(dst, src, where):
    w = raw(np.broadcast_to(asarr(where), dst.shape))
    s = np.broadcast_to(raw(src), dst.shape)
    d = raw(dst)
    for i in np.ndindex(dst.shape):
        d[i] = ite(tbool(w[i]), store_cast(s[i], dst._ld), d[i])


_IDENT = {'add': 0, 'multiply': 1, 'logical_or': False, 'logical_and': True, 'bitwise_or': 0, 'bitwise_and': -1,
          'bitwise_xor': 0, 'logical_xor': False}


def _norm_axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (int, np.integer)):
        axis = (axis,)
    out = []
    for a in axis:
        a = int(a)
        if not -nd <= a < nd:
            raise np.exceptions.AxisError(a, nd)
        out.append(a % nd)
    return tuple(out)


def reduce_axes(a, axis, fn, keepdims=False):
    """apply fn(list of elements) over the given axes; returns object ndarray"""
    r = raw(a)
    ax = _norm_axes(axis, r.ndim)
    keep = [i for i in range(r.ndim) if i not in ax]
    oshape = tuple(r.shape[i] for i in keep)
    out = np.ndarray(oshape, dtype=object)
    t = np.transpose(r, keep + list(ax)).reshape(oshape + (-1,))
    for i in np.ndindex(oshape):
        out[i] = fn(list(t[i]))
    if keepdims:
        out = out.reshape(tuple(1 if i in ax else r.shape[i] for i in range(r.ndim)))
    return out


def fin(o, ld):
    """object ndarray -> SymArray or scalar"""
    if o.ndim == 0:
        return o[()]
    return wrap(o, ld)


def uf_reduce(ufunc, a, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=True, **kw):
    name = ufunc.__name__
    if isinstance(a, GSel):
        if name == 'add' and a._simple():
            return a.sum()
        if name == 'logical_or' and a._simple():
            return a.any()
        if name == 'logical_and' and a._simple():
            return a.all()
        a = a.materialise()
    a = asarr(a)
    if initial is np._NoValue:
        initial = None
    fn = UF.get(name)
    if fn is None:
        raise EngineLimit('reduce ' + name)
    ld = a.dtype
    if name in ('logical_or', 'logical_and', 'logical_xor'):
        rld = B1
    elif name in ('add', 'multiply'):
        rld = dtype or (I8 if ld.kind == 'b' or (ld.kind == 'i' and ld.itemsize < 8) else
                        (np.dtype(np.uint64) if ld.kind == 'u' else ld))
    else:
        rld = dtype or ld
    if where is not True:
        w = np.broadcast_to(asarr(where), a.shape)
        ident = initial if initial is not None else _IDENT.get(name)
        if ident is None:
            raise ValueError('reduction operation with where needs initial')
        base = _full_obj(a.shape, ident)
        s, ww = raw(a), raw(w)
        for i in np.ndindex(a.shape):
            base[i] = ite(tbool(ww[i]), s[i], ident)
        a = wrap(base, ld)

    dts1 = None if rld == OBJ else rld

    def red(xs):
        if initial is not None:
            acc = initial
        elif not xs:
            if name in _IDENT:
                return cast_scalar(_IDENT[name], rld) if rld != OBJ else _IDENT[name]
            raise ValueError('zero-size array to reduction operation %s which has no identity' % name)
        else:
            acc = xs[0]
            xs = xs[1:]
            if name.startswith('logical'):
                acc = mkbool(tbool(acc))
            elif rld.kind in 'iuf':
                acc = cast_scalar(acc, rld)
        if name == 'logical_or':
            return mkbool(fold(b_or(tbool(acc), *[tbool(x) for x in xs])))
        if name == 'logical_and':
            return mkbool(fold(b_and(tbool(acc), *[tbool(x) for x in xs])))
        for x in xs:
            if is_sym(acc) or is_sym(x):
                acc = fn(acc, x)
            else:
                c = (acc, x) if dts1 is None else (dts1.type(acc), dts1.type(x))
                acc = _conc_apply(ufunc, c, None)
        return acc
    o = reduce_axes(a, axis, red, keepdims=keepdims)
    r = fin(o, rld)
    if out is not None:
        out[...] = r
        return out
    return r


def uf_accumulate(ufunc, a, axis=0, **kw):
    a = asarr(a)
    out = a.copy()
    n = a.shape[axis]
    o = raw(out)
    o = np.moveaxis(o, axis, 0)
    for i in range(1, n):
        o[i] = raw(asarr(array_ufunc(ufunc, '__call__', (wrap(o[i - 1] if o.ndim > 1 else _o['array'](o[i - 1], dtype=object), a._ld),
                                                  wrap(o[i] if o.ndim > 1 else _o['array'](o[i], dtype=object), a._ld)), {})))
    return out


# ----------------------------------------------------------------------------
# array functions

FN = {}


def impl(*names):
    def deco(f):
        for n in names:
            obj = np
            for p in n.split('.'):
                obj = getattr(obj, p)
            FN[obj] = f
        return f
    return deco


def array_function(func, types, args, kwargs):
    f = FN.get(func)
    if f is not None:
        return f(*args, **kwargs)
    name = getattr(func, '__name__', str(func))
    if name in STRUCTURAL:
        return structural(func, args, kwargs)
    raise EngineLimit('numpy function ' + name)


STRUCTURAL = {'concatenate', 'stack', 'vstack', 'hstack', 'dstack', 'column_stack', 'row_stack', 'reshape', 'ravel',
              'transpose', 'swapaxes', 'moveaxis', 'rollaxis', 'expand_dims', 'squeeze', 'broadcast_to', 'tile',
              'repeat', 'roll', 'flip', 'fliplr', 'flipud', 'rot90', 'pad', 'take', 'diag', 'diagonal', 'tril', 'triu',
              'split', 'array_split', 'hsplit', 'vsplit', 'dsplit', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'append', 'insert',
              'delete', 'broadcast_arrays', 'resize', 'take_along_axis', 'meshgrid', 'block', 'flatnonzero_', 'choose_',
              'matrix_transpose', 'permute_dims', 'unstack', 'compress', 'trim_zeros_'}


def _strip(x, dts, keep):
    if isinstance(x, (GSel, GIdx)):
        x = x.materialise()
    if isinstance(x, SymArray):
        dts.append(x.dtype)
        return raw(x)
    if is_sym(x):
        dts.append(scalar_dt(x))
        o = np.ndarray((), dtype=object)
        o[()] = x
        return o
    if isinstance(x, np.ndarray):
        if id(x) not in keep:
            dts.append(rawdt(x) if rawdt(x) != OBJ else infer_ld(x))
        return x
    if isinstance(x, (list, tuple)):
        return type(x)(_strip(v, dts, keep) for v in x)
    return x


def structural(func, args, kwargs):
    name = func.__name__
    dts = []
    args = list(args)
    if name in ('take', 'delete', 'insert', 'compress', 'take_along_axis', 'roll', 'repeat', 'tile', 'split', 'array_split'):
        # index-like second argument must be concrete and not contribute a dtype
        a0 = _strip(args[0], dts, ())
        rest = [_conc_index(x) if name in ('take', 'delete', 'take_along_axis') and i == 0 else x
                for i, x in enumerate(args[1:])]
        if name == 'compress':
            a0, rest = args[0], [_strip(args[1], dts, ())] + list(args[2:])
            dts = [asarr(args[1]).dtype]
        if name == 'insert':
            vals = raw(cast(asarr(rest[1]), dts[0]))
            rest = [_conc_index(rest[0]), vals] + rest[2:]
        kwargs = {k: (_conc_index(v) if any_sym_deep(v) else v) for k, v in kwargs.items()}
        if isinstance(a0, np.ndarray) and rawdt(a0) != OBJ:
            a0 = to_obj(a0)
        r = func(a0, *rest, **kwargs)
    else:
        sargs = [_strip(x, dts, ()) for x in args]
        skw = {}
        for k, v in kwargs.items():
            if k == 'out' and v is not None:
                raise EngineLimit('out=')
            d2 = []
            skw[k] = _strip(v, d2, ()) if k not in ('dtype', 'casting') else v
            if k in ('constant_values',):
                pass
        skw.pop('dtype', None)
        if name == 'append':
            # values may be plain scalars
            for x in args[1:2]:
                if not isinstance(x, (np.ndarray, GSel)) and not is_sym(x):
                    dts.append(_o['asarray'](x).dtype if not any_sym_deep(x) else asarr(x).dtype)
        if name == 'pad' and 'constant_values' in kwargs and any_sym_deep(kwargs['constant_values']):
            pass
        sargs = _lists_to_obj(sargs)
        r = func(*sargs, **skw)
    ld = None
    if dts:
        ld = dts[0]
        for d in dts[1:]:
            ld = np.promote_types(ld, d) if OBJ not in (ld, d) else OBJ
    if kwargs.get('dtype') is not None and name in ('concatenate', 'stack', 'hstack', 'vstack'):
        return cast(_rewrap(r, ld), norm_dtype(kwargs['dtype']))
    return _rewrap(r, ld)


def _lists_to_obj(x):
    """native arrays mixed with object arrays: convert the native ones to objects"""
    out = []
    for v in x:
        if isinstance(v, np.ndarray) and rawdt(v) != OBJ:
            v = to_obj(v)
        elif isinstance(v, (list, tuple)):
            v = type(v)(_lists_to_obj(v))
        out.append(v)
    return out


def _rewrap(r, ld):
    if isinstance(r, np.ndarray):
        if rawdt(r) != OBJ:
            r = to_obj(r)
        w = wrap(r, ld)
        if ld is not None and ld != OBJ and ld.kind == 'f':
            rr = raw(w)
            for i in np.ndindex(r.shape):
                if not isinstance(rr[i], float) and (is_sym(rr[i]) or isinstance(rr[i], (int, np.integer, bool))):
                    w = cast(wrap(r, None if False else OBJ), ld) if r.flags.writeable or True else w
                    break
        return w
    if isinstance(r, (list, tuple)):
        return type(r)(_rewrap(v, ld) for v in r) if not hasattr(r, '_fields') else tuple(_rewrap(v, ld) for v in r)
    return r


# -- values

def _arr(a):
    if isinstance(a, GSel):
        return a.materialise()
    return asarr(a)


@impl('sum')
def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    if keepdims is np._NoValue:
        keepdims = False
    if where is np._NoValue:
        where = True
    if isinstance(a, GSel) and a._simple() and axis in (None, 0, -1) and where is True:
        return a.sum()
    return uf_reduce(np.add, _arr(a), axis=axis, dtype=norm_dtype(dtype), out=out, keepdims=keepdims,
                     initial=initial, where=where)


@impl('prod')
def f_prod(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    return uf_reduce(np.multiply, _arr(a), axis=axis, out=out, keepdims=bool(keepdims) if keepdims is not np._NoValue else False)


def _count(a, axis):
    ax = _norm_axes(axis, a.ndim)
    n = 1
    for i in ax:
        n *= a.shape[i]
    return n


def _kd(k):
    return False if k is np._NoValue else bool(k)


def _mean_list(xs):
    n = len(xs)
    if n == 0:
        return float('nan')
    s = 0.0
    for x in xs:
        s = core.r_add(s, x) if is_sym(s) or is_sym(x) else s + float(x)
    return core.r_div(s, float(n)) if is_sym(s) else s / n


def _fdt(a):
    return a.dtype if a.dtype.kind == 'f' else F8


@impl('mean')
def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    if where is np._NoValue:
        where = True
    if isinstance(a, GSel):
        if a._simple() and axis in (None, 0, -1) and where is True:
            return a.mean()
    a = _arr(a)
    if where is not True:
        s = f_sum(a, axis=axis, keepdims=keepdims, where=where)
        n = f_sum(np.broadcast_to(asarr(where), a.shape), axis=axis, keepdims=keepdims)
        return np.true_divide(s, n)
    return fin(reduce_axes(a, axis, _mean_list, _kd(keepdims)), _fdt(a))


@impl('average')
def f_average(a, axis=None, weights=None, returned=False, keepdims=False):
    a = _arr(a)
    if weights is None:
        r = f_mean(a, axis, keepdims=keepdims)
        if returned:
            return r, np.sum(np.ones(a.shape), axis=axis)
        return r
    w = _arr(weights)
    if w.shape != a.shape:
        if axis is None or w.ndim != 1:
            raise TypeError('Axis must be specified when shapes of a and weights differ.')
        ax = _norm_axes(axis, a.ndim)[0]
        w = w.reshape((1,) * ax + (-1,) + (1,) * (a.ndim - ax - 1))
        w = np.broadcast_to(w, a.shape)
    s = f_sum(w, axis=axis, keepdims=_kd(keepdims))
    r = f_sum(a * w, axis=axis, keepdims=_kd(keepdims)) / s
    return (r, s) if returned else r


def _var_list(ddof):
    def f(xs):
        n = len(xs)
        m = _mean_list(xs)
        s = 0.0
        for x in xs:
            d = core.r_sub(x, m)
            s = core.r_add(s, core.r_mul(d, d))
        return core.r_div(s, float(n - ddof))
    return f


@impl('var')
def f_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True, mean=None, correction=None):
    if isinstance(a, GSel) and a._simple() and axis in (None, 0, -1):
        return a.var(ddof=ddof)
    a = _arr(a)
    return fin(reduce_axes(a, axis, _var_list(ddof), _kd(keepdims)), _fdt(a))


@impl('std')
def f_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True, mean=None, correction=None):
    v = f_var(a, axis=axis, ddof=ddof, keepdims=keepdims)
    return np.sqrt(v) if isinstance(v, np.ndarray) else core.r_sqrt(v)


def sort_list(xs):
    """sorting network (insertion) over numeric scalars; NaN handling is the caller's"""
    xs = list(xs)
    n = len(xs)
    if n > 1 and all(type(x) is SymReal and x.nan is False and x.inf is False and type(xs[0]) is SymReal and xs[0].nan is False
                     and xs[0].inf is False and x.v.eq(xs[0].v) for x in xs):
        return xs
    if n > 12 and any(is_sym(x) for x in xs):
        raise EngineLimit('symbolic sort of %d elements' % n)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = xs[j], xs[j + 1]
            if not is_sym(a) and not is_sym(b):
                if b < a:
                    xs[j], xs[j + 1] = b, a
                continue
            c = tbool(core.r_le(a, b) if not (core._isint(a) and core._isint(b)) else core.i_cmp('le', core.to_int(a), core.to_int(b)))
            xs[j], xs[j + 1] = ite(c, a, b), ite(c, b, a)
    return xs


def _nanflags(xs):
    return [core.lift_real(x)[1] if is_sym(x) or isinstance(x, (float, np.floating)) else False for x in xs]


def _median_list(xs):
    n = len(xs)
    if n == 0:
        return float('nan')
    nf = _nanflags(xs)
    anynan = fold(b_or(*nf)) if any(f is not False for f in nf) else False
    if anynan is True:
        return float('nan')
    clean = xs
    if anynan is not False:
        clean = [core.mkreal(core.lift_real(x)[0], False, core.lift_real(x)[2]) for x in xs]
    s = sort_list(clean)
    if n % 2:
        m = s[n // 2]
        m = core.r_add(m, 0.0) if is_sym(m) else float(m)
    else:
        m = core.r_div(core.r_add(s[n // 2 - 1], s[n // 2]), 2.0)
    if anynan is not False:
        v, nn, i = core.lift_real(m)
        m = core.mkreal(v, b_or(nn, anynan), i)
    return m


@impl('median')
def f_median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    a = _arr(a)
    return fin(reduce_axes(a, axis, _median_list, _kd(keepdims)), _fdt(a))


def _nan_list(fn):
    """apply fn to the non-NaN elements by case-splitting on the NaN flags"""
    def g(xs):
        nf = [fold(f) for f in _nanflags(xs)]
        und = [i for i, f in enumerate(nf) if not isinstance(f, bool)]
        if not und:
            return fn([x for x, f in zip(xs, nf) if not f])
        if len(und) > 5:
            raise EngineLimit('too many possibly-NaN elements')
        clean = [x if isinstance(f, bool) else core.mkreal(core.lift_real(x)[0], False, core.lift_real(x)[2])
                 for x, f in zip(xs, nf)]
        res = None
        for bits in itertools.product((True, False), repeat=len(und)):
            cond = True
            keep = []
            bm = dict(zip(und, bits))
            for i, x in enumerate(clean):
                isn = bm[i] if i in bm else nf[i]
                if i in bm:
                    cond = b_and(cond, nf[i] if isn else b_not(nf[i]))
                if not isn:
                    keep.append(x)
            v = fn(keep)
            res = v if res is None else ite(cond, v, res)
        return res
    return g


def _nanred(fn, ldf=_fdt):
    def h(a, axis=None, dtype=None, out=None, keepdims=False, **k):
        if isinstance(a, GSel) and a._simple():
            a = a.materialise()
        a = _arr(a)
        return fin(reduce_axes(a, axis, _nan_list(fn), _kd(keepdims)), ldf(a))
    return h


FN[np.nanmedian] = _nanred(_median_list)


def _nanmean_list(xs):
    """guarded sums; no case split needed"""
    nf = [fold(f) for f in _nanflags(xs)]
    if all(isinstance(f, bool) for f in nf):
        return _mean_list([x for x, f in zip(xs, nf) if not f])
    s, n = _nansum_n(xs, nf)
    return core.r_div(s, n)


def _nansum_n(xs, nf):
    s, n = 0.0, 0
    for x, f in zip(xs, nf):
        if f is True:
            continue
        v, _, i = core.lift_real(x)
        c = core.mkreal(v, False, i)
        s = core.r_add(s, ite(b_not(f), c, 0.0))
        n = n + core.to_int(mkbool(b_not(f)))
    return s, n


@impl('nanmean')
def f_nanmean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    a = _arr(a)
    return fin(reduce_axes(a, axis, _nanmean_list, _kd(keepdims)), _fdt(a))


@impl('nansum')
def f_nansum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = _arr(a)
    if a.dtype.kind != 'f':
        return f_sum(a, axis=axis, keepdims=keepdims)
    return fin(reduce_axes(a, axis, lambda xs: _nansum_n(xs, [fold(f) for f in _nanflags(xs)])[0], _kd(keepdims)), a.dtype)


def _nanvar_list(ddof):
    def f(xs):
        nf = [fold(f) for f in _nanflags(xs)]
        if all(isinstance(q, bool) for q in nf):
            ys = [x for x, q in zip(xs, nf) if not q]
            return _var_list(ddof)(ys) if ys else float('nan')
        m = _nanmean_list(xs)
        s, n = 0.0, 0
        for x, q in zip(xs, nf):
            if q is True:
                continue
            v, _, i = core.lift_real(x)
            d = core.r_sub(core.mkreal(v, False, i), m)
            s = core.r_add(s, ite(b_not(q), core.r_mul(d, d), 0.0))
            n = n + core.to_int(mkbool(b_not(q)))
        return core.r_div(s, n - ddof)
    return f


@impl('nanvar')
def f_nanvar(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = _arr(a)
    return fin(reduce_axes(a, axis, _nanvar_list(ddof), _kd(keepdims)), _fdt(a))


@impl('nanstd')
def f_nanstd(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    v = f_nanvar(a, axis=axis, ddof=ddof, keepdims=keepdims)
    return np.sqrt(v) if isinstance(v, np.ndarray) else core.r_sqrt(v)


def _nanext(mx):
    def f(a, axis=None, out=None, keepdims=False, **k):
        if isinstance(a, GSel):
            a = a.materialise()
        a = _arr(a)

        def red(xs):
            acc = xs[0]
            for x in xs[1:]:
                acc = core.r_fmax(acc, x, mx)
            return acc
        return fin(reduce_axes(a, axis, red, _kd(keepdims)), a.dtype)
    return f


FN[np.nanmax] = _nanext(True)
FN[np.nanmin] = _nanext(False)


@impl('max')
def f_max(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    if initial is np._NoValue:
        initial = None
    if where is np._NoValue:
        where = True
    a = _arr(a)
    return uf_reduce(np.maximum, a, axis=axis, keepdims=_kd(keepdims), initial=initial, where=where)


@impl('min')
def f_min(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    if initial is np._NoValue:
        initial = None
    if where is np._NoValue:
        where = True
    a = _arr(a)
    return uf_reduce(np.minimum, a, axis=axis, keepdims=_kd(keepdims), initial=initial, where=where)


@impl('ptp')
def f_ptp(a, axis=None, **k):
    return f_max(a, axis) - f_min(a, axis)


@impl('any')
def f_any(a, axis=None, out=None, keepdims=False, where=True):
    if isinstance(a, GSel) and a._simple() and axis is None:
        return a.any()
    return uf_reduce(np.logical_or, _arr(a), axis=axis, keepdims=_kd(keepdims))


@impl('all')
def f_all(a, axis=None, out=None, keepdims=False, where=True):
    if isinstance(a, GSel) and a._simple() and axis is None:
        return a.all()
    return uf_reduce(np.logical_and, _arr(a), axis=axis, keepdims=_kd(keepdims))


@impl('count_nonzero')
def f_count_nonzero(a, axis=None, keepdims=False):
    if isinstance(a, GSel) and a._simple():
        return (a != 0).sum()
    a = _arr(a)
    return f_sum(cast(a, B1), axis=axis, keepdims=keepdims)


def _arg_list(mx, skipnan=False):
    def f(xs):
        best = None
        for i, x in enumerate(xs):
            nf = core.lift_real(x)[1] if is_sym(x) or isinstance(x, float) else False
            if nf is not False and (nf is True or ctx().branch(nf)):
                if skipnan:
                    continue
                return i
            if best is None:
                best = i
                continue
            c = (x > xs[best]) if mx else (x < xs[best])
            if bool(c):
                best = i
        if best is None:
            if skipnan and xs:
                raise ValueError('All-NaN slice encountered')
            raise ValueError('attempt to get argmax of an empty sequence')
        return best
    return f


def _argf(mx, skipnan=False):
    def f(a, axis=None, out=None, keepdims=False):
        a = _arr(a)
        if axis is None:
            return int(_arg_list(mx, skipnan)(list(raw(a).reshape(-1))))
        o = reduce_axes(a, axis, _arg_list(mx, skipnan), _kd(keepdims))
        return o[()] if o.ndim == 0 else o.astype(np.int64)
    return f


f_argmax = FN[np.argmax] = _argf(True)
f_argmin = FN[np.argmin] = _argf(False)
FN[np.nanargmax] = _argf(True, True)
FN[np.nanargmin] = _argf(False, True)


@impl('sort')
def f_sort(a, axis=-1, kind=None, order=None, **k):
    a = _arr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    o = raw(a).copy()
    t = np.moveaxis(o, axis, -1)
    for i in np.ndindex(t.shape[:-1]):
        xs = list(t[i])
        nf = _nanflags(xs)
        if any(f is not False for f in nf):
            flags = [f if isinstance(f, bool) else ctx().branch(f) for f in nf]
            ys = sort_list([x for x, f in zip(xs, flags) if not f]) + [float('nan')] * sum(flags)
        else:
            ys = sort_list(xs)
        for j, y in enumerate(ys):
            t[i + (j,)] = y
    return wrap(o, a.dtype)


@impl('argsort')
def f_argsort(a, axis=-1, kind=None, order=None, **k):
    a = _arr(a)
    if a.ndim != 1 and axis is not None:
        o = np.ndarray(a.shape, dtype=np.int64)
        t = np.moveaxis(raw(a), axis, -1)
        ot = np.moveaxis(o, axis, -1)
        for i in np.ndindex(t.shape[:-1]):
            ot[i] = f_argsort(wrap(t[i], a.dtype))
        return o
    xs = list(raw(a).reshape(-1))
    idx = []
    for i, x in enumerate(xs):          # stable insertion, forking on comparisons
        j = len(idx)
        while j > 0 and bool(x < xs[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return _o['array'](idx, dtype=np.int64)


@impl('unique')
def f_unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, equal_nan=True, **k):
    a = _arr(ar)
    if axis is not None and not (a.ndim == 1):
        if axis != 0:
            raise EngineLimit('unique axis')
        rows = [a[i] for i in range(len(a))]
        order, inv = _uniq([tuple(raw(r).reshape(-1)) for r in rows])
        out = wrap(raw(a)[order], a.dtype)
    else:
        xs = list(raw(a).reshape(-1))
        order, inv = _uniq([(x,) for x in xs])
        out = wrap(raw(a).reshape(-1)[order], a.dtype)
    res = [out]
    if return_index:
        res.append(_o['array'](order, dtype=np.int64))
    if return_inverse:
        res.append(_o['array'](inv, dtype=np.int64))
    if return_counts:
        res.append(_o['array']([inv.count(i) for i in range(len(order))], dtype=np.int64))
    return res[0] if len(res) == 1 else tuple(res)


def _uniq(keys):
    """forking unique of tuples -> (first indices in sorted order, inverse)"""
    def lt(p, q):
        for x, y in zip(p, q):
            if bool(x < y):
                return True
            if bool(y < x):
                return False
        return False

    def eq(p, q):
        return all(bool(_s_eq(x, y)) if (is_sym(x) or is_sym(y)) else x == y for x, y in zip(p, q))
    reps = []
    for i, kx in enumerate(keys):
        if not any(eq(kx, keys[r]) for r in reps):
            j = len(reps)
            while j > 0 and lt(kx, keys[reps[j - 1]]):
                j -= 1
            reps.insert(j, i)
    inv = []
    for kx in keys:
        for p, r in enumerate(reps):
            if eq(kx, keys[r]):
                inv.append(p)
                break
    return reps, inv


@impl('where')
def f_where(cond, x=None, y=None):
    c = _arr(cond)
    if x is None and y is None:
        return f_nonzero(c)
    xa, ya = asarr(x), asarr(y)
    d1 = _dummy(x) if not isinstance(x, (list, tuple)) else np.ones(1, xa.dtype)
    d2 = _dummy(y) if not isinstance(y, (list, tuple)) else np.ones(1, ya.dtype)
    ld = _o['result_type'](d1, d2) if OBJ not in (xa.dtype, ya.dtype) else OBJ
    cb, xb, yb = np.broadcast_arrays(raw(c), raw(xa), raw(ya))
    out = np.ndarray(cb.shape, dtype=object)
    for i in np.ndindex(cb.shape):
        out[i] = ite(tbool(cb[i]), cast_scalar(xb[i], ld), cast_scalar(yb[i], ld))
    return wrap(out, ld)


@impl('nonzero')
def f_nonzero(a):
    a = _arr(a)
    m = cast(a, B1)
    if not has_sym(m):
        return np.nonzero(raw(m).astype(bool))
    return tuple(GIdx(m, i) for i in range(m.ndim))


@impl('flatnonzero')
def f_flatnonzero(a):
    return f_nonzero(_arr(a).reshape(-1))[0]


@impl('argwhere')
def f_argwhere(a):
    m = cast(_arr(a), B1)
    return np.argwhere(concretise_mask(m))


@impl('extract')
def f_extract(condition, arr):
    return _arr(arr).reshape(-1)[_arr(condition).reshape(-1)]


@impl('clip')
def f_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = a
    if lo is not None:
        r = np.maximum(r, lo)
    if hi is not None:
        r = np.minimum(r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


@impl('round', 'around')
def f_round(a, decimals=0, out=None):
    if decimals == 0:
        if not isinstance(a, np.ndarray) and type(a) is SymInt:
            return a
        return np.rint(a) if _arr(a).dtype.kind == 'f' else a
    k = 10.0 ** decimals
    return np.rint(a * k) / k


@impl('fix')
def f_fix(a, out=None):
    return np.trunc(a)


@impl('isclose')
def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = np.abs(np.subtract(a, b))
    r = d <= (atol + rtol * np.abs(b))
    r = np.logical_or(r, np.equal(a, b))
    if equal_nan:
        r = np.logical_or(r, np.logical_and(np.isnan(a), np.isnan(b)))
    return r


@impl('allclose')
def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return np.all(f_isclose(a, b, rtol, atol, equal_nan))


@impl('array_equal')
def f_array_equal(a, b, equal_nan=False):
    a, b = _arr(a), _arr(b)
    if a.shape != b.shape:
        return False
    r = a == b
    if equal_nan:
        r = np.logical_or(r, np.logical_and(np.isnan(a), np.isnan(b)))
    return np.all(r)


@impl('nan_to_num')
def f_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    a = _arr(x)
    out = a if not copy else a.copy()
    o = raw(out)
    mx = float(np.finfo(float).max)
    for i in np.ndindex(a.shape):
        v, n, inf = core.lift_real(o[i])
        r = core.ite(inf, core.ite(v > 0, mx if posinf is None else posinf, -mx if neginf is None else neginf),
                     core.mkreal(v)) if inf is not False else (core.mkreal(v) if n is not True else nan)
        o[i] = core.ite(n, nan, r)
    return unwrap0(out) if not isinstance(x, np.ndarray) else out


@impl('cumsum')
def f_cumsum(a, axis=None, dtype=None, out=None):
    a = _arr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    r = a.copy()
    if a.dtype == B1:
        r = cast(a, I8)
    o = np.moveaxis(raw(r), axis, 0)
    for i in range(1, o.shape[0]):
        for j in np.ndindex(o.shape[1:]):
            o[(i,) + j] = o[(i - 1,) + j] + o[(i,) + j]
    return r


@impl('diff')
def f_diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):
    a = _arr(a)
    ax = _norm_axes(axis, a.ndim)[0]
    parts = [p for p in (prepend if prepend is not np._NoValue else None, a,
                         append if append is not np._NoValue else None) if p is not None]
    if len(parts) > 1:
        parts = [np.broadcast_to(asarr(p), a.shape[:ax] + (1,) + a.shape[ax + 1:]) if asarr(p).ndim == 0 else asarr(p)
                 for p in parts]
        a = np.concatenate(parts, axis=ax)
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s2 = [slice(None)] * a.ndim
        s1[ax], s2[ax] = slice(1, None), slice(None, -1)
        a = np.not_equal(a[tuple(s1)], a[tuple(s2)]) if a.dtype == B1 else a[tuple(s1)] - a[tuple(s2)]
    return a


@impl('ediff1d')
def f_ediff1d(a, **k):
    a = _arr(a).reshape(-1)
    return a[1:] - a[:-1]


@impl('dot')
def f_dot(a, b, out=None):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim == 1 and b.ndim == 1:
        return f_sum(a * b)
    if b.ndim == 1:
        return f_sum(a * b, axis=-1)
    if a.ndim <= 2 and b.ndim == 2:
        return f_matmul(a, b)
    raise EngineLimit('dot nd')


@impl('matmul') if not isinstance(np.matmul, np.ufunc) else (lambda f: f)
def f_matmul(a, b, **k):
    a, b = asarr(a), asarr(b)
    ld = np.promote_types(a.dtype, b.dtype)
    a1 = b1 = False
    if a.ndim == 1:
        a, a1 = a[None, :], True
    if b.ndim == 1:
        b, b1 = b[:, None], True
    if a.shape[-1] != b.shape[-2]:
        raise ValueError('matmul: Input operand 1 has a mismatch in its core dimension 0 (size %d is different from %d)'
                         % (b.shape[-2], a.shape[-1]))
    r = f_sum(a[..., :, :, None] * b[..., None, :, :], axis=-2)
    r = wrap(raw(r), ld)
    if a1:
        r = r[..., 0, :]
    if b1:
        r = r[..., 0]
    return unwrap0(r)


@impl('inner', 'vdot')
def f_inner(a, b):
    return f_sum(asarr(a) * asarr(b), axis=-1)


@impl('outer')
def f_outer(a, b, out=None):
    return asarr(a).reshape(-1)[:, None] * asarr(b).reshape(-1)[None, :]


@impl('cross')
def f_cross(*a, **k):
    raise EngineLimit('cross')


@impl('einsum')
def f_einsum(*a, **k):
    raise EngineLimit('einsum')


@impl('interp')
def f_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise EngineLimit('interp period')
    xp, fp = asarr(xp), asarr(fp)
    X = [unwrap0(v) for v in xp]
    F = [unwrap0(v) for v in fp]
    lv = F[0] if left is None else left
    rvv = F[-1] if right is None else right

    def one(v):
        # piecewise linear, left/right clamped
        n = len(X)
        if n == 1:
            res = ite(core.r_lt(v, X[0]), lv, ite(core.r_lt(X[0], v), rvv, F[0]))
            return res
        res = ite(core.r_eq(v, X[-1]), F[-1], rvv)
        for j in range(n - 2, -1, -1):
            dx = core.r_sub(X[j + 1], X[j])
            sl = core.r_div(core.r_sub(F[j + 1], F[j]), dx)
            y = core.r_add(core.r_mul(sl, core.r_sub(v, X[j])), F[j])
            res = ite(core.r_lt(v, X[j + 1]), y, res)
        res = ite(core.r_lt(v, X[0]), lv, res)
        nf = core.lift_real(v)[1]
        if nf is not False:
            res = ite(nf, float('nan'), res)
        return core.r_add(res, 0.0) if is_sym(res) else float(res)
    if isinstance(x, (np.ndarray, list, tuple)) and asarr(x).ndim:
        xa = asarr(x)
        out = np.ndarray(xa.shape, dtype=object)
        for i in np.ndindex(xa.shape):
            out[i] = one(raw(xa)[i])
        return wrap(out, F8)
    return one(unwrap0(asarr(x)))


@impl('searchsorted')
def f_searchsorted(a, v, side='left', sorter=None):
    a = asarr(a)
    xs = [unwrap0(q) for q in a]

    def one(t):
        n = 0
        for x in xs:
            c = core.r_lt(x, t) if side == 'left' else core.r_le(x, t)
            n = n + core.to_int(c) if is_sym(c) else n + int(bool(c))
        return n
    v = v if isinstance(v, np.ndarray) else asarr(v)
    if v.ndim:
        out = np.ndarray(v.shape, dtype=object)
        vv = raw(asarr(v))
        for i in np.ndindex(v.shape):
            out[i] = one(vv[i])
        return wrap(out, I8)
    return one(unwrap0(asarr(v)))


@impl('digitize')
def f_digitize(x, bins, right=False):
    return f_searchsorted(bins, x, side='left' if right else 'right')


@impl('histogram')
def f_histogram(a, bins=10, range=None, density=None, weights=None):
    if isinstance(bins, (int, np.integer)):
        a = asarr(a)
        if has_sym(a) or any_sym_deep((range, weights)):
            raise EngineLimit('histogram with automatic bins')
        return np.histogram(raw(a).astype(float), int(bins), range=range, density=density, weights=weights)
    b = asarr(bins)
    e = [unwrap0(q) for q in b]
    xs = list(raw(asarr(a)).reshape(-1))
    out = np.ndarray((len(e) - 1,), dtype=object)
    for j in np.arange(len(e) - 1):
        n = 0
        for x in xs:
            hi = core.r_le(x, e[j + 1]) if j == len(e) - 2 else core.r_lt(x, e[j + 1])
            c = mkbool(b_and(tbool(core.r_le(e[j], x)), tbool(hi)))
            n = n + core.to_int(c) if is_sym(c) else n + int(c)
        out[j] = n
    return wrap(out, I8), bins


@impl('percentile')
def f_percentile(a, q, axis=None, **k):
    return f_quantile(a, q / 100.0, axis=axis, **k)


@impl('quantile')
def f_quantile(a, q, axis=None, **k):
    if k.get('method', 'linear') != 'linear' or any_sym_deep(q) or isinstance(q, (list, tuple, np.ndarray)):
        raise EngineLimit('quantile')
    a = _arr(a)

    def red(xs):
        s = sort_list(xs)
        pos = q * (len(xs) - 1)
        lo = int(math.floor(pos))
        hi = min(lo + 1, len(xs) - 1)
        f = pos - lo
        return core.r_add(core.r_mul(s[lo], 1 - f), core.r_mul(s[hi], f))
    return fin(reduce_axes(a, axis, red, _kd(k.get('keepdims', False))), F8)


@impl('polyval')
def f_polyval(p, x):
    y = 0.0
    for c in asarr(p):
        y = y * x + unwrap0(c)
    return y


@impl('isin')
def f_isin(element, test_elements, assume_unique=False, invert=False, **k):
    e = asarr(element)
    ts = list(raw(asarr(list(test_elements) if not isinstance(test_elements, np.ndarray) else test_elements)).reshape(-1))
    out = np.ndarray(e.shape, dtype=object)
    for i in np.ndindex(e.shape):
        c = mkbool(fold(b_or(*[tbool(_s_eq(raw(e)[i], t)) if is_sym(raw(e)[i]) or is_sym(t) else raw(e)[i] == t for t in ts])))
        out[i] = ite(tbool(c), not invert, invert) if invert else c
    return fin(out, B1)


@impl('isreal')
def f_isreal(x):
    return np.ones(asarr(x).shape, dtype=bool)


@impl('isrealobj')
def f_isrealobj(x):
    return True


@impl('iscomplexobj')
def f_iscomplexobj(x):
    return False


@impl('shape')
def f_shape(a):
    return asarr(a).shape


@impl('ndim')
def f_ndim(a):
    return asarr(a).ndim


@impl('size')
def f_size(a, axis=None):
    if isinstance(a, (GSel, GIdx)):
        return a.size
    a = asarr(a)
    return a.size if axis is None else a.shape[axis]


@impl('copy')
def f_copy(a, order='K', subok=False):
    return sym_array(a)


@impl('real')
def f_real(a):
    return a


@impl('copyto')
def f_copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        _masked_copy(dst, asarr(src), where)


@impl('putmask')
def f_putmask(a, mask, values):
    a[asarr(mask)] = values


@impl('place')
def f_place(a, mask, vals):
    a[asarr(mask)] = vals[0] if len(vals) == 1 else vals


@impl('fill_diagonal')
def f_filld(a, val, wrap=False):
    for i in range(min(a.shape)):
        a[i, i] = val


@impl('packbits')
def f_packbits(a, axis=None, bitorder='big'):
    a = _arr(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    z3 = core.z3
    t = np.moveaxis(raw(a), axis, -1)
    n = (t.shape[-1] + 7) // 8
    out = np.ndarray(t.shape[:-1] + (n,), dtype=object)
    for i in np.ndindex(out.shape):
        v = z3.BitVecVal(0, 8)
        for b in range(8):
            src = i[-1] * 8 + b
            if src < t.shape[-1]:
                sh = 7 - b if bitorder == 'big' else b
                x = tbool(t[i[:-1] + (src,)])
                bit = z3.If(x, z3.BitVecVal(1 << sh, 8), z3.BitVecVal(0, 8)) if not isinstance(x, bool) else z3.BitVecVal((1 << sh) if x else 0, 8)
                v = v | bit
        out[i] = core.mkint(z3.simplify(v), np.dtype(np.uint8))
    return wrap(np.moveaxis(out, -1, axis), np.dtype(np.uint8))


@impl('unpackbits')
def f_unpackbits(a, axis=None, count=None, bitorder='big'):
    a = _arr(a)
    if a.dtype != np.dtype(np.uint8):
        raise TypeError('Expected an input array of unsigned byte data type')
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    z3 = core.z3
    t = np.moveaxis(raw(a), axis, -1)
    out = np.ndarray(t.shape[:-1] + (t.shape[-1] * 8,), dtype=object)
    for i in np.ndindex(t.shape):
        x = t[i]
        for b in range(8):
            sh = 7 - b if bitorder == 'big' else b
            if is_sym(x):
                e = core.mkint(z3.simplify(z3.ZeroExt(7, z3.Extract(sh, sh, core.as_bv(x, np.dtype(np.uint8))))), np.dtype(np.uint8))
            else:
                e = (int(x) >> sh) & 1
            out[i[:-1] + (i[-1] * 8 + b,)] = e
    r = np.moveaxis(out, -1, axis)
    if count is not None:
        sl = [slice(None)] * r.ndim
        sl[axis] = slice(0, count)
        r = r[tuple(sl)]
    return wrap(r, np.dtype(np.uint8))


@impl('trapezoid')
def f_trapezoid(y, x=None, dx=1.0, axis=-1):
    y = asarr(y)
    if x is None:
        return f_sum((y[..., 1:] + y[..., :-1]) * (dx / 2.0), axis=axis)
    x = asarr(x)
    return f_sum((y[..., 1:] + y[..., :-1]) * (x[..., 1:] - x[..., :-1]) / 2.0, axis=axis)


@impl('can_cast')
def f_can_cast(f, t, casting='safe'):
    return _o['can_cast'](_dummy(f).dtype if not isinstance(f, (type, np.dtype)) else f, t, casting)


@impl('result_type')
def f_result_type(*a):
    return _o['result_type'](*[_dummy(x) if isinstance(x, (np.ndarray, Sym)) else x for x in a])


@impl('min_scalar_type', 'common_type')
def f_mst(*a):
    return F8


@impl('apply_along_axis')
def f_apply_along_axis(func1d, axis, arr, *args, **kw):
    a = _arr(arr)
    t = np.moveaxis(raw(a), axis, -1)
    sh = t.shape[:-1]
    res = {}
    for i in np.ndindex(sh):
        res[i] = asarr(func1d(wrap(t[i], a.dtype), *args, **kw))
    f0 = res[next(iter(res))]
    out = np.ndarray(sh + f0.shape, dtype=object)
    for i in res:
        out[i] = raw(res[i]) if f0.ndim else raw(res[i])[()]
    if f0.ndim:
        out = np.moveaxis(out, -1, axis)
    return wrap(out, f0.dtype)


@impl('ix_')
def f_ix(*a):
    return np.ix_(*[_conc_index(x) for x in a])


@impl('array2string', 'array_repr', 'array_str')
def f_a2s(a, *x, **k):
    return repr(a)


@impl('may_share_memory', 'shares_memory')
def f_share(a, b, **k):
    return np.shares_memory(raw(asarr(a)), raw(asarr(b))) if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) else False


@impl('lexsort')
def f_lexsort(keys, axis=-1):
    ks = [list(raw(asarr(k)).reshape(-1)) for k in keys][::-1]
    rows = list(zip(*ks))

    def lt(p, q):
        for x, y in zip(p, q):
            if bool(x < y):
                return True
            if bool(y < x):
                return False
        return False
    idx = []
    for i, r in enumerate(rows):
        j = len(idx)
        while j > 0 and lt(r, rows[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return _o['array'](idx, dtype=np.int64)


# zeros_like & co. dispatch here when their prototype is symbolic
def _like(v):
    def f(a, dtype=None, order='K', subok=True, shape=None, fill_value=None, **k):
        dt = norm_dtype(dtype) or asarr(a).dtype
        sh = asarr(a).shape if shape is None else shape
        return wrap(_full_obj(sh, cast_scalar(v, dt)), dt)
    return f


FN[np.zeros_like] = _like(0)
FN[np.ones_like] = _like(1)
FN[np.empty_like] = _like(0)


@impl('full_like')
def f_full_like(a, fill_value, dtype=None, order='K', subok=True, shape=None, **k):
    dt = norm_dtype(dtype) or asarr(a).dtype
    sh = asarr(a).shape if shape is None else shape
    r = wrap(_full_obj(sh, 0), dt)
    r[...] = fill_value
    return r
