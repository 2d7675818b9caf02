"""Symbolic scalars, path exploration and solver access.

The code under test is executed as is; the values that flow through it are
symbolic scalars (SymBool, SymReal, SymInt, SymStr) that build z3 terms.  A
Python branch on a symbolic condition asks the solver which outcomes are
feasible under the path condition; both are explored by re-execution.

Floats are modelled as extended reals: a z3 Real, a NaN flag and an infinity
flag (the sign of an infinity is the sign of the Real part).  IEEE rounding is
not modelled.  Integers are z3 Ints or bit-vectors (data-quality words).
"""
import math
import os
import sys
import time
from fractions import Fraction

try:
    import z3
except ImportError:                              # pragma: no cover
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import z3

import numpy as np

z3.set_param('memory_max_size', 3500)


SLOW = float(__import__('os').environ.get('SYMNP_SLOW', 0))


class EngineLimit(Exception):
    """The engine met something it cannot represent (not a property violation)."""


class PathAbort(BaseException):
    """The current path is infeasible or exceeded its budget."""


class _TooDeep(PathAbort):
    pass


# ----------------------------------------------------------------------------
# boolean helpers with constant folding (python bools or z3 BoolRef)

def b_not(a):
    if a is True:
        return False
    if a is False:
        return True
    return z3.Not(a)


def b_and(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def b_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is True and b is False:
        return c
    if a is False and b is True:
        return z3.Not(c)
    if a is True:
        return z3.Or(c, _zb(b))
    if a is False:
        return z3.And(z3.Not(c), _zb(b))
    if b is True:
        return z3.Or(z3.Not(c), _zb(a))
    if b is False:
        return z3.And(c, _zb(a))
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def b_xor(a, b):
    if a is True:
        return b_not(b)
    if a is False:
        return b
    if b is True:
        return b_not(a)
    if b is False:
        return a
    return z3.Xor(a, b)


def _zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def fold(t):
    """Simplify a boolean to a python bool when it is constant."""
    if isinstance(t, bool):
        return t
    s = z3.simplify(t)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return s


# ----------------------------------------------------------------------------
# context

class Ctx:
    """State of one symbolic run (one path)."""

    cur = None

    def __init__(self, prefix=(), opts=None, stats=None):
        self.prefix = list(prefix)
        self.opts = dict(timeout_ms=20000, max_decisions=900)
        self.opts.update(opts or {})
        self.stats = stats if stats is not None else new_stats()
        self.pos = 0
        self.decisions = []        # taken so far: (value)
        self.pending = []          # alternative prefixes to explore
        self.pc = []
        self.defs = []
        self.nfresh = 0
        self.memo = {}
        self.vars = {}             # name -> (kind, object)
        self.solver = z3.Solver()
        self.solver.set('timeout', self.opts['timeout_ms'])
        self.limits = []
        self.formatted = []        # (value, format) of the numbers written into text
        self.concretised = []
        self.deadline = self.opts.get('deadline')

    # -- naming
    def fresh(self, base, sort):
        self.nfresh += 1
        return z3.Const('%s!%d' % (base, self.nfresh), sort)

    def define(self, c):
        self.defs.append(c)
        self.solver.add(c)

    def assume(self, c):
        c = fold(c)
        if c is True:
            return
        if c is False:
            raise PathAbort('assumption false')
        self.pc.append(c)
        self.solver.add(c)

    # -- solver
    def _check(self, *extra, timeout=None):
        t0 = time.time()
        if timeout is not None:
            self.solver.set('timeout', timeout)
        try:
            r = self.solver.check(*extra)
        except z3.Z3Exception as e:
            if 'memory' in str(e):
                r = z3.unknown
            else:
                raise
        if timeout is not None:
            self.solver.set('timeout', self.opts['timeout_ms'])
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t0
        if SLOW and time.time() - t0 > SLOW:
            import sys
            sys.stderr.write('SLOW %.2f %s pc=%d: %s\n' % (time.time() - t0, r, len(self.pc), str(extra)[:600].replace('\n', ' ')))
        self.stats[str(r)] = self.stats.get(str(r), 0) + 1
        return r

    def branch(self, term):
        term = fold(term)
        if isinstance(term, bool):
            return term
        if self.deadline and time.time() > self.deadline:
            raise _TooDeep('deadline')
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(v)
            self._take(term, v)
            return v
        if len(self.decisions) >= self.opts['max_decisions']:
            raise _TooDeep('too many decisions on one path')
        bt = self.opts.get('branch_timeout_ms', 3000)
        can_t = self._check(term, timeout=bt) != z3.unsat
        can_f = True
        if can_t:
            can_f = self._check(z3.Not(term), timeout=bt) != z3.unsat
        if can_t and can_f:
            self.pending.append(list(self.decisions) + [False])
        if not can_t and not can_f:
            raise PathAbort('infeasible')
        v = bool(can_t)
        self.stats['decisions'] = self.stats.get('decisions', 0) + 1
        self.pos += 1
        self.decisions.append(v)
        self._take(term, v)
        return v

    def _take(self, term, v):
        c = term if v else z3.Not(term)
        self.pc.append(c)
        self.solver.add(c)

    def choose(self, terms):
        """Fork over a list of mutually exclusive conditions; return the index."""
        for i, t in enumerate(terms[:-1]):
            if self.branch(t):
                return i
        last = fold(terms[-1])
        if last is not True:
            if not self.branch(last):
                raise PathAbort('no alternative')
        return len(terms) - 1


def new_stats():
    return dict(queries=0, solver_s=0.0, paths=0, sat=0, unsat=0, unknown=0)


def ctx():
    c = Ctx.cur
    if c is None:
        raise EngineLimit('no symbolic context')
    return c


# ----------------------------------------------------------------------------
# scalars

def is_sym(x):
    return isinstance(type(x), type) and issubclass(type(x), Sym)


class Sym:
    __slots__ = ()
    __array_priority__ = 2000.0

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.array_function(func, types, args, kwargs)

    # numpy-scalar conveniences
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def copy(self):
        return self

    def item(self):
        return self

    def squeeze(self):
        return self

    def tolist(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, dt, *a, **k):
        from . import arr
        return arr.cast_scalar(self, arr.norm_dtype(dt))

    def _np(self, fn, *a, **k):
        from . import arr
        return fn(arr.wrap0(self), *a, **k)

    def sum(self, *a, **k):
        return self

    mean = max = min = sum

    def any(self, *a, **k):
        return self != 0

    all = any

    def __format__(self, spec):
        if not spec:
            return str(self)
        f = ctx().formatted
        f.append((self, spec))
        return '<number#%d>' % (len(f) - 1)

    def __float__(self):
        raise EngineLimit('float() of symbolic value')

    def __int__(self):
        raise EngineLimit('int() of symbolic value')

    def __reduce__(self):
        raise EngineLimit('pickling a symbolic value')


# ---- booleans

class SymBool(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    @property
    def dtype(self):
        return np.dtype(bool)

    def __bool__(self):
        return ctx().branch(self.t)

    def __hash__(self):
        return 0          # dictionaries and sets then compare by value, branching on symbolic equality

    def __repr__(self):
        return '<symbool>'

    def __invert__(self):
        return mkbool(b_not(self.t))

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if is_bool(o):
            return mkbool(b_and(self.t, tbool(o)))
        return to_int(self) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if is_bool(o):
            return mkbool(b_or(self.t, tbool(o)))
        return to_int(self) | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if is_bool(o):
            return mkbool(b_xor(self.t, tbool(o)))
        return to_int(self) ^ o
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if is_bool(o):
            return mkbool(b_not(b_xor(self.t, tbool(o))))
        if is_num(o):
            return to_int(self) == o
        return False

    def __ne__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        r = self.__eq__(o)
        return ~r if is_sym(r) else (not r)

    def __index__(self):
        return 1 if bool(self) else 0


def is_bool(x):
    return isinstance(x, (bool, np.bool_))


def is_num(x):
    return is_sym(x) and not type(x) is SymStr or isinstance(x, (int, float, np.number, np.bool_, Fraction))


def tbool(x):
    """z3/python bool of a boolean-like scalar."""
    if type(x) is SymBool:
        return x.t
    if type(x) is SymInt:
        return nonzero_int(x)
    if type(x) is SymReal:
        return b_or(x.nan, x.inf, x.v != 0) if not (x.nan is True) else True
    return bool(x)


def mkbool(t):
    if isinstance(t, bool):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def _binop(name, rname=None):
    pass


# ---- reals

_INF = float('inf')


def rv(x):
    """z3 RealVal of a finite python number (via its decimal repr)."""
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, (bool, np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, np.float32):
        x = float(x)
    x = float(x)
    if x == int(x):
        return z3.RealVal(int(x))
    return z3.RealVal(str(Fraction(repr(x))))


def lift_real(x):
    """-> (v, nan, inf) with v a z3 Real."""
    tx = type(x)
    if tx is SymReal:
        return x.v, x.nan, x.inf
    if tx is SymInt:
        return int_as_real(x), False, False
    if tx is SymBool:
        return z3.If(x.t, z3.RealVal(1), z3.RealVal(0)), False, False
    if isinstance(x, (float, np.floating)):
        if math.isnan(x):
            return z3.RealVal(0), True, False
        if math.isinf(x):
            return z3.RealVal(1 if x > 0 else -1), False, True
    if is_sym(x):
        raise EngineLimit('string used as number')
    if isinstance(x, complex):
        raise EngineLimit('complex')
    return rv(x), False, False


def mkreal(v, nan=False, inf=False):
    """Build SymReal, folding constants to python floats."""
    if nan is True:
        return float('nan')
    if nan is False and inf is False and z3.is_rational_value(v):
        return frac_float(v)
    if inf is True and nan is False and z3.is_rational_value(v):
        return _INF if v.as_fraction() > 0 else -_INF
    return SymReal(v, nan, inf)


def frac_float(v):
    f = v.as_fraction()
    return float(f)


def r_ite(c, a, b):
    """If-then-else over numeric scalars producing a real."""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    av, an, ai = lift_real(a)
    bv, bn, bi = lift_real(b)
    if an is True and bn is False:
        v, inf = bv, b_and(b_not(c), bi) if bi is not False else False
    elif bn is True and an is False:
        v, inf = av, b_and(c, ai) if ai is not False else False
    else:
        v = av if av.eq(bv) else z3.If(c, av, bv)
        inf = b_ite(c, ai, bi)
    return mkreal(v, b_ite(c, an, bn), inf)


def r_add(a, b):
    av, an, ai = lift_real(a)
    bv, bn, bi = lift_real(b)
    nan = b_or(an, bn)
    if ai is False and bi is False:
        return mkreal(sadd(av, bv), nan)
    clash = b_and(ai, bi, (av > 0) != (bv > 0))
    nan = b_or(nan, clash)
    v = zite(ai, av, zite(bi, bv, av + bv))
    return mkreal(v, nan, b_and(b_or(ai, bi), b_not(nan)))


def zite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def _isval(v, k):
    return z3.is_rational_value(v) and v.as_fraction() == k


def sadd(a, b):
    if z3.is_rational_value(a):
        if z3.is_rational_value(b):
            return rv(a.as_fraction() + b.as_fraction())
        if a.as_fraction() == 0:
            return b
    elif z3.is_rational_value(b) and b.as_fraction() == 0:
        return a
    return a + b


def smul(a, b):
    if z3.is_rational_value(a):
        f = a.as_fraction()
        if z3.is_rational_value(b):
            return rv(f * b.as_fraction())
        if f == 1:
            return b
        if f == 0:
            return a
    elif z3.is_rational_value(b):
        f = b.as_fraction()
        if f == 1:
            return a
        if f == 0:
            return b
    return a * b


def r_neg(a):
    av, an, ai = lift_real(a)
    if z3.is_rational_value(av):
        return mkreal(rv(-av.as_fraction()), an, ai)
    return mkreal(-av, an, ai)


def r_sub(a, b):
    av, an, ai = lift_real(a)
    bv, bn, bi = lift_real(b)
    if ai is False and bi is False:
        if av.eq(bv):
            return mkreal(rv(0), b_or(an, bn))
        if _isval(bv, 0):
            return mkreal(av, b_or(an, bn))
        if z3.is_rational_value(av) and z3.is_rational_value(bv):
            return mkreal(rv(av.as_fraction() - bv.as_fraction()), b_or(an, bn))
        return mkreal(av - bv, b_or(an, bn))
    return r_add(a, r_neg(b))


def r_mul(a, b):
    av, an, ai = lift_real(a)
    bv, bn, bi = lift_real(b)
    nan = b_or(an, bn)
    if ai is False and bi is False:
        return mkreal(smul(av, bv), nan)
    zero = b_or(b_and(ai, b_not(bi), fold(bv == 0)), b_and(bi, b_not(ai), fold(av == 0)))
    nan = b_or(nan, zero)
    return mkreal(av * bv, nan, b_and(b_or(ai, bi), b_not(nan)))


def r_div(a, b):
    av, an, ai = lift_real(a)
    bv, bn, bi = lift_real(b)
    nan = b_or(an, bn)
    if ai is False and bi is False and z3.is_rational_value(bv):
        f = bv.as_fraction()
        if f != 0:
            if z3.is_rational_value(av):
                return mkreal(rv(av.as_fraction() / f), nan)
            if f == 1:
                return mkreal(av, nan)
            return mkreal(av / bv, nan)
        # division by (positive) zero
        z = fold(av == 0)
        nan = b_or(nan, z)
        return mkreal(av, nan, b_not(nan))
    bz = fold(b_and(b_not(bi), bv == 0))
    if bz is not True and bz is not False and bi is False:
        # is a zero divisor feasible at all?  (cheap syntactic memo)
        bz = ctx_never(bz)
    az = False
    if bz is not False:
        az = b_and(b_not(ai), fold(av == 0))
        nan = b_or(nan, b_and(bz, az))
    if ai is not False and bi is not False:
        nan = b_or(nan, b_and(ai, bi))
    inf = b_or(b_and(bz, b_not(nan)) if bz is not False else False,
               b_and(ai, b_not(bi), b_not(nan)) if ai is not False else False)
    q = av / bv if not _isval(av, 0) else av
    # sign of the result when infinite: x/0 -> sign x (positive zero); inf/y -> sign x*y
    v = q
    if ai is not False:
        v = zite(ai, zite(bv < 0, -av, av), v)
    if bz is not False:
        v = zite(bz, av, v)
    if bi is not False:
        v = zite(b_and(bi, b_not(ai)), rv(0), v)
    return mkreal(v, nan, inf)


def ctx_never(c):
    """False if c is infeasible under the current path condition, else c."""
    k = ctx()
    key = ('never', c.get_id())
    if key in k.memo:
        return k.memo[key][0]
    r = k._check(c, timeout=k.opts.get('branch_timeout_ms', 3000))
    out = False if r == z3.unsat else c
    k.memo[key] = (out, c)
    return out


def r_abs(a):
    av, an, ai = lift_real(a)
    if z3.is_rational_value(av):
        return mkreal(rv(abs(av.as_fraction())), an, ai)
    return mkreal(z3.If(av >= 0, av, -av), an, ai)


def r_lt(a, b):
    av, an, ai = lift_real(a)
    bv, bn, bi = lift_real(b)
    c = av < bv
    if ai is not False or bi is not False:
        c = b_ite(ai, b_and(av < 0, b_not(b_and(bi, bv < 0))), b_ite(bi, bv > 0, c))
    return mkbool(fold(b_and(c, b_not(an), b_not(bn))))


def r_le(a, b):
    av, an, ai = lift_real(a)
    bv, bn, bi = lift_real(b)
    c = av <= bv
    if ai is not False or bi is not False:
        c = b_ite(ai, b_or(av < 0, b_and(bi, bv > 0)), b_ite(bi, bv > 0, c))
    return mkbool(fold(b_and(c, b_not(an), b_not(bn))))


def r_eq(a, b):
    av, an, ai = lift_real(a)
    bv, bn, bi = lift_real(b)
    c = av == bv
    if ai is not False or bi is not False:
        c = b_ite(b_and(ai, bi), (av > 0) == (bv > 0), b_and(b_not(ai), b_not(bi), c))
    return mkbool(fold(b_and(c, b_not(an), b_not(bn))))


def r_isnan(a):
    return mkbool(lift_real(a)[1])


def r_isinf(a):
    v, n, i = lift_real(a)
    return mkbool(b_and(i, b_not(n)))


def r_isfinite(a):
    v, n, i = lift_real(a)
    return mkbool(b_and(b_not(i), b_not(n)))


def r_max(a, b):
    """numpy maximum: NaN propagates."""
    return _minmax(a, b, True)


def r_min(a, b):
    return _minmax(a, b, False)


def _minmax(a, b, mx):
    an = lift_real(a)[1]
    bn = lift_real(b)[1]
    c = tbool(r_le(b, a) if mx else r_le(a, b))
    if Ctx.cur is not None and Ctx.cur.opts.get('fork_extrema'):
        c = Ctx.cur.branch(c)
    r = r_ite(c, a, b)
    if an is False and bn is False:
        return r
    v, n, i = lift_real(r)
    return mkreal(v, b_or(an, bn), b_and(i, b_not(b_or(an, bn))))


def r_fmax(a, b, mx=True):
    """NaN-ignoring max/min."""
    an = lift_real(a)[1]
    bn = lift_real(b)[1]
    c = tbool(r_le(b, a) if mx else r_le(a, b))
    r = r_ite(c, a, b)
    r = r_ite(an, b, r) if an is not False else r
    r = r_ite(bn, a, r) if bn is not False else r
    return r


def canon(v):
    return z3.simplify(v, som=True, sort_sums=True)


def r_sqrt(a):
    av, an, ai = lift_real(a)
    if z3.is_rational_value(av):
        f = av.as_fraction()
        if f < 0:
            return float('nan')
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            return mkreal(rv(Fraction(n, d)), an, ai)
    k = ctx()
    c = canon(av)
    if z3.is_rational_value(c) and not z3.is_rational_value(av):
        return r_sqrt(mkreal(c, an, ai))
    key = ('sqrt', c.get_id())
    if key not in k.memo:
        s = k.fresh('sqrt', z3.RealSort())
        k.define(s >= 0)
        k.define(z3.Implies(c >= 0, s * s == c))
        k.define(z3.Implies(c < 0, s == 0))
        neg = ctx_never(fold(c < 0)) if not isinstance(fold(c < 0), bool) else fold(c < 0)
        k.memo[key] = (s, neg, c)
    s, neg, _ = k.memo[key]
    nan = b_or(an, b_and(b_not(ai), neg) if neg is not False else False,
               b_and(ai, av < 0) if ai is not False else False)
    return mkreal(s, nan, b_and(ai, b_not(nan)))


_UF = {}


def r_uf(name, *args):
    """Uninterpreted real function (exp, log, sin, ...)."""
    if all(not is_sym(a) for a in args):
        return getattr(np, name)(*args)
    vs = [lift_real(a) for a in args]
    k = ctx()
    if name not in _UF:
        _UF[name] = z3.Function('uf_' + name, *([z3.RealSort()] * (len(args) + 1)))
    f = _UF[name]
    cs = [canon(v[0]) for v in vs]
    t = f(*cs)
    nan = b_or(*[v[1] for v in vs])
    inf = b_or(*[v[2] for v in vs])
    x = cs[0]
    key = ('uf', t.get_id())
    if key not in k.memo:
        k.memo[key] = (t,)
        if name == 'exp':
            k.define(t > 0)
            k.define(z3.Implies(x == 0, t == 1))
            k.define((x > 0) == (t > 1))
            k.define(t >= 1 + x)
        elif name in ('log', 'log10', 'log2'):
            k.define(z3.Implies(x == 1, t == 0))
            k.define(z3.Implies(x > 0, (x > 1) == (t > 0)))
        elif name == 'arctan':
            k.define((x > 0) == (t > 0))
            k.define((x < 0) == (t < 0))
            k.define(t < rv(1.5707964))
            k.define(t > rv(-1.5707964))
        elif name in ('sin', 'cos'):
            k.define(t <= 1)
            k.define(t >= -1)
            o = 'cos' if name == 'sin' else 'sin'
            if o not in _UF:
                _UF[o] = z3.Function('uf_' + o, z3.RealSort(), z3.RealSort())
            u = _UF[o](x)
            k.define(t * t + u * u == 1)
            k.define(z3.Implies(x == 0, t == (0 if name == 'sin' else 1)))
        # monotone / congruence facts with earlier applications of the same function
        if name in ('exp', 'log', 'log10', 'log2', 'arctan'):
            lst = k.memo.setdefault(('ufl', name), [])
            for (x2, t2) in lst:
                dom = z3.And(x > 0, x2 > 0) if name.startswith('log') else z3.BoolVal(True)
                k.define(z3.Implies(dom, (x < x2) == (t < t2)))
            lst.append((x, t))
    if name in ('log', 'log10', 'log2'):
        neg = fold(x < 0)
        if not isinstance(neg, bool):
            neg = ctx_never(neg)
        zero = fold(x == 0)
        if not isinstance(zero, bool):
            zero = ctx_never(zero)
        nan = b_or(nan, b_and(b_not(inf), neg))
        inf2 = b_or(inf, zero)
        v = zite(zero, rv(-1), t)
        return mkreal(v, nan, b_and(inf2, b_not(nan)))
    if inf is not False:
        if fold(inf) is not False:
            nan = b_or(nan, inf)
    return mkreal(t, nan)


def r_pow(a, b):
    if not is_sym(b):
        bf = float(b)
        if bf == int(bf) and abs(bf) <= 8:
            n = int(bf)
            if n == 0:
                return 1.0
            out = a
            for _ in range(abs(n) - 1):
                out = r_mul(out, a)
            if n < 0:
                out = r_div(1.0, out)
            return out
        if bf == 0.5:
            return r_sqrt(a)
        if bf == -0.5:
            return r_div(1.0, r_sqrt(a))
        if bf == 1.5:
            return r_mul(a, r_sqrt(a))
    if type(b) is SymInt or type(b) is SymReal:
        return r_uf('power', a, b)
    return r_uf('power', a, b)


def r_floor(a):
    av, an, ai = lift_real(a)
    return mkreal(zite(ai, av, z3.ToReal(z3.ToInt(av))), an, ai)


def r_ceil(a):
    return r_neg(r_floor(r_neg(a)))


def r_trunc(a):
    av, an, ai = lift_real(a)
    t = z3.If(av >= 0, z3.ToReal(z3.ToInt(av)), -z3.ToReal(z3.ToInt(-av)))
    return mkreal(zite(ai, av, t), an, ai)


def r_rint(a):
    """round half to even"""
    av, an, ai = lift_real(a)
    fl = z3.ToInt(av)
    d = av - z3.ToReal(fl)
    half = rv(Fraction(1, 2))
    r = z3.If(d < half, fl, z3.If(d > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
    return mkreal(zite(ai, av, z3.ToReal(r)), an, ai)


def r_sign(a):
    av, an, ai = lift_real(a)
    return mkreal(z3.If(av > 0, rv(1), z3.If(av < 0, rv(-1), rv(0))), an, False)


def r_mod(a, b):
    q = r_floor(r_div(a, b))
    return r_sub(a, r_mul(q, b))


def r_floordiv(a, b):
    return r_floor(r_div(a, b))


def _num_other(o):
    if isinstance(o, np.ndarray):
        return False
    return is_num(o)


class SymReal(Sym):
    __slots__ = ('v', 'nan', 'inf')

    def __init__(self, v, nan=False, inf=False):
        self.v, self.nan, self.inf = v, nan, inf

    @property
    def __class__(self):
        return float

    @property
    def dtype(self):
        return np.dtype(float)

    def __repr__(self):
        return '<symreal>'

    def __hash__(self):
        return 0          # dictionaries and sets then compare by value, branching on symbolic equality

    def __bool__(self):
        return ctx().branch(tbool(self))

    def __neg__(self):
        return r_neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return r_abs(self)

    def __round__(self, n=None):
        if n:
            return r_div(r_rint(r_mul(self, 10.0 ** n)), 10.0 ** n)
        r = r_rint(self)
        return real_to_int(r) if n is None else r

    def __floor__(self):
        return real_to_int(r_floor(self))

    def __ceil__(self):
        return real_to_int(r_ceil(self))

    def __trunc__(self):
        return real_to_int(r_trunc(self))

    def is_integer(self):
        return mkbool(fold(z3.IsInt(self.v)))

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")


def _mk(name, fn, swap=False):
    def m(self, o):
        if not _num_other(o):
            return NotImplemented
        return fn(o, self) if swap else fn(self, o)
    m.__name__ = name
    return m


def r_gt(a, b):
    return r_lt(b, a)


def r_ge(a, b):
    return r_le(b, a)


def r_ne(a, b):
    r = r_eq(a, b)
    return (~r) if is_sym(r) else (not r)


for _n, _f in dict(add=r_add, sub=r_sub, mul=r_mul, truediv=r_div, pow=r_pow, mod=r_mod,
                   floordiv=r_floordiv).items():
    setattr(SymReal, '__%s__' % _n, _mk(_n, _f))
    setattr(SymReal, '__r%s__' % _n, _mk(_n, _f, True))
for _n, _f in dict(lt=r_lt, le=r_le, gt=r_gt, ge=r_ge).items():
    setattr(SymReal, '__%s__' % _n, _mk(_n, _f))


def _sr_eq(self, o):
    if isinstance(o, np.ndarray):
        return NotImplemented
    if not is_num(o):
        return False
    return r_eq(self, o)


def _sr_ne(self, o):
    if isinstance(o, np.ndarray):
        return NotImplemented
    if not is_num(o):
        return True
    return r_ne(self, o)


SymReal.__eq__ = _sr_eq
SymReal.__ne__ = _sr_ne


# ---- integers

class SymInt(Sym):
    """z3 Int, or bit-vector with signedness (dt gives the numpy dtype)."""
    __slots__ = ('v', 'dt')

    def __init__(self, v, dt=None):
        self.v = v
        self.dt = dt if dt is not None else np.dtype(np.int64)

    @property
    def bv(self):
        return z3.is_bv(self.v)

    @property
    def __class__(self):
        return int

    @property
    def dtype(self):
        return self.dt

    def __repr__(self):
        return '<symint>'

    def __hash__(self):
        return 0          # dictionaries and sets then compare by value, branching on symbolic equality

    def __bool__(self):
        return ctx().branch(nonzero_int(self))

    def __index__(self):
        return concretise_int(self)

    def __neg__(self):
        return i_bin('sub', 0, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return i_ite(tbool(i_cmp('lt', self, 0)), -self, self)

    def __invert__(self):
        if self.bv:
            return mkint(~self.v, self.dt)
        return mkint(-self.v - 1, self.dt)

    def __round__(self, n=None):
        return self

    def is_integer(self):
        return True


def int_bv_width(dt):
    return dt.itemsize * 8


def mkint(v, dt=None):
    dt = dt if dt is not None else np.dtype(np.int64)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_bv_value(v):
        return v.as_signed_long() if dt.kind == 'i' else v.as_long()
    return SymInt(v, dt)


def to_int(x, dt=None):
    """bool-like -> SymInt/int"""
    if type(x) is SymBool:
        return mkint(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)), dt)
    if is_bool(x):
        return int(x)
    return x


def nonzero_int(x):
    if x.bv:
        return fold(x.v != z3.BitVecVal(0, x.v.size()))
    return fold(x.v != 0)


def as_int_term(x):
    """z3 Int term."""
    if type(x) is SymInt:
        if x.bv:
            return z3.BV2Int(x.v, is_signed=x.dt.kind == 'i')
        return x.v
    if type(x) is SymBool:
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def int_as_real(x):
    return z3.ToReal(as_int_term(x))


def as_bv(x, dt):
    w = int_bv_width(dt)
    if type(x) is SymBool:
        return z3.If(x.t, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if type(x) is SymInt:
        if x.bv:
            s = x.v.size()
            if s == w:
                return x.v
            if s > w:
                return z3.Extract(w - 1, 0, x.v)
            return z3.SignExt(w - s, x.v) if x.dt.kind == 'i' else z3.ZeroExt(w - s, x.v)
        return int2bv(x.v, w)
    return z3.BitVecVal(int(x), w)


def int2bv(t, w):
    # push through ITE of constants, which keeps bool->int->bv conversions cheap
    if z3.is_int_value(t):
        return z3.BitVecVal(t.as_long(), w)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(t.arg(0), int2bv(t.arg(1), w), int2bv(t.arg(2), w))
    return z3.Int2BV(t, w)


def _ires(a, b):
    das = [x.dt for x in (a, b) if type(x) is SymInt]
    if len(das) == 2:
        return np.promote_types(*das)
    d = das[0] if das else np.dtype(np.int64)
    return d


def i_bin(op, a, b):
    """integer binary op on SymInt/SymBool/int"""
    dt = _ires(a, b)
    if op in ('and', 'or', 'xor'):
        A, B = as_bv(a, dt), as_bv(b, dt)
        r = {'and': lambda: A & B, 'or': lambda: A | B, 'xor': lambda: A ^ B}[op]()
        return mkint(z3.simplify(r), dt)
    if op in ('lshift', 'rshift'):
        A, B = as_bv(a, dt), as_bv(b, dt)
        if op == 'lshift':
            r = A << B
        else:
            r = (A >> B) if dt.kind == 'i' else z3.LShR(A, B)
        return mkint(z3.simplify(r), dt)
    anybv = any(type(x) is SymInt and x.bv for x in (a, b))
    if anybv and op in ('add', 'sub', 'mul'):
        A, B = as_bv(a, dt), as_bv(b, dt)
        r = {'add': lambda: A + B, 'sub': lambda: A - B, 'mul': lambda: A * B}[op]()
        return mkint(z3.simplify(r), dt)
    A, B = as_int_term(a), as_int_term(b)
    if op in ('add', 'sub', 'mul'):
        r = _leafwise(op, A, B)
        if r is not None:
            return mkint(r, dt if not anybv else np.dtype(np.int64))
    if op == 'add':
        r = A + B
    elif op == 'sub':
        r = A - B
    elif op == 'mul':
        r = A * B
    elif op == 'floordiv':
        r = _ifloordiv(A, B)
    elif op == 'mod':
        r = A - B * _ifloordiv(A, B)
    else:
        raise EngineLimit(op)
    return mkint(z3.simplify(r), dt if not anybv else np.dtype(np.int64))


def _leaves(t, n=4):
    """does t branch over at most n integer constants?"""
    if z3.is_int_value(t):
        return 1
    if n > 1 and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a = _leaves(t.arg(1), n - 1)
        b = _leaves(t.arg(2), n - 1) if a else 0
        return a + b if a and b and a + b <= n else 0
    return 0


def _leafwise(op, A, B):
    """constant (+,-,*) choice of constants, evaluated at the leaves"""
    f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[op]

    def go(t, g):
        if z3.is_int_value(t):
            return z3.IntVal(g(t.as_long()))
        return z3.If(t.arg(0), go(t.arg(1), g), go(t.arg(2), g))
    if z3.is_int_value(B) and not z3.is_int_value(A) and _leaves(A):
        k = B.as_long()
        return go(A, lambda v: f(v, k))
    if z3.is_int_value(A) and not z3.is_int_value(B) and _leaves(B):
        k = A.as_long()
        return go(B, lambda v: f(k, v))
    return None


def _ifloordiv(A, B):
    # z3 div is Euclidean: for B>0 it is floor; for B<0 it is ceil of A/B
    if z3.is_int_value(B):
        n = B.as_long()
        if n > 0:
            return A / B
        if n == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        return (-A) / z3.IntVal(-n)
    return z3.If(B > 0, A / B, (-A) / (-B))


def i_cmp(op, a, b):
    bvs = [x for x in (a, b) if type(x) is SymInt and x.bv]
    if bvs:
        dt = bvs[0].dt if len(bvs) == 1 else np.promote_types(bvs[0].dt, bvs[1].dt)
        other_conc = [x for x in (a, b) if not is_sym(x)]
        ok = True
        if other_conc:
            n = int(other_conc[0])
            info = np.iinfo(dt)
            ok = info.min <= n <= info.max
        elif len(bvs) == 1:
            ok = type(a if bvs[0] is b else b) is SymBool
        if ok:
            A, B = as_bv(a, dt), as_bv(b, dt)
            sg = dt.kind == 'i'
            r = {'lt': lambda: (A < B) if sg else z3.ULT(A, B),
                 'le': lambda: (A <= B) if sg else z3.ULE(A, B),
                 'gt': lambda: (A > B) if sg else z3.UGT(A, B),
                 'ge': lambda: (A >= B) if sg else z3.UGE(A, B),
                 'eq': lambda: A == B, 'ne': lambda: A != B}[op]()
            return mkbool(fold(r))
    A, B = as_int_term(a), as_int_term(b)
    r = {'lt': A < B, 'le': A <= B, 'gt': A > B, 'ge': A >= B, 'eq': A == B, 'ne': A != B}[op]
    return mkbool(fold(r))


def i_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    dt = _ires(a, b)
    if any(type(x) is SymInt and x.bv for x in (a, b)):
        return mkint(zite(c, as_bv(a, dt), as_bv(b, dt)), dt)
    return mkint(zite(c, as_int_term(a), as_int_term(b)), dt)


def concretise_int(x, limit=64):
    """Fork over the feasible values of an integer."""
    k = ctx()
    t = as_int_term(x)
    s = z3.simplify(t)
    if z3.is_int_value(s):
        return s.as_long()
    for _ in range(limit):
        if k.pos < len(k.prefix):
            # replaying: the recorded value is the decision itself
            v = k.prefix[k.pos]
            k.pos += 1
            k.decisions.append(v)
            kind, val = v
            k._take(t == val, kind == 'eq')
            if kind == 'eq':
                return val
            continue
        if k._check() == z3.unsat:
            raise PathAbort('infeasible')
        m = k.solver.model()
        val = m.eval(t, model_completion=True).as_long()
        if k._check(t != val) != z3.unsat:
            k.pending.append(list(k.decisions) + [('ne', val)])
        k.pos += 1
        k.decisions.append(('eq', val))
        k._take(t == val, True)
        return val
    raise EngineLimit('integer with too many values used as an index')


def _isint(o):
    return type(o) in (SymInt, SymBool) or isinstance(o, (int, np.integer, np.bool_)) and not type(o) is SymReal


def _mki(op, swap=False, real=None):
    def m(self, o):
        if not _num_other(o):
            return NotImplemented
        if _isint(o) and op is not None:
            return i_bin(op, o, self) if swap else i_bin(op, self, o)
        if real is None:
            return NotImplemented
        return real(o, self) if swap else real(self, o)
    return m


for _n, _r in dict(add=r_add, sub=r_sub, mul=r_mul, floordiv=r_floordiv, mod=r_mod).items():
    setattr(SymInt, '__%s__' % _n, _mki(_n, False, _r))
    setattr(SymInt, '__r%s__' % _n, _mki(_n, True, _r))
SymInt.__truediv__ = _mki(None, False, r_div)
SymInt.__rtruediv__ = _mki(None, True, r_div)
for _n in ('and', 'or', 'xor', 'lshift', 'rshift'):
    setattr(SymInt, '__%s__' % _n, _mki(_n))
    setattr(SymInt, '__r%s__' % _n, _mki(_n, True))


def _i_pow(a, b):
    if not is_sym(b) and isinstance(b, (int, np.integer)) and 0 <= b <= 8:
        out = 1
        for _ in range(int(b)):
            out = i_bin('mul', out, a)
        return out
    if not is_sym(a) and isinstance(a, (int, np.integer)) and a == 2 and type(b) is SymInt:
        return i_bin('lshift', 1, b)
    return r_pow(a, b)


SymInt.__pow__ = lambda s, o: _i_pow(s, o) if _num_other(o) else NotImplemented
SymInt.__rpow__ = lambda s, o: _i_pow(o, s) if _num_other(o) else NotImplemented

_RC = dict(lt=r_lt, le=r_le, gt=r_gt, ge=r_ge, eq=r_eq, ne=r_ne)


def _mkc(op):
    def m(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if not is_num(o):
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            return NotImplemented
        if _isint(o):
            return i_cmp(op, self, o)
        return _RC[op](self, o)
    return m


for _n in _RC:
    setattr(SymInt, '__%s__' % _n, _mkc(_n))


# SymBool arithmetic goes through ints
def _mkb(op, swap=False):
    def m(self, o):
        if not _num_other(o):
            return NotImplemented
        a = to_int(self)
        f = getattr(type(a), '__%s%s__' % ('r' if swap else '', op))
        return f(a, to_int(o) if type(o) is SymBool else o)
    return m


for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
    setattr(SymBool, '__%s__' % _n, _mkb(_n))
    setattr(SymBool, '__r%s__' % _n, _mkb(_n, True))
for _n in ('lt', 'le', 'gt', 'ge'):
    setattr(SymBool, '__%s__' % _n, _mkb(_n))


def real_to_int(x, dt=None):
    """truncate a real scalar to an int scalar"""
    if not is_sym(x):
        return int(x)
    if type(x) is not SymReal:
        return to_int(x)
    v = x.v
    if x.nan is not False and ctx().branch(x.nan):
        raise ValueError('cannot convert float NaN to integer')
    if x.inf is not False and ctx().branch(x.inf):
        raise OverflowError('cannot convert float infinity to integer')
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
        return mkint(v.arg(0), dt)
    return mkint(z3.simplify(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))), dt)


# ---- strings

class SymStr(str, Sym):
    """Symbolic string over the z3 sequence theory; `dom` is an optional finite domain."""

    def __new__(cls, t, dom=None):
        self = str.__new__(cls, '\x01sym')
        self.t = t
        self.dom = dom
        return self

    def __repr__(self):
        return "'<symstr>'"

    def __str__(self):
        return '<symstr>'

    def __reduce__(self):
        raise EngineLimit('pickling symbolic string')

    def __hash__(self):
        return hash(self.concretise())

    def concretise(self):
        s = z3.simplify(self.t)
        if z3.is_string_value(s):
            return s.as_string()
        if self.dom is None:
            raise EngineLimit('hash of unbounded symbolic string')
        i = ctx().choose([self.t == z3.StringVal(d) for d in self.dom])
        return self.dom[i]

    def __eq__(self, o):
        if isinstance(o, str):
            return mkbool(fold(self.t == sterm(o)))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if is_sym(r) else not r

    def __bool__(self):
        return ctx().branch(z3.Length(self.t) > 0)

    def __contains__(self, o):
        return ctx().branch(z3.Contains(self.t, sterm(o)))

    def __add__(self, o):
        return mkstr(z3.Concat(self.t, sterm(o)))

    def __radd__(self, o):
        return mkstr(z3.Concat(sterm(o), self.t))

    def replace(self, old, new, count=-1):
        if count == 1:
            return mkstr(z3.Replace(self.t, sterm(old), sterm(new)))
        # replace-all: bounded unrolling by case split
        out = self
        pre = z3.StringVal('')
        rest = self.t
        n = 0
        lim = count if count >= 0 else 4
        while n < lim:
            if not ctx().branch(z3.Contains(rest, sterm(old))):
                return mkstr(z3.Concat(pre, rest))
            i = z3.IndexOf(rest, sterm(old), 0)
            pre = z3.Concat(pre, z3.SubString(rest, 0, i), sterm(new))
            lo = len(old)
            rest = z3.SubString(rest, i + lo, z3.Length(rest))
            n += 1
        if count < 0:
            ctx().assume(z3.Not(z3.Contains(rest, sterm(old))))
        return mkstr(z3.Concat(pre, rest))

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return mkbool(fold(z3.Or(*[z3.PrefixOf(sterm(q), self.t) for q in p])))
        return mkbool(fold(z3.PrefixOf(sterm(p), self.t)))

    def endswith(self, p, *a):
        if isinstance(p, tuple):
            return mkbool(fold(z3.Or(*[z3.SuffixOf(sterm(q), self.t) for q in p])))
        return mkbool(fold(z3.SuffixOf(sterm(p), self.t)))

    def find(self, p, *a):
        return mkint(z3.IndexOf(self.t, sterm(p), 0))

    def strip(self, *a):
        return self.concrete_op('strip', *a)

    def rstrip(self, *a):
        return self.concrete_op('rstrip', *a)

    def lstrip(self, *a):
        return self.concrete_op('lstrip', *a)

    def upper(self):
        return self.concrete_op('upper')

    def lower(self):
        return self.concrete_op('lower')

    def split(self, *a):
        return self.concrete_op('split', *a)

    def concrete_op(self, name, *a):
        return getattr(self.concretise(), name)(*a)

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step in (None, 1):
            L = z3.Length(self.t)
            st = 0 if k.start is None else k.start
            en = None if k.stop is None else k.stop
            if isinstance(st, int) and (en is None or isinstance(en, int)):
                sz = st if not isinstance(st, int) or st >= 0 else L + st
                sz = sz if not isinstance(sz, int) else z3.IntVal(sz)
                ez = L if en is None else (z3.IntVal(en) if en >= 0 else L + en)
                return mkstr(z3.SubString(self.t, sz, ez - sz))
        return self.concrete_op('__getitem__', k)

    def __iter__(self):
        return iter(self.concretise())

    def __len__(self):
        return len(self.concretise())

    def __lt__(self, o):
        return mkbool(fold(self.t < sterm(o)))

    def __le__(self, o):
        return mkbool(fold(self.t <= sterm(o)))

    def __gt__(self, o):
        return mkbool(fold(sterm(o) < self.t))

    def __ge__(self, o):
        return mkbool(fold(sterm(o) <= self.t))

    def __format__(self, spec):
        return '<symstr>'

    def copy(self):
        return self


def sterm(o):
    if type(o) is SymStr:
        return o.t
    return z3.StringVal(str(o))


def mkstr(t):
    s = z3.simplify(t)
    if z3.is_string_value(s):
        return s.as_string()
    return SymStr(s)


# ---- generic ite

def ite(c, a, b):
    """Scalar if-then-else; c python bool / z3 bool / SymBool."""
    if type(c) is SymBool:
        c = c.t
    elif not isinstance(c, z3.BoolRef):
        c = bool(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, str) or isinstance(b, str):
        return mkstr(z3.If(c, sterm(a), sterm(b)))
    if (type(a) is SymBool or is_bool(a)) and (type(b) is SymBool or is_bool(b)):
        return mkbool(fold(b_ite(c, tbool(a), tbool(b))))
    if _isint(a) and _isint(b):
        return i_ite(c, to_int(a), to_int(b))
    return r_ite(c, a, b)
