"""Harness contexts.

A harness is a function h(S) that builds inputs through S, calls the real code
and states the property through S.check/S.eq/...  It is run
  * symbolically (SymS): inputs are symbolic, every check is a solver query,
  * concretely (ConcS): inputs come from a counterexample, the code is the
    unmodified package under ordinary numpy; used to replay counterexamples.
"""
import fractions
import json
import math
import os
import random
import re
import sys
import time
import traceback

import numpy as np

from . import swap
from .swap import Gap


class Abort(BaseException):
    pass


class Failed(Exception):
    """An input assumption is not met by the concrete values."""


# ============================================================================
class ConcS:
    """Concrete execution with given (or drawn) values."""
    symbolic = False

    def __init__(self, values=None, rng=None):
        self.values = values
        self.rng = rng
        self.failures = []
        self.checks = 0
        self.used = {}
        self.np = np
        self.ma = np.ma

    def _get(self, name, draw):
        if self.values is not None and name in self.values:
            v = self.values[name]
        else:
            v = draw(self.rng or random.Random(name))
        self.used[name] = v
        return v

    # inputs
    def real(self, name, lo=None, hi=None, nan=False, inf=False, pos=False):
        def draw(r):
            a = -100.0 if lo is None else lo
            b = max(a + 1, 100.0) if hi is None else hi
            if nan and r.random() < 0.15:
                return float('nan')
            return round(r.uniform(a, b), 3) if b > a else a
        v = self._get(name, draw)
        return float(v)

    def int(self, name, lo, hi):
        return int(self._get(name, lambda r: r.randint(lo, hi)))

    def bool(self, name):
        return bool(self._get(name, lambda r: r.random() < 0.5))

    def choice(self, name, options):
        return options[int(self._get(name, lambda r: r.randrange(len(options))))]

    def str(self, name, dom):
        return str(self._get(name, lambda r: r.choice(list(dom))))

    def array(self, name, shape, lo=None, hi=None, nan=False, inf=False):
        out = np.zeros(shape)
        for i in np.ndindex(out.shape):
            out[i] = self.real('%s%s' % (name, list(i)), lo, hi, nan, inf)
        return out

    def intarray(self, name, shape, lo, hi, dtype=np.int64):
        out = np.zeros(shape, dtype=dtype)
        for i in np.ndindex(out.shape):
            out[i] = self._get('%s%s' % (name, list(i)), lambda r: r.randint(lo, hi))
        return out

    def bits(self, name, shape, dtype=np.uint16, nbits=None):
        n = nbits or np.dtype(dtype).itemsize * 8 - (np.dtype(dtype).kind == 'i')
        out = np.zeros(shape, dtype=dtype)
        for i in np.ndindex(out.shape):
            out[i] = self._get('%s%s' % (name, list(i)),
                               lambda r: r.choice([0, 0, 1 << r.randrange(n), r.randrange(1 << n)]))
        return out

    def boolarray(self, name, shape):
        out = np.zeros(shape, dtype=bool)
        for i in np.ndindex(out.shape):
            out[i] = self.bool('%s%s' % (name, list(i)))
        return out

    def const(self, a):
        return np.array(a)

    # property
    def assume(self, c):
        if not bool(np.all(c)):
            raise Failed('assumption not met')

    def fail(self, label, detail=''):
        self.failures.append(label + (': ' + detail if detail else ''))

    def check(self, c, label):
        self.checks += 1
        if not bool(np.all(c)):
            self.fail(label)

    def eq(self, a, b, label, rtol=1e-6, atol=1e-8, tol=None):
        self.checks += 1
        if a is None or b is None:
            if a is not b:
                self.fail(label, '%r vs %r' % (a, b))
            return
        a_, b_ = np.asarray(a), np.asarray(b)
        if a_.shape != b_.shape:
            self.fail(label, 'shape %s vs %s' % (a_.shape, b_.shape))
            return
        if a_.dtype.kind in 'OUS' or b_.dtype.kind in 'OUS':
            if not bool(np.all(a_ == b_)):
                self.fail(label, '%s vs %s' % (a_, b_))
            return
        if tol is not None:
            rtol, atol = tol, tol
        scale = 1.0
        af = np.asarray(a_, dtype=float)
        bf = np.asarray(b_, dtype=float)
        with np.errstate(all='ignore'):
            fin = np.abs(bf[np.isfinite(bf)])
        if fin.size:
            scale = max(1.0, float(fin.max()))
        ok = np.isclose(af, bf, rtol=rtol, atol=atol * scale, equal_nan=True)
        if not ok.all():
            w = tuple(int(x) for x in np.argwhere(~ok)[0]) if ok.ndim else ()
            self.fail(label, 'at %s: got %r expected %r' % (w, af[w] if w or af.ndim == 0 else af, bf[w] if w or bf.ndim == 0 else bf))

    def same(self, a, b, label):
        """equality of plain python values (strings, lists, tuples, numbers)"""
        self.checks += 1
        try:
            if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
                return
            ok = bool(a == b) or (_isnum(a) and _isnum(b) and math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12))
        except Exception:
            ok = False
        if not ok:
            self.fail(label, 'got %r expected %r' % (a, b))

    def raises(self, exc, fn, label):
        self.checks += 1
        try:
            fn()
        except exc as e:
            if swap.gap(e):
                raise
            return True
        self.fail(label, 'no exception')
        return False

    def number(self, text):
        """(value, None or format it was written with) of a number in a text"""
        return float(text), None

    def reach(self, label):
        pass

    def ite(self, c, a, b):
        return a if c else b

    def and_(self, *xs):
        return all(bool(np.all(x)) for x in xs)

    def or_(self, *xs):
        return any(bool(np.all(x)) for x in xs)

    def not_(self, x):
        return not bool(x)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def truth(self, c):
        return bool(c)

    def fork_extrema(self):
        """settle which operand of a maximum or minimum it is by a case distinction instead of a conditional value"""

    def isnan(self, x):
        return np.isnan(x)

    def stub(self, qual, fn):
        """replace an external function: 'module:attr' patched for the harness's duration"""
        _stub(self, qual, fn)

    def setattr(self, obj, name, value):
        if not hasattr(self, '_undo'):
            self._undo = []
        swap.swap(self, obj, name, value)

    def scratch(self):
        """work in a fresh directory that is removed afterwards"""
        import shutil
        import tempfile
        old, new = os.getcwd(), tempfile.mkdtemp(prefix='symnp')
        os.chdir(new)
        if not hasattr(self, '_undo'):
            self._undo = []

        def back():
            os.chdir(old)
            shutil.rmtree(new, ignore_errors=True)
            m = sys.modules.get('symnp.patch')
            if m is not None:
                m.MEMFS.clear()
        self._undo.append((back, None, None))
        return new

    def undo(self):
        for o, n, v in reversed(getattr(self, '_undo', [])):
            if n is None:
                o()
            else:
                setattr(o, n, v)
        self._undo = []


def _isnum(x):
    return isinstance(x, (int, float, np.number))


def _stub(S, qual, fn):
    import importlib
    mod, attr = qual.split(':')
    m = importlib.import_module(mod)
    S.setattr(m, attr, fn)


def run_concrete(h, values, cfg=None, rng=None):
    """-> dict(failures, exception, checks)"""
    S = ConcS(values, rng)
    res = dict(failures=[], exception=None, checks=0, skipped=False)
    try:
        with np.errstate(all='ignore'):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                h(S, **(cfg or {}))
    except Failed as e:
        res['skipped'] = True
    except Exception as e:
        g = swap.gap(e)
        if g:
            res['skipped'], res['gap'] = True, g
        res['exception'] = '%s: %s' % (type(e).__name__, str(e)[:300])
        res['trace'] = traceback.format_exc()[-1800:]
        res['exc_in_code'] = _in_code(sys.exc_info()[2])
    finally:
        S.undo()
    res['failures'] = S.failures
    res['checks'] = S.checks
    res['used'] = S.used
    return res


def _in_code(tb):
    """did the exception propagate through the package's code?"""
    while tb is not None:
        if '/corgidrp/' in tb.tb_frame.f_code.co_filename:
            return True
        tb = tb.tb_next
    return False


# ============================================================================
# symbolic

def _sym():
    from . import core, arr, patch
    return core, arr, patch


class Counterexample(Exception):
    pass


class SymS:
    symbolic = True

    def __init__(self, ctx, run):
        self.core, self.arr, self.patch = _sym()
        self.ctx = ctx
        self.run = run
        self.np = self.patch.NP
        self.ma = self.patch.NP.ma

    # ---- inputs
    def _reg(self, name, kind, *terms):
        self.ctx.vars[name] = (kind, terms)

    def _again(self, name):
        return self.ctx.memo.get(('in', name))

    def real(self, name, lo=None, hi=None, nan=False, inf=False, pos=False):
        a = self._again(name)
        if a is not None:
            return a
        z3, core = self.core.z3, self.core
        if lo is not None and hi is not None and lo == hi:
            return float(lo)
        v = z3.Real(name)
        n = z3.Bool(name + '.nan') if nan else False
        i = z3.Bool(name + '.inf') if inf else False
        if lo is not None:
            self.ctx.define(v >= core.rv(lo))
        if hi is not None:
            self.ctx.define(v <= core.rv(hi))
        if pos:
            self.ctx.define(v > 0)
        if inf:
            self.ctx.define(z3.Implies(i, v != 0))
            if nan:
                self.ctx.define(z3.Not(z3.And(i, n)))
        self._reg(name, 'real', v, n, i)
        s = core.SymReal(v, n, i)
        self.ctx.memo[('in', name)] = s
        return s

    def int(self, name, lo, hi):
        a = self._again(name)
        if a is not None:
            return a
        z3 = self.core.z3
        if lo == hi:
            return lo
        v = z3.Int(name)
        self.ctx.define(v >= lo)
        self.ctx.define(v <= hi)
        self._reg(name, 'int', v)
        s = self.core.SymInt(v)
        self.ctx.memo[('in', name)] = s
        return s

    def bool(self, name):
        a = self._again(name)
        if a is not None:
            return a
        v = self.core.z3.Bool(name)
        self._reg(name, 'bool', v)
        s = self.core.SymBool(v)
        self.ctx.memo[('in', name)] = s
        return s

    def choice(self, name, options):
        z3 = self.core.z3
        v = z3.Int(name)
        self.ctx.define(v >= 0)
        self.ctx.define(v < len(options))
        self._reg(name, 'int', v)
        i = self.ctx.choose([v == k for k in range(len(options))])
        return options[i]

    def str(self, name, dom):
        a = self._again(name)
        if a is not None:
            return a
        z3 = self.core.z3
        v = z3.String(name)
        dom = list(dom)
        self.ctx.define(z3.Or(*[v == z3.StringVal(d) for d in dom]))
        self._reg(name, 'str', v)
        s = self.core.SymStr(v, dom)
        self.ctx.memo[('in', name)] = s
        return s

    def _mk(self, shape, ld, f):
        o = np.ndarray(shape, dtype=object)
        for i in np.ndindex(o.shape):
            o[i] = f(i)
        return self.arr.wrap(o, np.dtype(ld))

    def array(self, name, shape, lo=None, hi=None, nan=False, inf=False):
        return self._mk(shape, float, lambda i: self.real('%s%s' % (name, list(i)), lo, hi, nan, inf))

    def intarray(self, name, shape, lo, hi, dtype=np.int64):
        dt = np.dtype(dtype)

        def f(i):
            s = self.int('%s%s' % (name, list(i)), lo, hi)
            return self.core.SymInt(s.v, dt) if type(s) is self.core.SymInt else s
        return self._mk(shape, dt, f)

    def bits(self, name, shape, dtype=np.uint16, nbits=None):
        """words whose bits are symbolic"""
        dt = np.dtype(dtype)
        z3 = self.core.z3
        w = dt.itemsize * 8
        n = nbits or (w - (dt.kind == 'i'))

        def f(i):
            nm = '%s%s' % (name, list(i))
            v = z3.BitVec(nm, n)
            self._reg(nm, 'bv', v)
            t = v if n == w else z3.ZeroExt(w - n, v)
            return self.core.SymInt(t, dt)
        return self._mk(shape, dt, f)

    def boolarray(self, name, shape):
        return self._mk(shape, bool, lambda i: self.bool('%s%s' % (name, list(i))))

    def const(self, a):
        """a concrete array that the code may store symbolic values into"""
        return self.arr.sym_array(np.array(a))

    # ---- logic
    def _t(self, c):
        core = self.core
        if isinstance(c, np.ndarray):
            return core.b_and(*[core.tbool(x) for x in self.arr.raw(self.arr.asarr(c)).flat])
        if isinstance(c, self.arr.GSel):
            return core.tbool(c.all())
        if isinstance(c, core.z3.BoolRef):
            return c
        return core.tbool(c)

    def assume(self, c):
        self.ctx.assume(self._t(c))

    def truth(self, c):
        return self.ctx.branch(self._t(c))

    def fork_extrema(self):
        self.ctx.opts['fork_extrema'] = True

    def ite(self, c, a, b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return np.where(self.arr.wrap0(c) if not isinstance(c, np.ndarray) else c, a, b)
        return self.core.ite(self.core.tbool(c), a, b)

    def and_(self, *xs):
        return self.core.mkbool(self.core.fold(self.core.b_and(*[self._t(x) for x in xs])))

    def or_(self, *xs):
        return self.core.mkbool(self.core.fold(self.core.b_or(*[self._t(x) for x in xs])))

    def not_(self, x):
        return self.core.mkbool(self.core.b_not(self._t(x)))

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def isnan(self, x):
        return self.core.r_isnan(x) if not isinstance(x, np.ndarray) else np.isnan(x)

    # ---- property
    def check(self, c, label):
        t = self.core.fold(self._t(c))
        self.run.on_check(self, t, label)

    def eq(self, a, b, label, rtol=0, atol=0, tol=None):
        core, arr = self.core, self.arr
        if a is None or b is None:
            self.check(a is b, label)
            return
        if isinstance(a, arr.GSel):
            a = a.materialise()
        if isinstance(b, arr.GSel):
            b = b.materialise()
        A, B = arr.asarr(a), arr.asarr(b)
        if A.shape != B.shape:
            self.run.on_check(self, False, label + ' [shape %s vs %s]' % (A.shape, B.shape))
            return
        ts, margins = [], []
        for x, y in zip(arr.raw(A).flat, arr.raw(B).flat):
            t, m = self._eq1(x, y, tol)
            ts.append(t)
            margins.append(m)
        self.run.on_check(self, core.b_and(*ts), label, margin=margins)

    def _eq1(self, x, y, tol=None):
        core = self.core
        z3 = core.z3
        if isinstance(x, str) or isinstance(y, str):
            r = (x == y) if type(x) is core.SymStr or not type(y) is core.SymStr else (y == x)
            t = core.tbool(r)
            return t, core.b_not(t)
        if not core.is_num(x) or not core.is_num(y):
            t = core.fold(core.tbool(x == y)) if (core.is_sym(x) or core.is_sym(y)) else bool(x == y)
            return t, core.b_not(t)
        if type(x) is core.SymBool or type(y) is core.SymBool:
            if core.is_bool(x) and core.is_bool(y):
                t = core.fold(core.b_not(core.b_xor(core.tbool(x), core.tbool(y))))
                return t, core.b_not(t)
        if core._isint(x) and core._isint(y):
            if not core.is_sym(x) and not core.is_sym(y):
                return bool(x == y), not bool(x == y)
            t = core.tbool(core.i_cmp('eq', core.to_int(x), core.to_int(y)))
            return t, core.b_not(t)
        xv, xn, xi = core.lift_real(x)
        yv, yn, yi = core.lift_real(y)
        if not core.is_sym(x) and not core.is_sym(y):
            fx, fy = float(x), float(y)
            ok = (math.isnan(fx) and math.isnan(fy)) or fx == fy or math.isclose(fx, fy, rel_tol=1e-9, abs_tol=1e-12) \
                or (tol is not None and abs(fx - fy) <= tol * (1 + abs(fy)))
            return ok, not ok
        if xi is False and yi is False and poly_equal(core, xv, yv):
            veq = True
        else:
            d = xv - yv
            if tol is None and not (z3.is_rational_value(xv) or z3.is_rational_value(yv)):
                veq = core.fold(xv == yv)
            else:
                # concrete constants carry their own rounding
                e = core.rv(tol if tol is not None else 1e-9)
                b = e * (1 + z3.If(yv >= 0, yv, -yv)) if tol is not None else e
                veq = core.fold(z3.And(d <= b, -d <= b))
        fe = core.b_ite(xi, core.b_and(yi, (xv > 0) == (yv > 0)), core.b_and(core.b_not(yi), veq)) \
            if xi is not False or yi is not False else veq
        t = core.b_and(core.b_not(core.b_xor(xn, yn)), core.b_or(xn, fe))
        # a difference large enough to survive floating-point replay
        if veq is True:
            m = core.b_not(core.fold(t) if not isinstance(t, bool) else t)
        else:
            d = xv - yv
            mag = z3.If(yv >= 0, yv, -yv)
            big = z3.Or(d > core.rv(fractions.Fraction(1, 100)) * (1 + mag), -d > core.rv(fractions.Fraction(1, 100)) * (1 + mag))
            if xi is not False or yi is not False:
                big = core.b_or(core.b_xor(xi, yi), core.b_and(core.b_not(xi), core.b_not(yi), big),
                                core.b_and(xi, yi, (xv > 0) != (yv > 0)))
            m = core.b_or(core.b_xor(xn, yn), core.b_and(core.b_not(xn), core.b_not(yn), big))
        return core.fold(t) if not isinstance(t, bool) else t, m

    def same(self, a, b, label):
        core = self.core
        if core.is_sym(a) or core.is_sym(b) or isinstance(a, (np.ndarray,)) or isinstance(b, np.ndarray):
            return self.eq(a, b, label)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return self.run.on_check(self, False, label)
            for x, y in zip(a, b):
                self.same(x, y, label)
            if not a:
                self.run.on_check(self, True, label)
            return
        try:
            ok = bool(a == b) or (_isnum(a) and _isnum(b) and math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12)) or \
                (isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b))
        except Exception:
            ok = False
        self.run.on_check(self, ok, label)

    def raises(self, exc, fn, label):
        try:
            fn()
        except exc as e:
            if isinstance(e, self.core.EngineLimit) or swap.gap(e):
                raise
            self.run.on_check(self, True, label)
            return True
        self.run.on_check(self, False, label)
        return False

    def number(self, text):
        t = text.strip()
        if t.startswith('<number#'):
            return self.core.ctx().formatted[int(t[8:-1])]
        return float(t), None

    def reach(self, label):
        self.run.reached.add(label)

    def stub(self, qual, fn):
        _stub(self, qual, fn)

    setattr = ConcS.setattr
    undo = ConcS.undo
    scratch = ConcS.scratch
    fail = None


# -- polynomial / rational-function equality by normalisation

def _frac(core, t, depth=0):
    z3 = core.z3
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_DIV:
            n1, d1 = _frac(core, t.arg(0), depth + 1)
            n2, d2 = _frac(core, t.arg(1), depth + 1)
            return _mul(core, n1, d2), _mul(core, d1, n2)
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB) and t.num_args() <= 64:
            ps = [_frac(core, t.arg(i), depth + 1) for i in range(t.num_args())]
            den = None
            num = ps[0][0]
            den = ps[0][1]
            for (n, d) in ps[1:]:
                if den is None and d is None:
                    num = num + n if k == z3.Z3_OP_ADD else num - n
                elif den is not None and d is not None and den.eq(d):
                    num = num + n if k == z3.Z3_OP_ADD else num - n
                else:
                    a, b = _mul(core, num, d), _mul(core, n, den)
                    num = a + b if k == z3.Z3_OP_ADD else a - b
                    den = _mul(core, den, d)
            return num, den
        if k == z3.Z3_OP_MUL:
            num, den = None, None
            for i in range(t.num_args()):
                n, d = _frac(core, t.arg(i), depth + 1)
                num, den = _mul(core, num, n), _mul(core, den, d)
            return num, den
        if k == z3.Z3_OP_UMINUS:
            n, d = _frac(core, t.arg(0), depth + 1)
            return -n, d
    return t, None


def _mul(core, a, b):
    if a is None:
        return b
    if b is None:
        return a
    return a * b


def _node_count(t, lim):
    n = 0
    stack = [t]
    while stack:
        x = stack.pop()
        n += 1
        if n > lim:
            return n
        stack.extend(x.children())
    return n


def poly_equal(core, x, y):
    z3 = core.z3
    if x.eq(y):
        return True
    if _node_count(x, 1500) > 1500 or _node_count(y, 1500) > 1500:
        return False
    s = z3.simplify(x - y, som=True)
    if z3.is_rational_value(s):
        f = s.as_fraction()
        return abs(f) < fractions.Fraction(1, 10**9)
    if _small_poly(core, s):
        return True
    try:
        n1, d1 = _frac(core, x)
        n2, d2 = _frac(core, y)
        if d1 is None and d2 is None:
            return False
        e = z3.simplify(_mul(core, n1, d2) - _mul(core, n2, d1), som=True)
        return z3.is_rational_value(e) and abs(e.as_fraction()) < fractions.Fraction(1, 10**9)
    except RecursionError:
        return False


def _small_poly(core, s):
    """sum of monomials whose coefficients are all rounding noise (python-float constants)"""
    z3 = core.z3
    args = [s.arg(i) for i in range(s.num_args())] if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_ADD else [s]
    for a in args:
        if z3.is_rational_value(a):
            c = a.as_fraction()
        elif z3.is_app(a) and a.decl().kind() == z3.Z3_OP_MUL and z3.is_rational_value(a.arg(0)):
            c = a.arg(0).as_fraction()
        else:
            return False
        if abs(c) > fractions.Fraction(1, 10**11):
            return False
    return True


# -- exploration

class SymRun:
    def __init__(self, name, h, cfg, opts):
        self.name, self.h, self.cfg, self.opts = name, h, cfg or {}, opts
        self.core, self.arr, self.patch = _sym()
        self.stats = self.core.new_stats()
        self.cex = []            # candidate counterexamples
        self.unknown = []
        self.limits = []
        self.reached = set()
        self.checks = {}         # label -> [trivially true, proved, failed, unknown]
        self.cover = 0
        self.samples = []

    def _model_values(self, S, m):
        core, z3 = self.core, self.core.z3
        out = {}
        for name, (kind, ts) in S.ctx.vars.items():
            if kind == 'real':
                v, n, i = ts
                if n is not False and z3.is_true(m.eval(n, model_completion=True)):
                    out[name] = float('nan')
                    continue
                val = _num(z3, m.eval(v, model_completion=True))
                if i is not False and z3.is_true(m.eval(i, model_completion=True)):
                    val = float('inf') if val > 0 else float('-inf')
                out[name] = val
            elif kind == 'int':
                out[name] = m.eval(ts[0], model_completion=True).as_long()
            elif kind == 'bv':
                out[name] = m.eval(ts[0], model_completion=True).as_long()
            elif kind == 'bool':
                out[name] = bool(z3.is_true(m.eval(ts[0], model_completion=True)))
            elif kind == 'str':
                out[name] = m.eval(ts[0], model_completion=True).as_string()
        return out

    def path_values(self, S, *extra):
        r = S.ctx._check(*extra)
        if r != self.core.z3.sat:
            return None
        return self._model_values(S, S.ctx.solver.model())

    def on_check(self, S, t, label, margin=None):
        core, z3 = self.core, self.core.z3
        rec = self.checks.setdefault(label.split(' [')[0], [0, 0, 0, 0])
        t = core.fold(t)
        if t is True:
            rec[0] += 1
            return
        nfail = sum(1 for c in self.cex if c['label'].split(' [')[0] == label.split(' [')[0])
        if t is False:
            rec[2] += 1
            if nfail < 3:
                v = self.path_values(S)
                if v is not None:
                    self.cex.append(dict(label=label, values=v))
                    self._more(S, z3.BoolVal(True), label, v)
                elif S.ctx._check() == z3.unknown:
                    self.unknown.append(label)
            # nothing left to prove on this path for this label; keep going
            return
        neg = z3.Not(t)
        full = self.opts.get('check_timeout_ms', 60000)
        r = S.ctx._check(neg, timeout=min(4000, full))
        if r == z3.unknown:
            r = self._cases(S, neg, min(15000, full))
        if r == z3.unknown:
            r = S.ctx._check(neg, timeout=full)
        if r == z3.unsat:
            rec[1] += 1
            S.ctx.solver.add(t)
            return
        if r == z3.unknown:
            r2 = self._retry(S, neg)
            if r2 == z3.unsat:
                rec[1] += 1
                S.ctx.solver.add(t)
                return
            if r2 is None:
                rec[3] += 1
                self.unknown.append(label)
                # a candidate may still exist: let concrete runs look
                v = self.path_values(S)
                if v is not None:
                    self.samples.append(v)
                return
            # r2 is a value assignment
            rec[2] += 1
            if nfail < 3:
                self.cex.append(dict(label=label, values=r2))
            return
        rec[2] += 1
        v0 = self._model_values(S, S.ctx.solver.model())
        if nfail < 3:
            got = False
            if margin is not None:
                ms = [m for m in margin if m is not False]
                q = core.b_or(*ms)
                if q is True:
                    q = z3.BoolVal(True)
                if q is not False and S.ctx._check(neg, q, timeout=20000) == z3.sat:
                    self.cex.append(dict(label=label, values=self._model_values(S, S.ctx.solver.model())))
                    got = True
            self.cex.append(dict(label=label, values=v0, weak=got))
            self._more(S, neg, label, v0)
        # continue under the assumption that the check holds, if it can
        if S.ctx._check(t, timeout=5000) == z3.unsat:
            raise core.PathAbort('check always fails')
        S.ctx.solver.add(t)

    def _more(self, S, neg, label, v0):
        """further models of the same failure, away from degenerate values"""
        z3 = self.core.z3
        rng = random.Random(1)
        for k in range(3):
            extra = []
            for name, (kind, ts) in S.ctx.vars.items():
                if kind == 'real' and rng.random() < 0.7:
                    extra.append(ts[0] != self.core.rv(round(v0[name], 6) if math.isfinite(v0[name]) else 0))
                    extra.append(ts[0] != 0)
            s = []
            for e in extra:
                if S.ctx._check(neg, *(s + [e]), timeout=1500) == z3.sat:
                    s.append(e)
                if len(s) > 12:
                    break
            if s and S.ctx._check(neg, *s, timeout=3000) == z3.sat:
                self.cex.append(dict(label=label, values=self._model_values(S, S.ctx.solver.model()), weak=True))
            break

    def _cases(self, S, neg, timeout):
        """an undecided query again, with the case distinctions this path has settled taken out of it: the conditions of
        if-then-else terms that the path condition implies, or excludes, are replaced by their value -> unsat / unknown"""
        z3 = self.core.z3
        asserted = list(S.ctx.solver.assertions())
        conds, seen, todo = [], set(), asserted + [neg]
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app_of(t, z3.Z3_OP_ITE):
                conds.append(t.arg(0))
            todo.extend(t.children())
        sub, facts, known = [], [], set()
        for c in conds:
            if c.get_id() in known or z3.is_true(c) or z3.is_false(c):
                continue
            known.add(c.get_id())
            if S.ctx._check(z3.Not(c), timeout=300) == z3.unsat:
                sub.append((c, z3.BoolVal(True)))
                facts.append(c)
            elif S.ctx._check(c, timeout=300) == z3.unsat:
                sub.append((c, z3.BoolVal(False)))
                facts.append(z3.Not(c))
            if len(known) > 60:
                break
        if not sub:
            return z3.unknown
        sv = z3.Solver()
        sv.set('timeout', timeout)
        sv.add(*facts)
        for a in asserted + [neg]:
            sv.add(z3.simplify(z3.substitute(a, *sub)))
        t0 = time.time()
        r = sv.check()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t0
        return r if r == z3.unsat else z3.unknown

    def _retry(self, S, neg):
        """other tactics for an undecided query -> unsat / values / None"""
        z3 = self.core.z3
        for tac in (('simplify', 'purify-arith', 'solve-eqs', 'qfnra-nlsat'), ('simplify', 'propagate-values', 'solve-eqs', 'smt')):
            try:
                sv = z3.TryFor(z3.Then(*tac), self.opts.get('check_timeout_ms', 60000)).solver()
                for a in S.ctx.solver.assertions():
                    sv.add(a)
                sv.add(neg)
                t0 = time.time()
                r = sv.check()
                self.stats['queries'] += 1
                self.stats['solver_s'] += time.time() - t0
                if r == z3.unsat:
                    return r
                if r == z3.sat:
                    return self._model_values(S, sv.model())
            except z3.Z3Exception:
                continue
        return None

    def go(self):
        core = self.core
        t_end = time.time() + self.opts.get('time_s', 300)
        stack = [[]]
        maxp = self.opts.get('max_paths', 4000)
        self.complete = True
        self.why = ''
        while stack:
            if time.time() > t_end or self.stats['paths'] >= maxp:
                self.complete = False
                self.why = 'time' if time.time() > t_end else 'paths'
                break
            if len(self.cex) > 12:
                self.complete = False
                self.why = 'stopped after counterexamples'
                break
            prefix = stack.pop()
            c = core.Ctx(prefix, dict(self.opts, deadline=t_end), self.stats)
            core.Ctx.cur = c
            S = SymS(c, self)
            self.stats['paths'] += 1
            import warnings
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    self.h(S, **self.cfg)
                # what was shown on this path must not rest on contradictory assumptions
                # (asked until one path is known not to; a hard query counts as consistent)
                if self.cover or c._check(timeout=1500) != core.z3.unsat:
                    self.cover += 1
            except core._TooDeep as e:
                self.complete = False
                self.why = str(e)
                self._limit(S, str(e))
            except core.PathAbort:
                pass
            except core.EngineLimit as e:
                self._limit(S, 'EngineLimit: %s' % e, traceback.format_exc())
            except core.z3.Z3Exception as e:
                self._limit(S, 'Z3Exception: %s' % e, traceback.format_exc())
            except Exception as e:
                g = swap.gap(e)
                if type(e) is TypeError and re.search(r'\bSym(Int|Real|Bool|Str|Array)\b', str(e)):
                    self._limit(S, 'compiled code refuses a symbolic operand: %s' % e, traceback.format_exc())
                elif g:
                    self._limit(S, 'harness gap: ' + g, traceback.format_exc())
                else:
                    self._exception(S, e)
            except RecursionError:
                self._limit(S, 'recursion')
            finally:
                S.undo()
                core.Ctx.cur = c          # let pending terms live until here
            stack.extend(c.pending)
        return self

    def _limit(self, S, msg, tb=''):
        self.limits.append(dict(msg=msg[:300], tb=tb[-1500:]))
        try:
            v = self.path_values(S)
        except Exception:
            v = None
        if v is not None:
            self.samples.append(v)

    def _exception(self, S, e):
        tb = traceback.format_exc()
        lab = 'exception %s' % type(e).__name__
        rec = self.checks.setdefault(lab, [0, 0, 0, 0])
        rec[2] += 1
        if rec[2] > 3:
            return
        v = self.path_values(S)
        if v is not None:
            self.cex.append(dict(label=lab, values=v, msg=str(e)[:300], tb=tb[-2500:], exc=type(e).__name__))
            self._more(S, self.core.z3.BoolVal(True), lab, v)
        elif not (self.core.z3.sat == S.ctx._check()):
            self.unknown.append(lab + ' ' + str(e)[:200])

    def result(self):
        return dict(name=self.name, cfg={k: repr(v) for k, v in self.cfg.items()}, stats=self.stats, cex=self.cex,
                    unknown=self.unknown, limits=self.limits, reached=sorted(self.reached), checks=self.checks,
                    complete=self.complete and not self.limits, why=self.why, finished_paths=self.cover,
                    samples=self.samples[:12], external=sorted(self.patch.USED))


def _num(z3, v):
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    if z3.is_int_value(v):
        return float(v.as_long())
    return 0.0
