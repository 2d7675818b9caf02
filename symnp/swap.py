"""Replacing a function by a harness stand-in for the duration of a harness.

The code under test may reach the same function under several names (from x import f, import x; x.f, an alias in another
module), and may be rewritten to use another of them: the stand-in goes in everywhere the package can see the original.
A stand-in that finds no place is a gap of the harness, never a finding about the code."""
import functools
import importlib
import inspect
import os
import re
import sys
import types

ORIGIN = {'simpson': 'scipy.integrate', 'fit_2dgaussian': 'photutils.psf', 'LocalBackground': 'photutils.background',
          'CircularAperture': 'photutils.aperture', 'interp1d': 'scipy.interpolate', 'griddata': 'scipy.interpolate',
          'LinearNDInterpolator': 'scipy.interpolate', 'curve_fit': 'scipy.optimize', 'inject_planet': 'pyklip.fakes',
          'gaussfit2d': 'pyklip.fakes', 'klip_dataset': 'pyklip.parallelized', 'Table': 'astropy.table',
          'centroid_com': 'photutils.centroids'}

def gap(e):
    """what the harness and the code's present form disagree about, when that is what the exception is"""
    x, n = e, 0
    while x is not None and n < 20:
        if isinstance(x, Gap):
            return str(x)
        x, n = x.__cause__ or x.__context__, n + 1
    tb = e.__traceback__
    if tb is None:
        return None
    while tb.tb_next is not None:
        tb = tb.tb_next
    if os.sep + 'corgidrp' + os.sep in tb.tb_frame.f_code.co_filename:
        return None
    m = str(e)
    if isinstance(e, AttributeError) and "module 'corgidrp" in m and 'has no attribute' in m:
        return m
    if isinstance(e, ImportError) and 'corgidrp' in m:
        return m
    if type(e) is TypeError and CHECKS in tb.tb_frame.f_code.co_filename and re.search(
            r"\(\) (got an unexpected keyword|got multiple values|missing \d+ required|takes )", m):
        return m
    return None


CHECKS = os.sep + 'checks' + os.sep
KEEP = {}     # id -> object: stand-ins that shims pass through untouched


class Gap(Exception):
    """the harness does not fit the code's present form"""


def real(v):
    """the object behind an engine shim"""
    while type(v) is types.FunctionType and '_symnp_shim' in v.__dict__:
        v = v.__wrapped__
    return v


def package():
    return [m for n, m in list(sys.modules.items()) if (n == 'corgidrp' or n.startswith('corgidrp.'))
            and isinstance(m, types.ModuleType)]


def places(obj, name, value):
    """-> [(holder, attribute)] to replace, original"""
    if type(obj).__name__ == 'ModShim':
        obj = obj._m
    inpkg = isinstance(obj, types.ModuleType) and obj.__name__.split('.')[0] == 'corgidrp'
    if not isinstance(obj, types.ModuleType):
        return [(obj, name)], getattr(obj, name)
    out, home = [], None
    if name in obj.__dict__ or not inpkg:
        if not hasattr(obj, name):
            raise Gap('module %s has no %s' % (obj.__name__, name))
        orig = real(getattr(obj, name))
        if isinstance(orig, types.ModuleType) and not isinstance(value, types.ModuleType) and hasattr(orig, name) \
                and callable(value):
            obj, orig = orig, real(getattr(orig, name))       # 'import datetime' for 'from datetime import datetime'
        out.append((obj, name))
    else:
        cands = []
        for m in package():
            v = m.__dict__.get(name)
            if v is not None and not isinstance(v, types.ModuleType):
                cands.append(real(v))
        home = ORIGIN.get(name)
        if home:
            cands.insert(0, real(getattr(importlib.import_module(home), name)))
        if not cands or any(c is not cands[0] for c in cands):
            raise Gap('nothing called %s reachable from %s' % (name, obj.__name__))
        orig = cands[0]
    if isinstance(orig, (types.FunctionType, type, types.BuiltinFunctionType)):
        for m in package():
            for k, v in list(m.__dict__.items()):
                if not k.startswith('__') and real(v) is orig:
                    out.append((m, k))
        h = getattr(orig, '__module__', None) or ''
        for h in (home, h if h.split('.')[0] == 'corgidrp' else None):
            if not h:
                continue
            try:
                m = importlib.import_module(h)
            except Exception:
                continue
            for k in {name, getattr(orig, '__name__', name)}:
                if real(m.__dict__.get(k)) is orig:
                    out.append((m, k))
    seen, res = set(), []
    for o, k in out:
        if (id(o), k) not in seen:
            seen.add((id(o), k))
            res.append((o, k))
    if not res:
        raise Gap('nothing called %s reachable from %s' % (name, obj.__name__))
    return res, orig


_KINDS = (inspect.Parameter.POSITIONAL_ONLY, inspect.Parameter.POSITIONAL_OR_KEYWORD)


def adapt(value, orig):
    """value, callable with any spelling of the arguments the original accepts (positional or by keyword)"""
    if not isinstance(value, types.FunctionType) or not isinstance(orig, types.FunctionType):
        return value
    try:
        so, sv = inspect.signature(orig), inspect.signature(value)
    except (TypeError, ValueError):
        return value
    if any(p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for p in so.parameters.values()):
        return value
    onames = list(so.parameters)
    vpos = [p.name for p in sv.parameters.values() if p.kind in _KINDS]
    vkw = any(p.kind == p.VAR_KEYWORD for p in sv.parameters.values())
    vvar = any(p.kind == p.VAR_POSITIONAL for p in sv.parameters.values())
    vnames = set(vpos) | {p.name for p in sv.parameters.values() if p.kind == p.KEYWORD_ONLY}

    @functools.wraps(value)
    def g(*a, **k):
        try:
            given = so.bind(*a, **k).arguments
        except TypeError:
            return value(*a, **k)           # the real one would refuse this call
        if vvar:
            try:
                sv.bind(*a, **k)
            except TypeError:
                lead = []
                rest = dict(given)
                for n in onames:
                    if n not in rest:
                        break
                    lead.append(rest.pop(n))
                a, k = lead, rest
            return value(*a, **k)
        kw = {}
        for i, n in enumerate(onames):
            if n not in given:
                continue
            if n in vnames or vkw and i >= len(vpos):
                kw[n] = given[n]
            elif i < len(vpos) and vpos[i] not in onames:
                kw[vpos[i]] = given[n]
            elif vkw:
                kw[n] = given[n]
            else:
                raise Gap('the stand-in for %s has no %s' % (orig.__name__, n))
        try:
            sv.bind(**kw)
        except TypeError:
            raise Gap('the stand-in for %s cannot take this call' % orig.__name__)
        return value(**kw)
    return g


def swap(S, obj, name, value):
    where, orig = places(obj, name, value)
    v = adapt(value, orig)
    KEEP[id(v)] = v
    for o, k in where:
        S._undo.append((o, k, getattr(o, k)))
        setattr(o, k, v)
