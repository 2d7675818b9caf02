"""Argument checks and time stamps in file names."""
import datetime as dt
import re

import numpy as np

from symnp.reg import harness
from .common import *
from corgidrp import check

SCALARS = [('real_scalar', 'any', False), ('real_positive_scalar', 'pos', False), ('real_nonnegative_scalar', 'nonneg', False),
           ('scalar_integer', 'any', True), ('positive_scalar_integer', 'pos', True), ('nonnegative_scalar_integer', 'nonneg', True)]


class Mine(Exception):
    pass


def accepted(f, v):
    try:
        return f(v, 'x', Mine) is v
    except Mine:
        return None


@harness('U02', quick=[dict(i=i) for i in range(6)])
def scalars(S, i=0):
    """A scalar is handed back as it is when it has the kind and sign asked for, and refused with the exception asked for otherwise,
    whatever its value (not-a-number is neither positive nor nonnegative)."""
    name, sign, whole = SCALARS[i]
    f = getattr(check, name)
    kind = S.choice('kind', ['float', 'int', 'complex', 'str', 'list', 'none', 'array'])
    if kind == 'float':
        v = S.real('v', nan=True)
    elif kind == 'int':
        v = S.int('v', -5, 5)
    else:
        v = dict(complex=1 + 2j, str='1', list=[1.], none=None, array=np.ones(1))[kind]
    got = accepted(f, v)
    S.check(got is not False, 'the value itself is returned')
    if kind in ('complex', 'str', 'list', 'none', 'array') or (kind == 'float' and whole):
        S.check(got is None, 'wrong kind refused')
        return
    if kind == 'float':
        z = S.ite(S.isnan(v), -1., v)
        bad = S.isnan(v)
    else:
        z, bad = v, False
    want = dict(any=True, pos=S.and_(S.not_(bad), z > 0), nonneg=S.and_(S.not_(bad), z >= 0))[sign]
    S.check(want if got else S.not_(want), 'accepted exactly when of the sign asked for')
    for n, e in ((3, Mine), (None, Mine), ('x', 'Mine'), ('x', int), ('x', None)):
        S.raises(check.CheckException, lambda: f(v, n, e), 'name and exception are checked')


@harness('U02', quick=[dict()])
def arrays(S):
    """Arrays (and what casts to them) are accepted exactly when they have the number of dimensions, shape and type asked for, with all values kept."""
    n = S.choice('ndim', [0, 1, 2, 3])
    shp = S.choice('shape', [(2, 2, 2), (3, 2, 2), (2, 3, 1), (0, 2, 2)])[:n]
    kind = S.choice('kind', ['float', 'complex', 'str', 'list'])
    a = S.array('a', shp) if n else np.array(1.)
    if kind == 'complex':
        a = np.ones(shp, dtype=complex)
    if kind == 'str':
        a = np.full(shp, 'x')
    arg = a.tolist() if kind == 'list' and n and 0 not in shp else a
    for name, ok in (('oneD_array', n == 1), ('twoD_array', n == 2), ('threeD_array', n == 3), ('twoD_square_array', n == 2 and len(set(shp)) == 1),
                     ('real_array', n > 0 and kind in ('float', 'list'))):
        try:
            got = getattr(check, name)(arg, 'x', Mine)
        except Mine:
            S.check(not ok, name + ' refused')
            continue
        S.check(ok, name + ' accepted')
        if 0 not in shp:
            S.same(np.shape(got), shp, 'shape kept')
        if kind in ('float', 'list') and 0 not in shp:
            S.eq(got, a, 'values kept')
    for name, good in (('string', ['x', '', b'x']), ('boolean', [True, False]), ('dictionary', [{}, {1: 2}])):
        for v in ('x', '', b'x', True, False, {}, {1: 2}, 1, 0, None, [1]):
            got = accepted(getattr(check, name), v)
            S.check(bool(got) == any(type(v) is type(g) and v == g for g in good) and got is not False, name)


class Clock:
    """a date whose microseconds are symbolic"""

    def __init__(self, base, us):
        self.base, self.microsecond = base, us

    tzinfo = property(lambda s: s.base.tzinfo)
    second = property(lambda s: s.base.second)
    minute = property(lambda s: s.base.minute)
    hour = property(lambda s: s.base.hour)
    day = property(lambda s: s.base.day)
    month = property(lambda s: s.base.month)
    year = property(lambda s: s.base.year)

    def replace(self, microsecond=None, **kw):
        return Clock(self.base.replace(**kw), self.microsecond if microsecond is None else microsecond)

    def astimezone(self, tz):
        return Clock(self.base.astimezone(tz), self.microsecond)

    def __add__(self, d):
        us = self.microsecond + d.microseconds
        up = bool(us >= 1000000)
        return Clock(self.base + dt.timedelta(days=d.days, seconds=d.seconds + up), us - 1000000 * up)

    def strftime(self, f):
        return self.base.strftime(f)


BASES = ['2025-04-15T03:05:10', '2024-02-28T23:59:59', '2023-12-31T23:59:59', '2025-04-15T03:05:59+05:30', '2024-03-01T00:10:09-01:00']


@harness('U02', quick=[dict(k=k) for k in range(len(BASES))])
def stamp(S, k=0):
    """Time stamps in file names are the UTC time to the nearest tenth of a second, for every microsecond, across seconds, days and years."""
    us = S.int('us', 0, 999999)
    base = dt.datetime.fromisoformat(BASES[k])
    if S.symbolic:
        class Fake:
            @staticmethod
            def fromisoformat(s):
                return Clock(base, us)
        S.setattr(data, 'datetime', Fake)
        text = BASES[k]
    else:
        text = BASES[k][:19] + '.%06d' % us + BASES[k][19:]
    got = data.format_ftimeutc(text)
    utc = base.astimezone(dt.timezone.utc).replace(tzinfo=None) if base.tzinfo else base
    total, width = 0, 0
    ok = got[:13].replace('T', '').isdigit() and got[8] == 'T'
    S.check(ok, 'date, hour and minute')
    for part in re.findall(r'<number#\d+>|\d|.', got[13:]):
        if part[0] == '<':
            v, form = S.number(part)
            w = int((form or 'd').rstrip('d').lstrip('0') or 1)
            S.check(S.and_(v >= 0, v <= 10 ** w - 1), 'digits fit')
        else:
            S.check(part.isdigit(), 'digits')
            v, w = int(part), 1
        total, width = total * 10 ** w + v, width + w
    S.same(width, 3, 'three digits for the seconds')
    if ok:
        t = dt.datetime.strptime(got[:13], '%Y%m%dT%H%M')
        d = (int((t - utc.replace(second=0)).total_seconds()) * 10 + total) * 100000 - (us + 1000000 * utc.second)
        S.check(S.and_(d <= 50000, d >= -50000), 'nearest tenth of a second')
        S.check(S.and_(total >= 0, total < 600), 'seconds below 60')
