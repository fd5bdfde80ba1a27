"""Additions to CrossHair: models of library functions that would otherwise concretise a symbolic
value at a C boundary.  Every model here is part of the trusted base; test_models.py compares each
with the real function, and every counterexample (and a sample of the passing paths) is replayed
without any of them."""
from collections import deque
import ctypes
import gc
import importlib
import operator
import os
import string as _string
import sys
import types

import crosshair.core_and_libs  # noqa
import crosshair.core as core
import crosshair.libimpl.builtinslib as B
import crosshair.libimpl.collectionslib as C
import crosshair.libimpl.datetimelib as D
import crosshair.libimpl.decimallib as DL
import crosshair.simplestructs as S
import z3
from crosshair.core import _PATCH_REGISTRATIONS, deep_realize, python_type, realize
from crosshair.libimpl.builtinslib import (AnySymbolicStr, LazyIntSymbolicStr, RealBasedSymbolicFloat, SymbolicBool,
                                           SymbolicFloat, SymbolicInt, make_bounded_int)
from crosshair.statespace import context_statespace
from crosshair.tracers import NoTracing, PatchingModule, ResumedTracing, is_tracing
from crosshair.util import CrossHairValue, UnexploredPath

import datetime as _dt
import decimal as _decimal
import uuid as _uuid

from engine import rex

_counter = [0]


def fresh(prefix='m'):
    _counter[0] += 1
    return '%s_%d' % (prefix, _counter[0])


_layers = {}


def patch(entity, fn):
    """Replace CrossHair's patch of ``entity``; when the replaced one is called from here and calls
    ``entity`` itself, it gets the real function."""
    old = _PATCH_REGISTRATIONS.get(entity)
    if old is not None and hasattr(old, '__code__'):
        _layers[(old.__code__, entity)] = entity
    _PATCH_REGISTRATIONS[entity] = fn


_add = PatchingModule.add


def _add_layers(self, new_overrides):
    _add(self, new_overrides)
    self.nextfn.update(_layers)


PatchingModule.add = _add_layers


# -- __class__ of proxies ---------------------------------------------------------------------

def _pt(self):
    if not is_tracing():
        return type(self)
    with NoTracing():
        return python_type(self)


def _spoof_class(cls):
    gc.get_referents(cls.__dict__)[0]['__class__'] = property(_pt)
    ctypes.pythonapi.PyType_Modified(ctypes.py_object(cls))


def install_class_spoofing():
    for m in (B, D, S, DL, C):
        for v in list(vars(m).values()):
            if isinstance(v, type) and '__ch_pytype__' in vars(v) and '__class__' not in vars(v):
                _spoof_class(v)


# -- digits -----------------------------------------------------------------------------------

# Digits known by construction: expression -> digits (most significant first) of a number, and
# expression -> digit of a character.  Cleared before every path.
_known_numbers = {}
_known_chars = {}


def reset():
    _counter[0] = 0
    _known_numbers.clear()
    _known_chars.clear()


def know_number(e, digits, base):
    _known_numbers[e.get_id()] = (e, digits, base)


def digits_of(x, n, base=10):
    """The n base-``base`` digits (most significant first) of the SymbolicInt x, given
    0 <= x < base**n, as fresh variables with one linear constraint."""
    known = _known_numbers.get(x.var.get_id())
    if known is not None and known[2] == base and len(known[1]) <= n:
        return [z3.IntVal(0)] * (n - len(known[1])) + known[1]
    space = context_statespace()
    ds = [z3.Int(fresh('dig')) for _ in range(n)]
    total = horner(ds, base)
    for d in ds:
        space.add(z3.And(d >= 0, d < base))
    space.add(x.var == total)
    return ds


def horner(ds, base):
    total = z3.IntVal(0)
    for d in ds:
        total = total * base + d
    return z3.simplify(total)


def _digit_char(d, base):
    if base <= 10:
        return SymbolicInt(d + 48, int)
    e = z3.simplify(z3.If(d < 10, d + 48, d + 87))
    _known_chars[e.get_id()] = (e, d)
    return SymbolicInt(e, int)


def int_to_str(x, width=0, base=10, fill='0', maxdigits=40):
    """str of a SymbolicInt (called while tracing); forks on sign and number of digits."""
    if fill == '0' and width:
        with NoTracing():
            if isinstance(x, SymbolicInt) and rex.decide(z3.And(x.var >= 0, x.var < base ** width)):
                return rex.text([_digit_char(d, base) for d in digits_of(x, width, base)])
    neg = False
    if x < 0:
        neg = True
        x = -x
    n = 1
    limit = base
    while not (x < limit):
        n += 1
        limit *= base
        if n > maxdigits:
            break
    with NoTracing():
        if not isinstance(x, SymbolicInt):
            s = '%d' % x if base == 10 else '%x' % x
            cps = [ord(c) for c in s]
        else:
            cps = [_digit_char(d, base) for d in digits_of(x, n, base)]
        pad = width - len(cps) - (1 if neg else 0)
        sign = [45] if neg else []
        if pad > 0:
            if fill == '0':
                cps = sign + [48] * pad + cps
            else:
                cps = [32] * pad + sign + cps
        else:
            cps = sign + cps
        return LazyIntSymbolicStr(cps)


# -- str(), format(), '...'.format(), '%' -------------------------------------------------------

PLACEHOLDER = '<symbolic>'


def has_symbolic(x, depth=0):
    if isinstance(x, CrossHairValue) or hasattr(type(x), '__ch_pytype__'):
        return True
    if depth > 6:
        return True
    t = type(x)
    if issubclass(t, (list, tuple, set, frozenset, deque)):
        return any(has_symbolic(e, depth + 1) for e in x)
    if t is dict:
        return any(has_symbolic(k, depth + 1) or has_symbolic(v, depth + 1) for k, v in x.items())
    if t in (int, float, str, bool, bytes, type(None), type(sys)) or isinstance(x, type):
        return False
    if isinstance(x, BaseException):
        return any(has_symbolic(e, depth + 1) for e in x.args)
    d = getattr(x, '__dict__', None)
    if isinstance(d, dict) and not callable(x):
        return any(has_symbolic(e, depth + 1) for e in d.values())
    return False


def _is_message(template):
    return len(template) > 12 and ' ' in template


def _safe_arg(a):
    if has_symbolic(a):
        return PLACEHOLDER
    return a


def _str_format(self, /, *a, **kw):
    with NoTracing():
        template = realize(self)
        if not isinstance(template, str):
            raise TypeError
        if _is_message(template):
            # Text of an error or warning: the values inside it are not modelled.
            return template.format(*[_safe_arg(x) for x in a], **{k: _safe_arg(v) for k, v in kw.items()})
        if not any(has_symbolic(x) for x in a) and not any(has_symbolic(x) for x in kw.values()):
            return template.format(*a, **kw)
    parts = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(template):
        parts.append(lit)
        if field is None:
            continue
        if field == '':
            field = str(auto)
            auto += 1
        if field.isdigit():
            obj = a[int(field)]
        elif field.isidentifier():
            obj = kw[field]
        else:
            return _string.Formatter().format(template, *a, **kw)
        if conv == 'r':
            obj = repr(obj)
        elif conv == 's':
            obj = str(obj)
        parts.append(format(obj, spec or ''))
    return _concat(parts)


def _concat(parts):
    with NoTracing():
        if not any(isinstance(p, AnySymbolicStr) for p in parts):
            return ''.join(parts)
    res = ''
    for p in parts:
        res = res + p
    return res


def _format(obj, format_spec=''):
    with NoTracing():
        format_spec = realize(format_spec)
        if format_spec in ('', 's') and isinstance(obj, AnySymbolicStr):
            return obj
        if isinstance(obj, SymbolicInt):
            m = _parse_int_spec(format_spec)
            if m is not None:
                width, fill, base = m
                with ResumedTracing():
                    return int_to_str(obj, width, base, fill)
        if isinstance(obj, (D.date, D.time)):
            with ResumedTracing():
                return obj.strftime(format_spec) if format_spec else str(obj)
        if not has_symbolic(obj):
            return format(obj, format_spec)
        if isinstance(obj, BaseException):
            return format(_exc_text(obj), format_spec)
        obj = deep_realize(obj)
    return format(obj, format_spec)


def _exc_text(exc):
    args = [_safe_arg(x) for x in exc.args]
    return str(args[0]) if len(args) == 1 else str(tuple(args))


def _parse_int_spec(spec):
    fill = ' '
    base = 10
    s = spec
    if s and s[-1] in 'dx':
        if s[-1] == 'x':
            base = 16
        s = s[:-1]
    if s[:1] == '0':
        fill = '0'
        s = s[1:]
    if s == '':
        return (0, fill, base)
    if s.isdigit():
        return (int(s), fill, base)
    return None


_orig_str = _PATCH_REGISTRATIONS[str]


def _str(*a):
    with NoTracing():
        if len(a) == 1:
            x = a[0]
            if isinstance(x, SymbolicInt):
                with ResumedTracing():
                    return int_to_str(x)
            if isinstance(x, SymbolicBool):
                return str(realize(x))
            if isinstance(x, BaseException) and type(x).__str__ in (BaseException.__str__, Exception.__str__) \
                    and has_symbolic(x):
                return _exc_text(x)
    return _orig_str(*a)


def _percent(self, other):
    with NoTracing():
        template = realize(self)
        if not isinstance(template, str):
            raise TypeError
        if not has_symbolic(other):
            return template % other
        args = other if isinstance(other, tuple) else (other,)
        if _is_message(template):
            args = tuple(0 if isinstance(x, SymbolicInt) else _safe_arg(x) for x in args)
            return template % args
        if isinstance(other, dict):
            return template % deep_realize(other)
    parts = []
    i = 0
    k = 0
    while i < len(template):
        c = template[i]
        if c != '%':
            j = template.find('%', i)
            if j < 0:
                j = len(template)
            parts.append(template[i:j])
            i = j
            continue
        j = i + 1
        while template[j] in '0123456789.-+ #':
            j += 1
        kind = template[j]
        spec = template[i + 1:j]
        i = j + 1
        if kind == '%':
            parts.append('%')
            continue
        arg = args[k]
        k += 1
        with NoTracing():
            sym_int = isinstance(arg, SymbolicInt)
            sym_str = isinstance(arg, AnySymbolicStr)
            ok_int = sym_int and kind in 'dxis' and (spec == '' or spec.isdigit())
        if ok_int:
            fill = '0' if spec[:1] == '0' else ' '
            parts.append(int_to_str(arg, int(spec) if spec else 0, 16 if kind == 'x' else 10, fill))
        elif sym_str and kind == 's' and spec == '':
            parts.append(arg)
        else:
            with NoTracing():
                parts.append(('%' + spec + kind) % (deep_realize(arg),))
    return _concat(parts)


# -- date and time text -------------------------------------------------------------------------

_FIELDS = {'Y': ('year', 1900, 0), 'm': ('month', 1, 2), 'd': ('day', 1, 2), 'H': ('hour', 0, 2),
           'M': ('minute', 0, 2), 'S': ('second', 0, 2), 'f': ('microsecond', 0, 6)}


def _strftime(self, fmt):
    """strftime with the directives used for RFC3339, glibc behaviour (%Y is not padded)."""
    with NoTracing():
        if isinstance(fmt, AnySymbolicStr):
            cps = rex.cps_of(fmt)
            # A digit or sign put into the pattern; it must not be able to hold a directive.
            pct = [isinstance(c, CrossHairValue) and not rex.decide(rex.expr(c) != 37) for c in cps]
            if any(pct):
                raise UnexploredPath('strftime: symbolic directive')
        else:
            cps = [ord(c) for c in fmt]
        parts = []
        i = 0
        while i < len(cps):
            j = i
            while j < len(cps) and (type(cps[j]) is not int or cps[j] != 37):
                j += 1
            if j > i:
                parts.append(rex.text(cps[i:j]))
            i = j
            if i < len(cps):
                d = chr(cps[i + 1]) if i + 1 < len(cps) and type(cps[i + 1]) is int else ''
                if d not in _FIELDS:
                    with ResumedTracing():
                        real = deep_realize(self)
                        rfmt = realize(fmt)
                    return real.strftime(rfmt)
                parts.append(_FIELDS[d])
                i += 2
    out = []
    for p in parts:
        if type(p) is tuple:
            name, default, width = p
            out.append(_fmt_int(getattr(self, name, default), width))
        else:
            out.append(p)
    return _concat(out)


def _fmt_int(x, width):
    with NoTracing():
        if not isinstance(x, SymbolicInt):
            return '%0*d' % (width, x) if width else '%d' % x
        if width:
            # Exactly ``width`` digits: the field's range guarantees it.
            return LazyIntSymbolicStr([_digit_char(d, 10) for d in digits_of(x, width)])
    return int_to_str(x)


def _iso_date(self):
    return _concat([_fmt_int4(self.year), '-', _fmt_int(self.month, 2), '-', _fmt_int(self.day, 2)])


def _fmt_int4(y):
    return _fmt_int(y, 4)


def _iso_time(self, timespec='auto'):
    parts = [_fmt_int(self.hour, 2), ':', _fmt_int(self.minute, 2), ':', _fmt_int(self.second, 2)]
    if timespec == 'auto':
        if self.microsecond != 0:
            parts += ['.', _fmt_int(self.microsecond, 6)]
    elif timespec == 'microseconds':
        parts += ['.', _fmt_int(self.microsecond, 6)]
    elif timespec == 'milliseconds':
        parts += ['.', _fmt_int(self.microsecond // 1000, 3)]
    elif timespec != 'seconds':
        raise ValueError('Unknown timespec value')
    return _concat(parts)


def _iso_offset(off):
    if off is None:
        return ''
    days, secs = off.days, off.seconds
    if days < 0:
        sign = '-'
        secs = 86400 - secs
        if days != -1:
            secs = secs + 86400 * (-1 - days)
    else:
        sign = '+'
    hh, rest = divmod(secs, 3600)
    mm, ss = divmod(rest, 60)
    parts = [sign, _fmt_int(hh, 2), ':', _fmt_int(mm, 2)]
    if ss != 0:
        parts += [':', _fmt_int(ss, 2)]
    return _concat(parts)


def _iso_datetime(self, sep='T', timespec='auto'):
    return _concat([_iso_date(self), sep, _iso_time(self, timespec), _iso_offset(self.utcoffset())])


def _iso_timeobj(self, timespec='auto'):
    return _iso_time(self, timespec)


def _strptime(data, fmt):
    with NoTracing():
        fmt = realize(fmt)
        if not isinstance(data, AnySymbolicStr) or not isinstance(fmt, str):
            return _dt.datetime.strptime(data, fmt)
        f = rex.strptime_fields(rex.cps_of(data), fmt)
    if f is NotImplemented:
        import _strptime as impl
        return impl._strptime_datetime(_dt.datetime, data, fmt)
    if f is None:
        raise ValueError('time data does not match format')
    return D.datetime(f.get('Y', 1900), f.get('m', 1), f.get('d', 1), f.get('H', 0), f.get('M', 0), f.get('S', 0),
                      f.get('f', 0))


def _ex(x):
    return x.var if isinstance(x, SymbolicInt) else x


def _sym(*xs):
    return any(isinstance(x, SymbolicInt) for x in xs)


def leap_expr(y):
    return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))


def dim_expr(y, m):
    return z3.If(m == 2, z3.If(leap_expr(y), 29, 28), z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), 30, 31))


def date_expr(y, m, d):
    y, m, d = [x if z3.is_expr(x) else z3.IntVal(x) for x in (y, m, d)]
    return z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= dim_expr(y, m))


_check_date = D._check_date_fields
_check_time = D._check_time_fields


def _check_date_fields(year, month, day):
    with NoTracing():
        if _sym(year, month, day) and all(isinstance(x, (int, SymbolicInt)) for x in (year, month, day)):
            if not rex.decide(date_expr(_ex(year), _ex(month), _ex(day))):
                raise ValueError('day is out of range for month')
            return year, month, day
    return _check_date(year, month, day)


def _check_time_fields(hour, minute, second, microsecond, fold):
    with NoTracing():
        vals = (hour, minute, second, microsecond)
        if _sym(*vals) and all(isinstance(x, (int, SymbolicInt)) for x in vals) and type(fold) is int:
            if fold not in (0, 1):
                raise ValueError('fold must be either 0 or 1')
            conds = []
            for x, top in zip(vals, (23, 59, 59, 999999)):
                x = _ex(x)
                x = x if z3.is_expr(x) else z3.IntVal(x)
                conds += [x >= 0, x <= top]
            if not rex.decide(z3.And(*conds)):
                raise ValueError('time field out of range')
            return hour, minute, second, microsecond, fold
    return _check_time(hour, minute, second, microsecond, fold)


def _combine(d, t, *a, **kw):
    return D.datetime.combine(d, t, *a, **kw)


def install_datetime():
    D._check_date_fields = _check_date_fields
    D._check_time_fields = _check_time_fields
    D.date.strftime = _strftime
    D.time.strftime = _strftime
    if 'strftime' in vars(D.datetime):
        D.datetime.strftime = _strftime
    D.date.isoformat = _iso_date
    D.time.isoformat = _iso_timeobj
    D.datetime.isoformat = _iso_datetime
    D.timezone.utc = _dt.timezone.utc
    patch(_dt.datetime.strptime, _strptime)
    patch(_dt.datetime.combine, _combine)
    patch(_dt.timedelta, _timedelta)
    install_timedelta()


# A float that holds the rational number n/d.  Rounding is left out: the operations below are exact
# for the magnitudes met (|value| < 2**33 with d <= 3600 * 10**6, see assumptions.json).

LIMIT = 2 ** 33


class SecFloat(CrossHairValue):
    def __init__(self, n, d):
        self.n, self.d = z3.simplify(n), d

    def __ch_pytype__(self):
        return float

    def __ch_realize__(self):
        with NoTracing():
            n = realize(SymbolicInt(self.n, int))
            return n / self.d

    def __deepcopy__(self, memo):
        return self

    __copy__ = lambda self: self

    @staticmethod
    def _ratio(x):
        """(numerator, denominator) of another number, or None."""
        if isinstance(x, SecFloat):
            return x.n, x.d
        if isinstance(x, SymbolicInt):
            return x.var, 1
        if isinstance(x, (int, float)) and x == x and x not in (float('inf'), float('-inf')):
            a, b = x.as_integer_ratio()
            return z3.IntVal(a), b
        return None

    def _cmp(self, other, op):
        with NoTracing():
            r = self._ratio(other)
            if r is None:
                if isinstance(other, (str, bytes, list, tuple, dict)) or other is None:
                    return NotImplemented
                return op(realize(self), realize(other))
            return SymbolicBool(z3.simplify(op(self.n * r[1], r[0] * self.d)))

    def __eq__(self, other):
        return self._cmp(other, operator.eq)

    def __ne__(self, other):
        return self._cmp(other, operator.ne)

    def __lt__(self, other):
        return self._cmp(other, operator.lt)

    def __le__(self, other):
        return self._cmp(other, operator.le)

    def __gt__(self, other):
        return self._cmp(other, operator.gt)

    def __ge__(self, other):
        return self._cmp(other, operator.ge)

    def __hash__(self):
        return hash(realize(self))

    def __bool__(self):
        with NoTracing():
            return rex.decide(self.n != 0)

    def __neg__(self):
        return SecFloat(-self.n, self.d)

    def __pos__(self):
        return self

    def __abs__(self):
        return SecFloat(z3.If(self.n < 0, -self.n, self.n), self.d)

    def _arith(self, other, fn, real):
        with NoTracing():
            r = self._ratio(other)
            if r is None:
                return real(realize(self), realize(other))
            return fn(self, r)

    def __add__(self, o):
        return self._arith(o, lambda s, r: SecFloat(s.n * r[1] + r[0] * s.d, s.d * r[1]), operator.add)

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda s, r: SecFloat(s.n * r[1] - r[0] * s.d, s.d * r[1]), operator.sub)

    def __rsub__(self, o):
        return -(self - o)

    def __mul__(self, o):
        return self._arith(o, lambda s, r: SecFloat(s.n * r[0], s.d * r[1]), operator.mul)

    __rmul__ = __mul__

    def _div(self, o, op):
        with NoTracing():
            o = realize(o)
            if not isinstance(o, (int, float)) or o == 0:
                return op(realize(self), o)
            a, b = o.as_integer_ratio()
            n, d = self.n * b, self.d * a
            if d < 0:
                n, d = -n, -d
            if op is operator.truediv:
                return SecFloat(n, d)
            if op is operator.floordiv:
                return SecFloat(n / d, 1)       # integer division, rounding down for d > 0
            if a > 0:
                return SecFloat((self.n * b) % (self.d * a), self.d * b)
            return op(realize(self), o)

    def __truediv__(self, o):
        return self._div(o, operator.truediv)

    def __floordiv__(self, o):
        return self._div(o, operator.floordiv)

    def __mod__(self, o):
        return self._div(o, operator.mod)

    def __divmod__(self, o):
        return self // o, self % o

    def __int__(self):
        with NoTracing():
            return SymbolicInt(z3.If(self.n >= 0, self.n / self.d, -(-self.n / self.d)), int)

    __trunc__ = __int__

    def __floor__(self):
        with NoTracing():
            return SymbolicInt(self.n / self.d, int)

    def __round__(self, ndigits=None):
        with NoTracing():
            if ndigits is not None and realize(ndigits) != 0:
                return round(realize(self), realize(ndigits))
            q = self.n / self.d
            rest = 2 * (self.n - q * self.d)
            up = z3.Or(rest > self.d, z3.And(rest == self.d, q % 2 == 1))
            r = SymbolicInt(z3.If(up, q + 1, q), int)
            return r if ndigits is None else SecFloat(r.var, 1)

    def __float__(self):
        return self

    def is_integer(self):
        with NoTracing():
            return SymbolicBool(self.n % self.d == 0)

    def __repr__(self):
        return repr(realize(self))


def _total_seconds(self):
    us = (self.days * 86400 + self.seconds) * 1000000 + self.microseconds
    with NoTracing():
        if not isinstance(us, SymbolicInt):
            return _dt.timedelta(microseconds=realize(us)).total_seconds()
        if not rex.decide(z3.And(us.var < LIMIT * 1000000, us.var > -LIMIT * 1000000)):
            raise UnexploredPath('timedelta beyond 270 years')
        return SecFloat(us.var, 1000000)


def _timedelta(*a, **kw):
    with NoTracing():
        secs = kw.get('seconds', a[1] if len(a) > 1 else 0)
        days = kw.get('days', a[0] if a else 0)
        only_secs = not (set(kw) - {'seconds', 'days'}) and len(a) <= 2
        if only_secs and isinstance(secs, SecFloat) and not has_symbolic(days) and days == 0:
            n, d = secs.n, secs.d
            if not rex.decide(z3.And(n < LIMIT * d, n > -LIMIT * d)):
                raise UnexploredPath('timedelta beyond 270 years')
            if 1000000 % d == 0:
                u = n * (1000000 // d)
            else:
                space = context_statespace()
                u = z3.Int(fresh('usec'))
                x = 2 * (u * d - n * 1000000)
                space.add(z3.And(x <= 2 * d, x >= -2 * d))
            s = u / 1000000
            return D._timedelta_skip_construct(SymbolicInt(z3.simplify(s / 86400), int),
                                               SymbolicInt(z3.simplify(s % 86400), int),
                                               SymbolicInt(z3.simplify(u % 1000000), int))
        if only_secs or set(kw) <= {'days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks'}:
            names = ('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks')
            vals = dict(zip(names, a), **kw)
            if _sym(*vals.values()) and all(isinstance(v, SymbolicInt) or type(v) is int for v in vals.values()):
                g = {k: _ex(vals.get(k, 0)) for k in names}
                u = ((g['days'] + 7 * g['weeks']) * 86400 + g['hours'] * 3600 + g['minutes'] * 60
                     + g['seconds']) * 1000000 + g['milliseconds'] * 1000 + g['microseconds']
                s = u / 1000000
                dd = z3.simplify(s / 86400)
                if not rex.decide(z3.And(dd <= 999999999, dd >= -999999999)):
                    raise OverflowError('days out of range')
                return D._timedelta_skip_construct(SymbolicInt(dd, int), SymbolicInt(z3.simplify(s % 86400), int),
                                                   SymbolicInt(z3.simplify(u % 1000000), int))
    return D.timedelta(*a, **kw)


def _td_us(td):
    """A timedelta's microseconds as a z3 expression or an int."""
    d, s, m = _ex(td.days), _ex(td.seconds), _ex(td.microseconds)
    return (d * 86400 + s) * 1000000 + m


def _td_cmp(op):
    def fn(self, other):
        with NoTracing():
            if not isinstance(other, (D.timedelta, _dt.timedelta)):
                return NotImplemented
            parts = [_ex(getattr(t, f)) for t in (self, other) for f in ('days', 'seconds', 'microseconds')]
            if all(isinstance(p, int) or z3.is_expr(p) for p in parts):
                r = op(_td_us(self), _td_us(other))
                return r if isinstance(r, bool) else SymbolicBool(z3.simplify(r))
        return op(D._timedelta_to_microseconds(self), D._timedelta_to_microseconds(other))
    return fn


def _td_bool(self):
    return self != _dt.timedelta(0)


def install_timedelta():
    for name in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        setattr(D.timedelta, '__%s__' % name, _td_cmp(getattr(operator, name)))
    D.timedelta.__bool__ = lambda self: True if _td_bool(self) else False
    D.timedelta.total_seconds = _total_seconds


# -- int(text), float(int) ------------------------------------------------------------------------

_orig_int = _PATCH_REGISTRATIONS[int]


def _int(*a, **kw):
    with NoTracing():
        if len(a) == 1 and not kw and isinstance(a[0], SecFloat):
            return a[0].__int__()
        if len(a) >= 1 and isinstance(a[0], LazyIntSymbolicStr) and not kw:
            base = realize(a[1]) if len(a) > 1 else 10
            text = a[0]
            if base in (10, 16):
                with ResumedTracing():
                    return _parse_int(text, base)
    return _orig_int(*a, **kw)


def _parse_int(text, base):
    """int(str) for base 10 and 16, any decimal digits and white space of Unicode."""
    with NoTracing():
        cps = rex.cps_of(text)
        body = cps[1:] if len(cps) > 1 and type(cps[0]) is int and cps[0] in (43, 45) else cps
        sign = -1 if body is not cps and cps[0] == 45 else 1
        xs = [rex.expr(c) for c in body]
        if xs and rex.decide(z3.And(*[_plain_digit(x, base) for x in xs])):
            return _number(xs, base, sign)
        while cps and rex.in_mask(cps[0], _SPACE):
            cps = cps[1:]
        while cps and rex.in_mask(cps[-1], _SPACE):
            cps = cps[:-1]
        xs = [rex.expr(c) for c in cps]
        sign = 1
        if xs and rex.decide(z3.Or(xs[0] == 43, xs[0] == 45)):
            sign = -1 if rex.decide(xs[0] == 45) else 1
            xs = xs[1:]
        if base == 16 and len(xs) > 2 and rex.decide(z3.And(xs[0] == 48, z3.Or(xs[1] == 120, xs[1] == 88))):
            xs = xs[2:]
            if rex.decide(xs[0] == 95):
                xs = xs[1:]
        digits = []
        prev = False
        for x in xs:
            if rex.decide(_any_digit(x, base)):
                digits.append(x)
                prev = True
            elif prev and rex.decide(x == 95):
                prev = False
            else:
                prev = False
                break
        if not prev:
            raise ValueError('invalid literal for int()')
        return _number(digits, base, sign, any_digit=True)


_SPACE = rex.R.single_char_mask((rex.K.CATEGORY, rex.K.CATEGORY_SPACE), 0)


def _plain_digit(x, base):
    c = z3.And(x >= 48, x <= 57)
    if base == 16:
        c = z3.Or(c, z3.And(x >= 97, x <= 102), z3.And(x >= 65, x <= 70))
    return c


def _any_digit(x, base):
    c = rex.is_digit(x)
    if base == 16:
        c = z3.Or(c, z3.And(x >= 97, x <= 102), z3.And(x >= 65, x <= 70))
    return c


def _number(xs, base, sign, any_digit=False):
    total = z3.IntVal(0)
    for x in xs:
        known = _known_chars.get(x.get_id())
        v = rex.digit_val(x, not any_digit)
        if known is not None and base == 16:
            v = known[1]
        elif base == 16:
            v = z3.If(z3.And(x >= 97, x <= 102), x - 87, z3.If(z3.And(x >= 65, x <= 70), x - 55, v))
        total = total * base + v
    total = z3.simplify(total * sign)
    return total.as_long() if z3.is_int_value(total) else SymbolicInt(total, int)


# -- complex ------------------------------------------------------------------------------------

class SymbolicComplex(CrossHairValue):
    def __init__(self, real, imag):
        self._re, self._im = real, imag

    @property
    def real(self):
        return self._re

    @property
    def imag(self):
        return self._im

    def conjugate(self):
        return SymbolicComplex(self._re, -self._im)

    def __eq__(self, other):
        return self._re == other.real and self._im == other.imag

    def __ch_pytype__(self):
        return complex

    def __ch_realize__(self):
        return complex(realize(self._re), realize(self._im))

    def __deepcopy__(self, memo):
        return self


def _complex(*a, **kw):
    with NoTracing():
        re = kw.get('real', a[0] if a else 0)
        im = kw.get('imag', a[1] if len(a) > 1 else 0)
        if (isinstance(re, SymbolicFloat) or isinstance(im, SymbolicFloat)) and \
                isinstance(re, (SymbolicFloat, float, int)) and isinstance(im, (SymbolicFloat, float, int)):
            re = float(re) if type(re) in (int, bool) else re
            im = float(im) if type(im) in (int, bool) else im
            return SymbolicComplex(re, im)
        return complex(*deep_realize(a), **deep_realize(kw))


_spoof_class(SymbolicComplex)
_spoof_class(SecFloat)


# -- misc ---------------------------------------------------------------------------------------

def _intern(s):
    with NoTracing():
        if isinstance(s, CrossHairValue):
            return s
        return sys.intern(s)


_MISSING = object()


def _one_of(s, names):
    """Whether symbolic text is one of some names, without forking for each of them."""
    n = realize(len(s))
    with NoTracing():
        names = [x for x in names if len(x) == n]
    if not names:
        return False
    if n == 0:
        return True
    cps = [ord(s[i]) for i in range(n)]
    with NoTracing():
        es = [rex.expr(c) for c in cps]
        known = [e.as_long() if z3.is_int_value(e) else None for e in es]
        names = [x for x in names if all(k is None or k == ord(c) for k, c in zip(known, x))]
        if not names:
            return False
        hit = SymbolicBool(z3.Or([z3.And([e == ord(c) for e, c in zip(es, x)]) for x in names]))
    if hit:
        return True
    return False


def _is_symbolic_text(s):
    return isinstance(s, CrossHairValue) and isinstance(s, AnySymbolicStr)


def _getattr(obj, name, default=_MISSING):
    """getattr that runs properties under the tracer."""
    with NoTracing():
        symbolic = isinstance(obj, types.ModuleType) and _is_symbolic_text(name)
        names = dir(type(obj)) + list(vars(obj)) if symbolic and '__getattr__' not in vars(obj) else None
    if names is not None and not _one_of(name, names):
        with NoTracing():
            if default is _MISSING:
                raise AttributeError('module has no attribute')
            return default
    with NoTracing():
        name = realize(name)
        if not isinstance(name, str) or '.' in name:
            return getattr(obj, name) if default is _MISSING else getattr(obj, name, default)
    try:
        return operator.attrgetter(name)(obj)
    except AttributeError:
        if default is _MISSING:
            raise
        return default


_modules = []


def _module_names():
    """The names of all top-level modules and packages that can be imported."""
    if not _modules:
        names = set(sys.stdlib_module_names) | {m.partition('.')[0] for m in list(sys.modules)}
        for path in sys.path:
            try:
                names |= {n.partition('.')[0] for n in os.listdir(path or '.')}
            except OSError:
                pass
        _modules.append(sorted(names))
    return _modules[0]


def _submodule_names(module):
    with NoTracing():
        names = {n.rpartition('.')[2] for n in list(sys.modules) if n.rpartition('.')[0] == module.__name__}
        for path in getattr(module, '__path__', ()):
            try:
                names |= {n.partition('.')[0] for n in os.listdir(path)}
            except OSError:
                pass
        return sorted(names)


def _import_module(name, package=None):
    with NoTracing():
        symbolic = _is_symbolic_text(name)
        names = _module_names() if symbolic else None
    if symbolic:
        if len(name) == 0:
            raise ValueError('Empty module name')
        if name[0] == '.' and not package:
            raise TypeError('relative import')
        if '.' in name:
            parent, last = name.rsplit('.', 1)
            module = _import_module(parent)
            names = _submodule_names(module)
        else:
            last = name
        if not _one_of(last, names):
            raise ModuleNotFoundError('No module with this name')
    with NoTracing():
        return importlib.import_module(deep_realize(name), deep_realize(package))


def _hasattr(obj, name):
    try:
        _getattr(obj, name)
    except AttributeError:
        return False
    return True


# -- case of ASCII text without forks ----------------------------------------------------------------

def _known_cps(s):
    """z3 code points of symbolic text of known length that is all ASCII, or None (called without tracing)."""
    if not isinstance(s, rex.LazyIntSymbolicStr) or type(s._codepoints) not in (list, tuple):
        return None
    cps = list(s._codepoints)
    if not all(type(c) is int or isinstance(c, SymbolicInt) for c in cps) or not rex.all_ascii(cps):
        return None
    return [rex.expr(c) for c in cps]


def _from_exprs(exprs):
    out = []
    for e in exprs:
        e = z3.simplify(e)
        out.append(e.as_long() if z3.is_int_value(e) else SymbolicInt(e))
    return rex.text(out)


def _is_upper(c):
    return z3.And(c >= 65, c <= 90)


def _is_lower(c):
    return z3.And(c >= 97, c <= 122)


def _cased(real, change):
    def fn(self):
        with NoTracing():
            cps = _known_cps(self)
            if cps is not None:
                return _from_exprs(change(cps))
        return real(self)
    return fn


def _lower_cps(cps):
    return [z3.If(_is_upper(c), c + 32, c) for c in cps]


def _upper_cps(cps):
    return [z3.If(_is_lower(c), c - 32, c) for c in cps]


def _title_cps(cps):
    out, inside = [], z3.BoolVal(False)
    for c in cps:
        out.append(z3.If(inside, z3.If(_is_upper(c), c + 32, c), z3.If(_is_lower(c), c - 32, c)))
        inside = z3.simplify(z3.Or(_is_upper(c), _is_lower(c)))
    return out


def install_case():
    cls = rex.LazyIntSymbolicStr
    for name, change in (('lower', _lower_cps), ('upper', _upper_cps), ('title', _title_cps)):
        setattr(cls, name, _cased(getattr(cls, name), change))
    real_replace = cls.replace

    def replace(self, old, new, count=-1):
        with NoTracing():
            if type(old) is str and type(new) is str and len(old) == len(new) == 1 and type(count) is int and count < 0:
                cps = list(self._codepoints) if type(self._codepoints) in (list, tuple) else [None]
                if all(type(c) is int or isinstance(c, SymbolicInt) for c in cps):
                    return _from_exprs([z3.If(e == ord(old), z3.IntVal(ord(new)), e) for e in map(rex.expr, cps)])
        return real_replace(self, old, new, count)
    cls.replace = replace


def install():
    install_class_spoofing()
    install_case()
    install_datetime()
    rex.install(patch)
    patch(str.format, _str_format)
    patch(str.__mod__, _percent)
    patch(format, _format)
    patch(str, _str)
    patch(int, _int)
    patch(complex, _complex)
    patch(getattr, _getattr)
    patch(hasattr, _hasattr)
    patch(importlib.import_module, _import_module)
    patch(sys.intern, _intern)


def enable_real_caches():
    from functools import _lru_cache_wrapper
    _PATCH_REGISTRATIONS.pop(_lru_cache_wrapper.__call__, None)
