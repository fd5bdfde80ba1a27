"""Harness API.

A harness is a function ``h(g)``.  It draws its inputs from ``g``, calls the real jsons code and
states the property with ``g.check``.  The very same function runs in two modes:

* symbolically (engine/symx.py, CrossHair + Z3): a drawn value is an SMT variable, every branch on
  it is decided by the solver, the path tree is explored until it is exhausted;
* natively (engine/replay.py, plain CPython, nothing patched): a drawn value is the value the
  solver chose.  A counterexample counts only if the native run violates the check as well.

This file must not import CrossHair.
"""
import math
import os
import sys
import types
import typing
from datetime import date, datetime, time, timedelta, timezone
from enum import Enum

REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    """The property does not hold on this path."""


class Skip(BaseException):
    """Assumption violated (native mode)."""


HARNESSES = {}


class Harness:
    def __init__(self, fn, bounds, params, timeout, real_cache, outside, slow, per_path, plain):
        self.fn = fn
        self.name = fn.__name__
        self.bounds = bounds
        self.params = params
        self.timeout = timeout
        self.real_cache = real_cache
        self.outside = outside
        self.slow = slow
        self.per_path = per_path
        self.plain = plain


def harness(bounds, params=None, timeout=(120, 1500), real_cache=True, outside='', tiers=('quick', 'thorough'),
            per_path=(60, 300), plain=False):
    """Register a harness.  ``params``: list of values handed as ``g.param`` - one exploration each."""
    def deco(fn):
        mod = sys.modules[fn.__module__]
        reg = HARNESSES.setdefault(mod.__name__, {})
        reg[fn.__name__] = Harness(fn, bounds, params or [None], timeout, real_cache, outside, tiers, per_path, plain)
        return fn
    return deco


class Out:
    """Outcome of a call: a value or an exception."""

    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc


class G:
    """Native mode: every draw returns the recorded value."""
    symbolic = False

    def __init__(self, values=None, tier='quick', param=None):
        self.values = values or {}
        self.tier = tier
        self.param = param
        self.excs = []
        self.missing = []

    # -- bounds ---------------------------------------------------------------------------------
    def b(self, quick, thorough):
        return quick if self.tier == 'quick' else thorough

    # -- draws ----------------------------------------------------------------------------------
    def _get(self, name, default):
        if name not in self.values:
            self.missing.append(name)
            return default
        return self.values[name]

    def int(self, name, lo=None, hi=None):
        return self._get(name, lo if lo is not None else 0)

    def bool(self, name):
        return self._get(name, False)

    def float(self, name, finite=True):
        return self._get(name, 0.0)

    def str(self, name, hi, lo=0, chars=None):
        """A string of lo..hi characters; chars: list of (first, last) code point ranges."""
        return self._get(name, '')

    def digits(self, name, n, base):
        """An int of up to n digits to the given base (the solver knows its digits)."""
        return self._get(name, 0)

    # -- derived draws (same code in both modes) --------------------------------------------------
    def choice(self, name, seq):
        seq = list(seq)
        n = len(seq)
        if n == 1:
            return seq[0]
        i = self.int(name, 0, n - 1)
        return self._pick(i, seq, 0, n)

    def _pick(self, i, seq, lo, hi):
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if i < mid:
                hi = mid
            else:
                lo = mid
        return seq[lo]

    def flag(self, name):
        return self.choice(name, (False, True))

    def len(self, name, hi, lo=0):
        return self.choice(name, range(lo, hi + 1))

    def subset(self, name, items):
        return [x for k, x in enumerate(items) if self.flag('%s.%d' % (name, k))]

    def list(self, name, hi, elem, lo=0):
        return [elem('%s[%d]' % (name, k)) for k in range(self.len(name + '.len', hi, lo))]

    def date(self, name, lo=1, hi=9999):
        """year, month, day of a date that exists."""
        y, m, d = self.int(name + '.y', lo, hi), self.int(name + '.m', 1, 12), self.int(name + '.d', 1, 31)
        leap = (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0))
        self.assume((d <= 28) | ((d <= 30) & (m != 2))
                    | ((d == 31) & ((m == 1) | (m == 3) | (m == 5) | (m == 7) | (m == 8) | (m == 10) | (m == 12)))
                    | ((d == 29) & (m == 2) & leap))
        return y, m, d

    def opt(self, name, elem):
        return None if self.flag(name + '.none') else elem(name)

    def concrete(self, x):
        """A value that the path determines, without symbols."""
        return x

    def native(self, fn, *args, **kwargs):
        """Call a helper of a check (never code under test) outside the engine; arguments must be concrete."""
        return fn(*args, **kwargs)

    # -- assume / assert --------------------------------------------------------------------------
    def assume(self, cond):
        if not cond:
            raise Skip()

    def check(self, cond, msg, *details):
        if not cond:
            self.fail(msg, *details)

    def fail(self, msg, *details):
        if not self.symbolic and details:
            msg = msg + ' :: ' + ' | '.join(_safe_repr(d) for d in details)
        raise Violation(msg)

    # -- calling the code under test ----------------------------------------------------------------
    def run(self, fn, *args, **kwargs):
        try:
            return Out(True, fn(*args, **kwargs))
        except Exception as err:
            self.excs.append(err)
            return Out(False, exc=err)

    def ok(self, msg, fn, *args, **kwargs):
        """Call that must succeed."""
        out = self.run(fn, *args, **kwargs)
        if not out.ok:
            self.fail(msg + ': raised', out.exc)
        return out.value

    def raises(self, exc_types, msg, fn, *args, **kwargs):
        """Call that must fail with one of the given exceptions."""
        out = self.run(fn, *args, **kwargs)
        if out.ok:
            self.fail(msg + ': no error', out.value)
        if not isinstance(out.exc, exc_types):
            self.fail(msg + ': other error', type(out.exc), out.exc)
        return out.exc

    def same(self, a, b, msg):
        """a and b are equal and have the same types, recursively."""
        why = diff(a, b)
        if why:
            self.fail(msg + ' (' + why + ')', a, b)


def _safe_repr(x):
    try:
        return repr(x)[:400]
    except Exception as err:
        return '<unprintable %s>' % type(x)


def diff(a, b, depth=0):
    """None if a and b agree in type and value at every depth, otherwise where they differ."""
    ta, tb = a.__class__, b.__class__
    if ta is not tb:
        return 'types differ'
    if a is None:
        return None
    if ta in (int, str, bool, bytes):
        if a == b:
            return None
        return 'values differ'
    if ta is float:
        if a == b:
            return None
        if a != a and b != b:
            return None
        return 'values differ'
    if ta is complex:
        return diff(a.real, b.real) or diff(a.imag, b.imag)
    if ta is datetime:
        for f in ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond'):
            if getattr(a, f) != getattr(b, f):
                return 'datetimes differ in ' + f
        if (a.tzinfo is None) != (b.tzinfo is None):
            return 'one datetime is naive'
        if a.tzinfo is not None and a.utcoffset() != b.utcoffset():
            return 'utc offsets differ'
        return None
    if ta is time:
        for f in ('hour', 'minute', 'second', 'microsecond'):
            if getattr(a, f) != getattr(b, f):
                return 'times differ in ' + f
        return None
    if ta is date:
        for f in ('year', 'month', 'day'):
            if getattr(a, f) != getattr(b, f):
                return 'dates differ in ' + f
        return None
    if ta in (timedelta, timezone):
        return None if a == b else 'values differ'
    if issubclass(ta, Enum):
        return None if a is b else 'enum members differ'
    if issubclass(ta, (list, tuple)) or ta.__name__ == 'deque':
        if len(a) != len(b):
            return 'lengths differ'
        for x, y in zip(a, b):
            d = diff(x, y)
            if d:
                return 'element: ' + d
        return None
    if issubclass(ta, dict):
        if len(a) != len(b):
            return 'dict sizes differ'
        for k in a:
            if k not in b:
                return 'key missing'
            d = diff(a[k], b[k])
            if d:
                return 'value: ' + d
        for k in b:
            if k not in a:
                return 'extra key'
        return None
    if issubclass(ta, (set, frozenset)):
        if len(a) != len(b):
            return 'set sizes differ'
        for x in a:
            for y in b:
                if not diff(x, y):
                    break
            else:
                return 'set element missing'
        return None
    da, db = state_of(a), state_of(b)
    if da is not None and db is not None:
        for k in list(da) + [k for k in db if k not in da]:
            # An attribute may be one of the class on one side and one of the instance on the other.
            if not hasattr(a, k) or not hasattr(b, k):
                return 'attribute missing'
            d = diff(getattr(a, k), getattr(b, k))
            if d:
                return 'attribute: ' + d
        return None
    return None if a == b else 'values differ'


def state_of(obj):
    """The instance attributes of obj (through __dict__ and __slots__), or None."""
    cls = obj.__class__
    res = {}
    found = False
    for c in cls.__mro__:
        slots = c.__dict__.get('__slots__')
        if slots is not None:
            found = True
            for s in ((slots,) if isinstance(slots, str) else slots):
                if s not in ('__dict__', '__weakref__') and hasattr(obj, s):
                    res[s] = getattr(obj, s)
    d = getattr(obj, '__dict__', None)
    if d is not None and cls.__module__ not in ('builtins', 'datetime', 'decimal', 'uuid', 'pathlib', 'zoneinfo'):
        found = True
        res.update(d)
    return res if found else None


# -- isolation between runs ---------------------------------------------------------------------

class State:
    """Snapshot of the library's configuration, restored before every path and replay."""

    def __init__(self):
        import jsons
        from jsons import JsonSerializable
        self.classes = [c for c in JsonSerializable.__mro__ if c is not object]
        self.snap = []
        for c in self.classes:
            d = {}
            for k, v in vars(c).items():
                if isinstance(v, (dict, list, set)):
                    d[k] = (v, v.copy())
                elif k not in ('__dict__', '__weakref__'):
                    d[k] = (v, None)
            self.snap.append((c, d))
        self.caches = _find_caches()
        self.containers = _find_containers(d[k][0] for _, d in self.snap for k in d if d[k][1] is not None)

    def restore(self):
        for c, d in self.snap:
            for k in list(vars(c)):
                if k not in d and k not in ('__dict__', '__weakref__', '__abstractmethods__'):
                    delattr(c, k)
            for k, (v, cp) in d.items():
                if cp is not None:
                    if isinstance(v, list):
                        v[:] = cp
                    else:
                        v.clear()
                        v.update(cp)
                if vars(c).get(k) is not v:
                    setattr(c, k, v)
        for v, cp in self.containers:
            if len(v) or len(cp):
                v.clear()
                v.extend(cp) if hasattr(v, 'extend') else v.update(cp)
        for w in self.caches:
            w.cache_clear()
        for f in typing._cleanups:
            f()  # List[Union[A, B]] == List[Union[B, A]]: typing may return the one for the other.


def _find_caches():
    """Every lru_cache wrapper reachable from the jsons modules and their classes."""
    import functools
    lru = type(functools.lru_cache(lambda: None))
    found = {}
    for name, mod in list(sys.modules.items()):
        if name == 'jsons' or name.startswith('jsons.'):
            todo = list(vars(mod).values())
            for v in list(todo):
                if isinstance(v, type) and v.__module__.startswith('jsons'):
                    todo.extend(vars(v).values())
            for v in todo:
                if isinstance(v, lru):
                    found[id(v)] = v
                w = getattr(type(v), '__call__', None)
                if isinstance(w, lru):
                    found[id(w)] = w
                w = getattr(v, '__wrapped__', None)
                if isinstance(w, lru):
                    found[id(w)] = w
    return list(found.values())


def _find_containers(known):
    """Every other mutable container held by the jsons modules, their classes, objects and functions: (it, a copy)."""
    from collections.abc import MutableMapping, MutableSequence, MutableSet
    seen = {id(v) for v in known}
    res = []
    todo = []
    for name, mod in list(sys.modules.items()):
        if name == 'jsons' or name.startswith('jsons.'):
            todo += [v for k, v in vars(mod).items() if not (k.startswith('__') and k.endswith('__'))]
    while todo:
        v = todo.pop()
        if id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, types.ModuleType):
            continue
        if isinstance(v, (MutableMapping, MutableSequence, MutableSet)) and not isinstance(v, (type, bytearray)):
            res.append((v, v.copy() if hasattr(v, 'copy') else list(v)))
        elif isinstance(v, types.FunctionType):
            if (v.__module__ or '').startswith('jsons'):
                for c in v.__closure__ or ():
                    try:
                        todo.append(c.cell_contents)
                    except ValueError:
                        pass
                todo += list(vars(v).values()) + list(v.__defaults__ or ()) + list((v.__kwdefaults__ or {}).values())
        elif isinstance(v, (classmethod, staticmethod)):
            todo.append(v.__func__)
        elif isinstance(v, type):
            if v.__module__.startswith('jsons') and not issubclass(v, Enum):
                todo += [x for k, x in vars(v).items() if k not in ('__dict__', '__weakref__', '__annotations__')]
        elif type(v).__module__.startswith('jsons') and hasattr(v, '__dict__'):
            todo += [x for k, x in vars(v).items() if not k.startswith('__')]
    return res


def setup_path(plain):
    """Make jsons importable from the repository's working tree."""
    sys.path[:] = [p for p in sys.path if p not in (REPO,)]
    sys.path.insert(0, REPO)
    site = '/opt/venv/lib/python3.12/site-packages'
    if site not in sys.path:
        sys.path.append(site)
    sys.dont_write_bytecode = True
