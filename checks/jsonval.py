"""Arbitrary JSON values, and an independent statement of which values have which type."""
import collections
import collections.abc
import datetime as dt
import decimal
import enum
import pathlib
import types
import typing
import uuid
import zoneinfo

NoneType = type(None)

# Texts that some deserializer or other accepts, or nearly accepts.
TEXTS = ('', '5', ' 7 ', '-0', '1.5', 'x', 'nan', '1e5', '1e999', 'A', 'aa', '2020-01-02', '2020-02-30', '12:00:00', '12:00:00.5',
         '2020-01-01T00:00:00Z', '2020-01-01T00:00:00.5+01:30', '2020-13-01T00:00:00Z', '0001-01-01T00:00:00+23:59',
         '12345678123456781234567812345678', 'True', 'null', '/', '\0', 'UTC', 'No/Zone', '..', 'Infinity', 'sNaN', '1' * 40)
KINDS = ('none', 'int', 'bool', 'float', 'str', 'text', 'list', 'dict')
FLOATS = (0.0, -1.5, 1e308, float('inf'), float('nan'), 3.0)


def scalar(g, name, kinds=KINDS[:6], texts=TEXTS, lo=None, hi=None, chars=None):
    """Any JSON scalar: symbolic numbers and strings, chosen texts."""
    kind = g.choice(name + '.kind', kinds)
    if kind == 'none':
        return None
    if kind == 'int':
        return g.int(name + '.i', lo, hi)
    if kind == 'bool':
        return g.bool(name + '.b')
    if kind == 'float':
        return g.choice(name + '.f', FLOATS)
    if kind == 'str':
        return g.str(name + '.s', g.b(1, 2), chars=chars)
    return g.choice(name + '.t', texts)


def value(g, name, inner, keys=('a', 'b'), width=2, **kw):
    """A scalar, or a list or dict of values from ``inner(name)``."""
    kind = g.choice(name + '.shape', ('scalar', 'list', 'dict'))
    if kind == 'scalar':
        return scalar(g, name, **kw)
    if kind == 'list':
        return [inner('%s[%d]' % (name, k)) for k in range(g.len(name + '.len', width))]
    return {k: inner('%s.%s' % (name, k)) for k in g.subset(name + '.keys', keys)}


def hints_of(cls):
    """The declared types of constructor parameters."""
    ns = dict(vars(__import__(cls.__module__, fromlist=['x'])))
    return {k: v for k, v in typing.get_type_hints(cls.__init__, globalns=ns).items() if k != 'return'}


def fits(x, t, params=None):
    """Does x really have the type t, at every depth?"""
    if t is typing.Any or t is object:
        return True
    if t is None or t is NoneType:
        return x is None
    while hasattr(t, '__supertype__'):
        t = t.__supertype__
    origin, args = typing.get_origin(t), typing.get_args(t)
    if origin in (typing.Union, types.UnionType):
        for a in args:
            if fits(x, a):
                return True
        return False
    if origin is None:
        if isinstance(t, type) and issubclass(t, tuple) and hasattr(t, '_fields'):
            if not isinstance(x, t):
                return False
            hints = typing.get_type_hints(t)
            for f in t._fields:
                if f in hints and not fits(getattr(x, f), hints[f]):
                    return False
            return True
        base = {typing.List: list, typing.Dict: dict, typing.Tuple: tuple, typing.Set: set}.get(t, t)
        if not isinstance(x, base):
            return False
        if base.__init__ is not object.__init__ and base.__module__.startswith('checks.'):
            if not issubclass(base, enum.Enum):
                hints = hints_of(base)
                for p, h in hints.items():
                    if hasattr(x, p) and not fits(getattr(x, p), h):
                        return False
        return True
    if not isinstance(x, origin):
        return False
    if issubclass(origin, tuple):
        if not args:
            return len(x) == 0
        if len(args) == 2 and args[1] is ...:
            for e in x:
                if not fits(e, args[0]):
                    return False
            return True
        if len(x) != len(args):
            return False
        for e, a in zip(x, args):
            if not fits(e, a):
                return False
        return True
    if issubclass(origin, collections.abc.Mapping):
        for k in x:
            if not fits(k, args[0]) or not fits(x[k], args[1]):
                return False
        return True
    if issubclass(origin, collections.abc.Iterable) and args:
        for e in x:
            if not fits(e, args[0]):
                return False
    return True
