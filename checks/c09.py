"""C09: scalar library types keep their exact value through dump and load."""
import enum
import pathlib
from datetime import date, timedelta, timezone
from decimal import Decimal
from typing import Dict, List, Optional
from uuid import UUID
from zoneinfo import ZoneInfo

import jsons
from engine.api import harness


def through(g, x, cls, msg, **kw):
    """Dump and load, on its own or (solver's choice) inside a container."""
    out = g.ok('dump ' + msg, jsons.dump, x, **kw)
    return g.ok('load ' + msg, jsons.load, out, cls, **kw)


POS = ('top', 'list', 'dict', 'optional', 'attribute')


def holder(cls):
    class Holder:
        def __init__(self, x: cls, o: Optional[cls] = None):
            self.x, self.o = x, o
    return Holder


def placed(g, x, cls, msg, where, **kw):
    """x after a dump and load at the given place."""
    if where == 'top':
        return through(g, x, cls, msg, **kw)
    if where == 'list':
        return through(g, [x], List[cls], msg, **kw)[0]
    if where == 'dict':
        return through(g, {'k': x}, Dict[str, cls], msg, **kw)['k']
    if where == 'optional':
        return g.ok('load ' + msg, jsons.load, g.ok('dump', jsons.dump, x, **kw), Optional[cls], **kw)
    h = holder(cls)
    r = through(g, h(x), h, msg, **kw)
    g.check(r.o is None, 'other attribute')
    return r.x


def same_decimal(g, a, b):
    g.check(a.__class__ is Decimal, 'type of a decimal', a)
    ta, tb = a.as_tuple(), b.as_tuple()
    g.check(ta[0] == tb[0], 'sign of a decimal', a, b)
    g.check(len(ta[1]) == len(tb[1]), 'digits of a decimal', a, b)
    for x, y in zip(ta[1], tb[1]):
        g.check(x == y, 'digits of a decimal', a, b)
    g.check(ta[2] == tb[2], 'exponent of a decimal', a, b)


@harness('decimals of 1..4 digits (6 in thorough), every exponent from -12 to 12 (-30 to 30 in thorough), both signs')
def decimals(g):
    n = g.choice('n', range(1, g.b(4, 6) + 1))
    digits = tuple([g.int('d%d' % k, 0 if k or n == 1 else 1, 9) for k in range(n)])
    e = g.choice('e', range(-g.b(12, 30), g.b(12, 30) + 1))
    x = Decimal((g.choice('s', (0, 1)), digits, e))
    same_decimal(g, through(g, x, Decimal, 'decimal'), x)


@harness('all UUIDs')
def uuids(g):
    x = UUID(int=g.digits('n', 32, 16))
    back = through(g, x, UUID, 'UUID')
    g.check(back.__class__ is UUID and back.int == x.int, 'UUID round trip', x, back)


@harness('paths made from any string of up to 4 characters (6 in thorough) without NUL')
def paths(g):
    s = g.str('s', g.b(4, 6), chars=[(1, 0xd7ff), (0xe000, 0x10ffff)])
    cls = g.choice('cls', (pathlib.PurePosixPath, pathlib.PurePath, pathlib.Path))
    x = cls(s)
    back = through(g, x, cls, 'path')
    g.check(back.__class__ is x.__class__, 'type of a path', back)
    g.check(back == x, 'path round trip', x, back)


@harness('all finite complex numbers')
def complexes(g):
    re, im = g.float('re'), g.float('im')
    back = through(g, complex(re, im), complex, 'complex')
    g.same(back, complex(re, im), 'complex round trip')


@harness('all whole-microsecond timedeltas of less than 2**33 seconds (272 years) either way',
         outside='longer timedeltas: a float of seconds cannot hold their microseconds')
def timedeltas(g):
    us = g.int('us', -(2 ** 33 * 10 ** 6) + 1, 2 ** 33 * 10 ** 6 - 1)
    x = timedelta(microseconds=us)
    back = through(g, x, timedelta, 'timedelta')
    g.check(back.__class__ is timedelta, 'type of a timedelta', back)
    g.check(back == x, 'timedelta round trip', x, back)


@harness('timezones of every whole-microsecond offset, with and without a name', params=('plain', 'named', 'utc'))
def timezones(g):
    if g.param == 'utc':
        x = timezone.utc
    else:
        off = timedelta(microseconds=g.int('us', -86399999999, 86399999999))
        x = timezone(off) if g.param == 'plain' else timezone(off, g.choice('name', ('UTC', 'XYZ', '')))
    back = through(g, x, timezone, 'timezone')
    g.check(back.__class__ is timezone, 'type of a timezone', back)
    g.check(back.utcoffset(None) == x.utcoffset(None), 'offset of a timezone', x, back)
    g.check(back == x, 'timezone round trip', x, back)
    g.check(back.tzname(None) == x.tzname(None), 'name of a timezone', x, back)


KEYS = ('UTC', 'Europe/Amsterdam', 'America/New_York', 'Asia/Kathmandu', 'Australia/Lord_Howe', 'Africa/Abidjan')


@harness('IANA zones (%d names), at every place' % len(KEYS))
def zones(g):
    key = g.choice('key', KEYS)
    x = ZoneInfo(key)
    back = placed(g, x, ZoneInfo, 'zone', g.choice('where', POS))
    g.check(back.__class__ is ZoneInfo and back.key == key, 'zone round trip', x, back)


class Color(enum.Enum):
    RED = 1
    GREEN = 0
    BLUE = -3
    CRIMSON = 1     # alias


class Word(enum.Enum):
    EMPTY = ''
    SPACE = ' '
    UPPER = 'upper'
    date = '2020-01-01T00:00:00Z'
    _private = 'p'


class Mixed(enum.Enum):
    ONE = 1.5
    ONES = '1.5'
    YES = True
    NO = False
    NULL = 'null'


class Level(enum.IntEnum):
    LOW = 0
    HIGH = 10


class Tag(str, enum.Enum):
    A = 'a'
    B = ''


class Perm(enum.Flag):
    R = 1
    W = 2
    RW = 3


class Crossed(enum.Enum):
    """Values that are names of other members."""
    A = 'B'
    B = 'C'
    C = 'A'


class Rich(enum.Enum):
    PAIR = (1, 2)
    DAY = date(2020, 1, 2)
    MAP = {'k': 1}


RICH = {'PAIR': [1, 2], 'DAY': '2020-01-02', 'MAP': {'k': 1}}
ENUMS = (Rich, Color, Word, Mixed, Level, Tag, Perm, Crossed)


@harness('enum members of %d enum classes, by name and by value, at every place' % len(ENUMS), params=ENUMS)
def enums(g):
    cls = g.param
    m = g.choice('member', list(cls.__members__.values()))
    by = g.choice('by', (None, True, False))
    where = g.choice('where', POS)
    h = holder(cls)
    x, t = {'top': (m, cls), 'list': ([m], List[cls]), 'dict': ({'k': m}, Dict[str, cls]), 'optional': (m, Optional[cls]),
            'attribute': (h(m), h)}[where]
    kw = {} if by is None else {'use_enum_name': by}
    out = g.ok('dump enum', jsons.dump, x, **kw)
    inner = out if where in ('top', 'optional') else out[0] if where == 'list' else out['k' if where == 'dict' else 'x']
    if by is False:
        g.check(inner == (RICH[m.name] if cls is Rich else m.value), 'dumped by value', inner)
    else:
        g.check(inner == m.name, 'dumped by name', inner)
    settings = [kw]
    if by is not None and (by or cls is not Crossed):
        settings.append({})
    for load_kw in settings:
        back = g.ok('load enum', jsons.load, out, t, **load_kw)
        inner = back if where in ('top', 'optional') else back[0] if where == 'list' else \
            back['k'] if where == 'dict' else back.x
        g.check(inner is m, 'enum round trip', m, inner, load_kw)


@harness('one decimal, UUID, path, timedelta and timezone of each kind at every place of a structure', params=POS)
def places(g):
    kind = g.choice('kind', ('decimal', 'uuid', 'path', 'timedelta', 'timezone', 'complex'))
    where = g.param
    if kind == 'decimal':
        x = Decimal((g.choice('s', (0, 1)), (g.int('d0', 1, 9), g.int('d1', 0, 9)), g.choice('e', (-3, 0, 2))))
        same_decimal(g, placed(g, x, Decimal, kind, where), x)
    elif kind == 'uuid':
        x = UUID(int=g.digits('n', 32, 16))
        g.check(placed(g, x, UUID, kind, where).int == x.int, 'nested UUID', x)
    elif kind == 'path':
        x = pathlib.PurePosixPath(g.str('p', 2, chars=[(97, 122), (46, 47)]))
        g.check(placed(g, x, pathlib.PurePosixPath, kind, where) == x, 'nested path', x)
    elif kind == 'timedelta':
        x = timedelta(microseconds=g.int('us', -10 ** 15, 10 ** 15))
        g.check(placed(g, x, timedelta, kind, where) == x, 'nested timedelta', x)
    elif kind == 'timezone':
        x = timezone(timedelta(minutes=g.int('min', -1439, 1439)))
        g.check(placed(g, x, timezone, kind, where).utcoffset(None) == x.utcoffset(None), 'nested timezone', x)
    else:
        x = complex(g.float('re'), g.float('im'))
        g.same(placed(g, x, complex, kind, where), x, 'nested complex')


@harness('infinities and zeros of several exponents')
def special_decimals(g):
    x = Decimal(g.choice('x', ('Infinity', '-Infinity', '-0', '0E+5', '0E-9', '-0.000', '1E+3000', '123456789012345678901234567890.5')))
    same_decimal(g, placed(g, x, Decimal, 'decimal', g.choice('where', POS)), x)
