"""C02: a dump consists of plain JSON data only."""
import collections
import enum
import pathlib
from collections import OrderedDict, defaultdict, deque
from datetime import date, datetime, time, timedelta, timezone
from decimal import Decimal
from fractions import Fraction
from typing import Any, Dict, List, NamedTuple, Optional, Sequence, Set, Tuple, Union
from uuid import UUID
from zoneinfo import ZoneInfo

import jsons
from checks.shapes import CONTAINERS_ALL, OBJECTS_ALL, AT, DC, DCNest, NT, Node, Plain, Slotted, WithPrivates, WithProp
from checks.spec import Leaf, kid
from engine.api import harness


def plain(g, x, path='dump'):
    """x is built from plain JSON types only."""
    c = x.__class__
    if x is None or c is int or c is bool or c is float or c is str:
        return
    if c is list:
        for y in x:
            plain(g, y, path)
        return
    if c is dict:
        for k, v in x.items():
            kc = k.__class__
            if not (k is None or kc is int or kc is bool or kc is float or kc is str):
                g.fail('a key is no plain JSON key', path, k, x)
            plain(g, v, path)
        return
    g.fail('no plain JSON value in the dump', path, type(x), x)


class Color(enum.Enum):
    RED = 1
    DAY = date(2020, 1, 1)
    PAIR = (1, date(2020, 1, 1))


class Level(enum.IntEnum):
    LOW = 0


class Tag(str, enum.Enum):
    A = 'a'


class Holder:
    def __init__(self, x, y=None):
        self.x, self.y = x, y


class Fld(NamedTuple):
    f: object


@collections.abc.Hashable.register
class Key:
    def __init__(self, k):
        self.k = k

    def __hash__(self):
        return self.k

    def __eq__(self, other):
        return isinstance(other, Key) and self.k == other.k


def aware(g, n):
    return datetime(2020, 2, 29, g.int(n + '.h', 0, 23), 5, 6, g.choice(n + '.us', (0, 7)),
                    tzinfo=timezone(timedelta(minutes=g.choice(n + '.off', (0, 90, -330)))))


LEAVES = {
    'none': lambda g, n: None,
    'bool': lambda g, n: g.bool(n),
    'int': lambda g, n: g.int(n),
    'float': lambda g, n: g.float(n),
    'str': lambda g, n: g.str(n, 2),
    'datetime': aware,
    'naive': lambda g, n: datetime(2020, 1, g.int(n, 1, 31)),
    'date': lambda g, n: date(2020, 1, g.int(n, 1, 31)),
    'time': lambda g, n: time(g.int(n, 0, 23), 1, 2),
    'timedelta': lambda g, n: timedelta(seconds=g.int(n, 0, 10 ** 6)),
    'timezone': lambda g, n: timezone(timedelta(minutes=g.choice(n, (0, 60, -90)))),
    'zone': lambda g, n: ZoneInfo('UTC'),
    'decimal': lambda g, n: Decimal((0, (g.int(n, 1, 9),), -1)),
    'uuid': lambda g, n: UUID(int=g.choice(n, (0, 5))),
    'path': lambda g, n: pathlib.PurePosixPath('a/' + g.choice(n, ('b', 'c'))),
    'complex': lambda g, n: complex(g.float(n), 2.0),
    'enum': lambda g, n: g.choice(n, list(Color)),
    'intenum': lambda g, n: Level.LOW,
    'strenum': lambda g, n: Tag.A,
    'bytes': lambda g, n: g.choice(n, (b'', b'ab')),
    'set': lambda g, n: set(g.subset(n, (1, 2))),
    'frozenset': lambda g, n: frozenset(g.subset(n, ('a', (1, 2)))),
    'tuple': lambda g, n: (g.int(n), date(2020, 1, 1)),
    'deque': lambda g, n: deque([g.int(n), (1,)]),
    'ntuple': lambda g, n: NT(g.int(n), None),
    'odict': lambda g, n: OrderedDict(a=g.int(n), b=date(2020, 1, 1)),
    'defaultdict': lambda g, n: defaultdict(int, a=g.int(n)),
    'object': lambda g, n: Plain(g.int(n), 'b'),
    'slots': lambda g, n: Slotted(g.int(n), None),
    'data': lambda g, n: DC(g.int(n)),
    'attrs': lambda g, n: AT(g.int(n)),
    'privates': lambda g, n: WithPrivates(g.int(n)),
    'props': lambda g, n: WithProp(g.int(n)),
    'kid': lambda g, n: kid(Leaf(g.int(n)), Leaf(None), Leaf((1, date(2020, 1, 1))), Leaf({1}), Leaf(Color.RED)).v,
    'node': lambda g, n: Node(g.int(n), Node(1)),
    'empty': lambda g, n: g.choice(n, ([], (), {}, set(), deque(), '', frozenset())),
    'nested': lambda g, n: {'k': [(date(2020, 1, 1), {'x': {Color.RED}})], 'l': deque([{1: Decimal(1)}])},
    'tuplekeys': lambda g, n: {(1, 2): g.int(n), 'k': 3, (1, 3): date(2020, 1, 1)},
    'objkeys': lambda g, n: {Key(1): g.int(n), 'k': Key(2)},
    'datekeys': lambda g, n: {date(2020, 1, 1): 1, UUID(int=1): 2, Color.RED: 3, None: 4, 1.5: 5, True: 6},
    'exckeys': lambda g, n: {Decimal(1): 1, timedelta(1): 2, (date(2020, 1, 1),): 3, frozenset([1]): 4},
}

LEAVES['mixed'] = lambda g, n: g.choice(n, ([1, 1.5], (1, date(2020, 1, 1)), deque(['a', Plain(1, 'b')]), [Plain(1, ''), (1,)],
                                            [None, {1}], [date(2020, 1, 1), 'x', None], [[1], (1.5, {2})]))

PLACES = {
    'top': lambda x: x,
    'list': lambda x: [x],
    'tuple': lambda x: (1, x),
    'deque': lambda x: deque([x]),
    'dict': lambda x: {'k': x},
    'attribute': lambda x: Holder(x),
    'field': lambda x: Fld(x),
    'deep': lambda x: {'k': [Holder(1, (x, {'l': Fld(x)}))]},
}

KEY = {None: None, 'camel': jsons.KEY_TRANSFORMER_CAMELCASE, 'lisp': jsons.KEY_TRANSFORMER_LISPCASE}
VERBOSE = (None, True, jsons.Verbosity.WITH_CLASS_INFO, jsons.Verbosity.WITH_DUMP_TIME)


def options(g):
    """Any combination of the options that change the shape of a dump."""
    kw = {}
    k = g.choice('transform', list(KEY)[:g.b(2, 3)])
    if k:
        kw['key_transformer'] = KEY[k]
    for f in ('strip_nulls', 'strip_privates'):
        if g.flag(f):
            kw[f] = True
    v = g.choice('verbose', VERBOSE[:g.b(2, 4)])
    if v:
        kw['verbose'] = v
    return kw


def values(g, x, kw):
    out = g.run(jsons.dump, x, **kw)
    if out.ok:
        plain(g, out.value)
    else:
        g.check(isinstance(out.exc, jsons.JsonsError), 'another error than a jsons error', out.exc)
        g.fail('a supported value is not dumped', out.exc)


@harness('values of %d kinds at %d places, every combination of key transformer, stripping and verbosity' % (len(LEAVES), len(PLACES)),
         params=list(LEAVES))
def kinds(g):
    place = g.choice('place', list(PLACES))
    x = PLACES[place](LEAVES[g.param](g, 'x'))
    kw = options(g)
    if g.param in ('enum', 'intenum', 'strenum', 'nested'):
        b = g.choice('by', (None, True, False))
        if b is not None:
            kw['use_enum_name'] = b
    if g.param in ('datetime', 'naive'):
        if g.flag('strip_us'):
            kw['strip_microseconds'] = True
    values(g, x, kw)


@harness('the same values in strict mode', params=list(LEAVES))
def strict_kinds(g):
    place = g.choice('place', ('top', 'list', 'dict', 'attribute', 'field'))
    x = PLACES[place](LEAVES[g.param](g, 'x'))
    kw = dict(strict=True)
    v = g.choice('verbose', (None, True))
    if v:
        kw['verbose'] = v
    if g.flag('by'):
        kw['use_enum_name'] = False
    values(g, x, kw)


class Typed:
    def __init__(self, a: Any, b: Optional[date], c: List[Tuple[int, date]], d: Dict[str, Set[int]], e: Union[int, date],
                 f: Optional[List[Plain]], h: Sequence[Color], i: object):
        self.a, self.b, self.c, self.d, self.e, self.f, self.h, self.i = a, b, c, d, e, f, h, i


CHOICES = dict(a=(None, (1, 2), date(2020, 1, 1), Plain(1, 'b'), {1, 2}), b=(None, date(2020, 1, 1)), e=(3, date(2020, 1, 1)),
               f=(None, [Plain(1, 'x')], []), h=((Color.RED,), [Color.DAY]), i=(Decimal(1), (1,), {'k': date(2020, 1, 1)}))


@harness('an object with attributes of every kind of annotation and any matching value', params=list(CHOICES))
def typed(g):
    args = {k: v[-1] for k, v in CHOICES.items()}
    args[g.param] = g.choice('value', CHOICES[g.param])
    x = Typed(c=[(g.int('c'), date(2020, 1, 2))], d={'k': {1, 2}}, **args)
    cls, strict = g.choice('how', ((None, None), (Typed, None), (None, True), (Typed, True)))
    kw = options(g)
    if strict:
        kw['strict'] = True
    values(g, x, dict(kw, cls=cls))


@harness('all containers and objects of C01, with every combination of options', params=CONTAINERS_ALL + OBJECTS_ALL,
         tiers=('thorough',))
def shapes(g):
    x = g.param.build(g, 'x')
    values(g, x, options(g))
