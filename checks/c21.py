"""C21: dicts with keys that are not JSON keys survive dump and load."""
import json
from collections import OrderedDict, defaultdict
from datetime import date, datetime, time, timedelta, timezone
from decimal import Decimal
from enum import Enum, IntEnum
from pathlib import PurePosixPath
from typing import DefaultDict, Dict, FrozenSet, List, Mapping, NamedTuple, Optional, Tuple, Union
from uuid import UUID

import jsons
from engine.api import harness

CAMEL, SNAKE = jsons.KEY_TRANSFORMER_CAMELCASE, jsons.KEY_TRANSFORMER_SNAKECASE


class P:
    """Objects of which many have the same hash."""

    def __init__(self, my_n: int, opt: Optional[int] = None):
        self.my_n, self.opt = my_n, opt

    def __eq__(self, other):
        return self.__class__ is other.__class__ and (self.my_n == other.my_n) and self.opt == other.opt

    def __hash__(self):
        return 1 if self.my_n > 0 else 0

    def __repr__(self):
        return 'P(%r, %r)' % (self.my_n, self.opt)


class Q:
    def __init__(self, part: P):
        self.part = part

    def __eq__(self, other):
        return self.__class__ is other.__class__ and self.part == other.part

    def __hash__(self):
        return -2


class Named(NamedTuple):
    my_n: int
    other: str = 'x'


class Colour(Enum):
    RED = 1
    BLUE = (2, 3)
    OTHER_ONE = 'x'


class Mood(Enum):
    RED = 'red'


class Num(IntEnum):
    ONE = 1
    TWO = 2


class Text(str, Enum):
    A = 'a'
    B = 'A2'


UTC = timezone.utc
KEYS = {
    'object': (P, (P(0), P(1), P(2), P(2, 3))),
    'nested object': (Q, (Q(P(0)), Q(P(1)), Q(P(1, 4)))),
    'tuple': (Tuple[int, int], ((0, 1), (1, 0), (1, 1))),
    'tuple of objects': (Tuple[P, date], ((P(0), date(2020, 1, 2)), (P(1), date(2020, 1, 2)), (P(1), date(2020, 1, 3)))),
    'tuple of any length': (Tuple[int, ...], ((), (1,), (1, 2), (2, 1))),
    'nested tuple': (Tuple[Tuple[int, str], int], (((1, 'a'), 1), ((1, 'b'), 1), ((1, 'a'), 2))),
    'named tuple': (Named, (Named(1), Named(1, 'y'), Named(2))),
    'frozenset': (FrozenSet[int], (frozenset(), frozenset([1]), frozenset([1, 2]))),
    'date': (date, (date(2020, 1, 2), date(1, 1, 1), date(9999, 12, 31))),
    'datetime': (datetime, (datetime(2020, 1, 2, 3, 4, 5, 6, UTC), datetime(2020, 1, 2, 3, 4, 5, 7, UTC),
                            datetime(20, 1, 2, 3, 4, 5, 0, timezone(timedelta(hours=-3, minutes=-30))))),
    'time': (time, (time(1, 2), time(1, 2, 3), time(1, 2, 3, 4))),
    'timedelta': (timedelta, (timedelta(seconds=5), timedelta(days=-1, milliseconds=500), timedelta(0))),
    'timezone': (timezone, (UTC, timezone(timedelta(hours=1)), timezone(timedelta(hours=-3, minutes=-30)))),
    'uuid': (UUID, (UUID(int=0), UUID(int=2 ** 127 + 5), UUID(int=7))),
    'decimal': (Decimal, (Decimal('1.50'), Decimal('-3'), Decimal('0.1'))),
    'complex': (complex, (complex(5, 0), complex(6, 0), complex(5, 1), complex(0, 0))),
    'enum': (Colour, tuple(Colour)),
    'int enum': (Num, tuple(Num)),
    'text enum': (Text, tuple(Text)),
    'bytes': (bytes, (b'', b'ab', b'\xff\x00')),
    'path': (PurePosixPath, (PurePosixPath('a/b'), PurePosixPath('/a'), PurePosixPath('.'))),
    'int': (int, (0, -1, 2 ** 70)),
    'float': (float, (0.5, -1.25, 1e300)),
    'str': (str, ('', 'a', '0', 'A b')),
    'optional': (Optional[P], (P(0), P(1))),
    'union': (Union[P, Tuple[int, str]], (P(0), (1, 'a'), P(1))),
    'union with text': (Union[P, date, str], (P(1), date(2020, 1, 2), 'a', '1')),
    'union with ints': (Union[P, int], (P(1), P(0), 0, 1, 2)),
    'union of tuples': (Union[Tuple[int, int], str], ((1, 2), '1', (2, 1))),
}
KEPT = ('object', 'nested object', 'tuple', 'tuple of objects', 'named tuple', 'frozenset', 'complex', 'union')


def text(g):
    """Whether the dump goes through JSON text."""
    if 'text' not in g.__dict__:
        g.text = g.flag('text')
    return g.text


def through(g, js):
    return json.loads(json.dumps(js)) if text(g) else js


def value(g, name):
    """Any int, but a given one if the dump goes through JSON text."""
    return len(name) + ord(name[-1]) if text(g) else g.int(name)


def expect(g, r, want, msg):
    """r has exactly the wanted entries: keys by value and type."""
    g.check(isinstance(r, dict), msg + ': no dict', r)
    g.check(len(r) == len(want), msg + ': number of entries', r, want)
    for key in want:
        g.check(key in r, msg + ': a key is missing', r, key)
        g.same(r[key], want[key], msg + ': a value')
        g.check([k for k in r if k == key][0].__class__ is key.__class__, msg + ': the type of a key', r, key)


@harness('every subset of three to five keys of each of %d types of keys in two orders (many with equal hashes, or equal to '
         'hashes), any int or null as values; strip_nulls, strict, transformers for keys kept as objects; directly and through '
         'JSON text' % len(KEYS), params=tuple(KEYS), timeout=(240, 1500))
def entries(g):
    t, pool = KEYS[g.param]
    keys = [k for n, k in enumerate(pool) if g.flag('key %d' % n)]
    if g.flag('reverse'):
        keys.reverse()
    null = g.choice('null', (None,) + tuple(keys)[:g.b(1, 9)]) if keys else None
    values = [value(g, 'v%d' % n) for n in range(len(keys))]
    d = dict([(k, None if k is null else v) for k, v in zip(keys, values)])
    options = ('none', 'strip', 'strict') + (('transformer',) if g.param in KEPT else ())
    opt = g.choice('options', options)
    kw, lkw = {'none': ({}, {}), 'strip': ({'strip_nulls': True}, {}), 'strict': ({'strict': True}, {'strict': True}),
               'transformer': ({'key_transformer': CAMEL}, {'key_transformer': SNAKE})}[opt]
    js = g.ok('dump', jsons.dump, d, **kw)
    if opt == 'strip':
        d = dict([(k, v) for k, v in d.items() if v is not None])
    g.check(len([k for k in js if k != '-keys']) == len(d), 'the dump has another number of entries', js)
    g.check(len(js.get('-keys', {})) <= len(d), 'the dump keeps keys without an entry', js)
    for k in js.get('-keys', {}):
        g.check(k in js, 'the dump keeps a key without its entry', js)
    expect(g, g.ok('load', jsons.load, through(g, js), Dict[t, Optional[int]], **lkw), d, 'load')


@harness('two or three objects as keys with ints from -2 to 2 that have few hashes, next to the keys 0 and 1 as ints or text; '
         'any values')
def hashes(g):
    ns = [g.int('n%d' % k, -2, 2) for k in range(2 if g.tier == 'quick' else 3)]
    other = g.choice('other', ((), (0,), (1, 0), ('0', '1'), ('1',), (1, '0')))
    keys = [P(n) for n in ns] + list(other)
    if g.flag('others first'):
        keys = list(other) + keys[:len(ns)]
    d = {}
    for k, key in enumerate(keys):
        d[key] = value(g, 'v%d' % k)
    js = g.ok('dump', jsons.dump, d)
    g.check(len([k for k in js if k != '-keys']) == len(d), 'the dump has another number of entries', js)
    t = Union[P, str] if [k for k in other if k.__class__ is str] else Union[P, int]
    if [k for k in other if k.__class__ is str] and [k for k in other if k.__class__ is int]:
        want = dict([(str(k) if k.__class__ is int else k, v) for k, v in d.items()])
    else:
        want = d
    expect(g, g.ok('load', jsons.load, through(g, js), Dict[t, int]), want, 'load')


SAME = {
    'date': (date(2020, 1, 2), '2020-01-02'),
    'timedelta': (timedelta(seconds=5), 5),
    'timedelta and float': (5.0, timedelta(seconds=5)),
    'uuid': ('00000000-0000-0000-0000-000000000003', UUID(int=3)),
    'enums': (Colour.RED, Mood.RED, 'RED'),
    'path': (PurePosixPath('a'), 'a'),
    'bytes': (b'ab', 'YWI='),
    'decimal': (Decimal('1.5'), '1.5', 1.5),
    'int enum': (Num.ONE, 'ONE', 1.5),
}


@harness('keys whose dumps are equal to other keys, any values: no entry is lost', params=tuple(SAME))
def same_dump(g):
    keys = list(SAME[g.param])
    if g.flag('reverse'):
        keys.reverse()
    vals = [value(g, 'v%d' % k) for k in range(len(keys))]
    d = dict(zip(keys, vals))
    js = g.ok('dump', jsons.dump, d)
    left = [v for k, v in js.items() if k != '-keys']
    g.check(len(left) == len(d), 'an entry is lost', js)
    for v in d.values():
        g.check(len([1 for w in left if w is v or w == v]) > 0, 'a value is lost', js)


class Holder:
    def __init__(self, table: Dict[P, int], more: Optional[Dict[Tuple[int, int], List[Dict[date, int]]]] = None):
        self.table, self.more = table, more


@harness('dicts with such keys as attributes, list elements, values of dicts, of tuples and of each other; any values; '
         'directly and through text; with and without strict')
def places(g):
    n, m = value(g, 'n'), value(g, 'm')
    inner = {P(1): n, P(2): m}
    where = g.choice('where', ('attr', 'deep attr', 'list', 'dict', 'tuple', 'value', 'optional', 'union'))
    x, t = {
        'attr': lambda: (Holder(inner), Holder),
        'deep attr': lambda: (Holder({}, {(1, 2): [{date(2020, 1, 2): n}, {}], (2, 1): []}), Holder),
        'list': lambda: ([inner, {P(1): 3}], List[Dict[P, int]]),
        'dict': lambda: ({'a': inner, 'b': {P(0): 1}}, Dict[str, Dict[P, int]]),
        'tuple': lambda: ((inner, 5), Tuple[Dict[P, int], int]),
        'value': lambda: ({(1, 2): inner, (2, 3): {}}, Dict[Tuple[int, int], Dict[P, int]]),
        'optional': lambda: (inner, Optional[Dict[P, int]]),
        'union': lambda: (inner, Union[int, Dict[P, int]]),
    }[where]()
    kw = {'strict': True} if g.flag('strict') else {}
    js = g.ok('dump', jsons.dump, x, **kw)
    r = g.ok('load', jsons.load, through(g, js), t, **kw)
    g.same(r, x, 'load')
    if where in ('attr', 'list', 'dict', 'tuple', 'optional', 'union'):
        d = {'attr': lambda: r.table, 'list': lambda: r[0], 'dict': lambda: r['a'], 'tuple': lambda: r[0]}.get(
            where, lambda: r)()
        expect(g, d, inner, 'inner')


TYPES = {'dict': Dict[P, int], 'mapping': Mapping[P, int], 'defaultdict': DefaultDict[P, int], 'builtin': dict[P, int],
         'builtin mapping': defaultdict[P, int]}


@harness('defaultdicts, OrderedDicts and dicts loaded as the different dict types; any values', params=tuple(TYPES))
def dict_types(g):
    source = g.choice('source', (dict, OrderedDict, lambda d: defaultdict(int, d)))
    d = {P(1): value(g, 'n'), P(2): value(g, 'm'), P(0): 4}
    js = g.ok('dump', jsons.dump, source(d))
    r = g.ok('load', jsons.load, through(g, js), TYPES[g.param])
    expect(g, r, d, 'load')
    if 'default' in g.param:
        g.check(isinstance(r, defaultdict), 'no defaultdict', r)


@harness('one to three hashed keys of objects or tuples; any values; no type, or dict types without key and value types; strict or not')
def untyped(g):
    keys = g.subset('keys', (P(1), (1, 2), P(2)))
    d = dict([(k, value(g, 'v%d' % n)) for n, k in enumerate(keys)])
    if not d:
        return
    if g.flag('with text'):
        d['x'] = 1
    js = through(g, g.ok('dump', jsons.dump, d))
    # Without strict mode, loading a dict as a dict gives it as it is.
    cls = g.choice('cls', (None, Dict, Mapping, dict))
    out = g.run(jsons.load, js, cls, strict=cls is dict or g.flag('strict'))
    g.check(not out.ok, 'loads hashed keys without their type', out.value)
    g.check(isinstance(out.exc, jsons.JsonsError), 'not a jsons error', out.exc)


@harness('one to three keys of which each may be of a wrong kind; any values')
def wrong_keys(g):
    """Wrong keys make the load fail with a jsons error; they are not dropped."""
    js, want, bad, stored = {}, {}, False, {}
    for k in range(g.len('len', 3, 1)):
        kind = g.choice('kind %d' % k, ('ok', 'missing', 'no object'))
        stored[str(k)] = {'ok': {'my_n': k}, 'missing': {'opt': k}, 'no object': 'x'}[kind]
        bad = bad or kind != 'ok'
        js[str(k)] = want[P(k)] = value(g, 'v%d' % k)
    js['-keys'] = stored
    out = g.run(jsons.load, js, Dict[P, int])
    if bad:
        g.check(not out.ok, 'a wrong key is loaded', out.value)
        g.check(isinstance(out.exc, jsons.JsonsError), 'not a jsons error', out.exc)
    else:
        g.check(out.ok, 'fails', out.exc)
        expect(g, out.value, want, 'load')
    g.same(sorted(js['-keys']), sorted(stored), 'the source is changed')
