"""C04: loading yields a value of the requested type or a jsons error."""
import collections
import enum
from collections import deque
from datetime import date, datetime, time, timedelta, timezone
from decimal import Decimal
from pathlib import Path, PurePath
from typing import Any, DefaultDict, Deque, Dict, FrozenSet, Iterable, List, Mapping, Optional, Sequence, Set, Tuple, Union, get_args
from uuid import UUID
from zoneinfo import ZoneInfo

import jsons
from checks.jsonval import KINDS, TEXTS, fits, scalar, value
from checks.shapes import (AT, ATPriv, ATSlots, DC, NT, Annotated, DCChild, DCFrozen, DCNest, Derived, Holder, Inherits, KwOnly, Loose, Node, NTLoose,
                           NTNest, Plain, PlainDef, Slotted, SlottedChild, Tree, Uid, WithNewType)
from engine.api import harness


class Colour(enum.Enum):
    A = 1
    B = 'x'
    C = None


class Num(enum.IntEnum):
    ONE = 1
    FIVE = 5


SCALARS = [int, float, bool, str, type(None), datetime, date, time, timedelta, timezone, Decimal, UUID, Path, PurePath, complex, Colour, Num,
           ZoneInfo, Uid, Any, object]


def decide(g, x, cls, **kw):
    out = g.run(jsons.load, x, cls, **kw)
    if out.ok:
        g.check(fits(out.value, cls), 'value of another type', out.value, cls, x)
    else:
        g.check(isinstance(out.exc, jsons.JsonsError), 'error that is no jsons error', type(out.exc), out.exc, x)
    return out


def admits_none(cls):
    return fits(None, cls)


# Types that take the text of an int, or that look an int up: they get bounded ints.
def ints(cls, depth=0):
    if cls in (Colour, Num):
        return dict(lo=-1, hi=5)
    if cls is str:
        return dict(lo=-99, hi=9999)
    if cls is float:
        return dict(lo=-10, hi=10, chars=[(48, 49), (45, 46)])
    if cls is Decimal:
        return dict(lo=-9, hi=99)
    for a in get_args(cls):
        r = ints(a)
        if r:
            return r
    return {}


def bounds(cls):
    r = ints(cls)
    if 'lo' in r and r['hi'] == 5:
        r['chars'] = [(64, 66)]
    return r


@harness('any JSON value (ints, strings of any character, %d texts, lists and dicts of up to 2 values) into %d scalar types' % (
    len(TEXTS), len(SCALARS)), params=list(range(len(SCALARS))), outside='the text of ints beyond 9999, enums with ints beyond -1..5')
def scalars(g):
    cls = SCALARS[g.param]
    kind = g.choice('x', ('scalar', 'list', 'dict'))
    if kind == 'scalar':
        x = scalar(g, 'x', **bounds(cls))
    elif kind == 'list':
        x = [scalar(g, 'x[%d]' % k, ('none', 'int', 'text'), ('x', '5'), lo=-1, hi=5) for k in range(g.len('x.len', 2))]
    else:
        keys = g.choice('keys', ((), ('key',), ('offset', 'name'), ('name',), ('real', 'imag'), ('imag',), ('a',)))
        x = {k: scalar(g, 'x.' + k, ('none', 'int', 'bool', 'text'), ('x', '1.5', 'UTC'), lo=-1, hi=g.b(1, 5)) for k in keys}
    out = decide(g, x, cls, strict=g.flag('strict'))
    if x is None:
        g.check(out.ok == admits_none(cls), 'None accepted exactly where the type admits it', cls, out.value, out.exc)
        if out.ok:
            g.check(out.value is None, 'None', out.value)


@harness('a symbolic string of up to 3 characters (4 in thorough; of [@-B] for enums, of [- ./012e] for float, of [+-:a-f] for other parsed types) into %d scalar types' % len(SCALARS), params=list(range(len(SCALARS))))
def strings(g):
    cls = SCALARS[g.param]
    if cls in (Colour, Num):
        x = g.str('x', 3, chars=[(64, 66)])
    elif cls is float:
        x = g.str('x', 2, chars=[(45, 50), (101, 101), (32, 32)])
    elif cls in (str, datetime, Any, object, bool, type(None), timezone, complex):
        x = g.str('x', g.b(3, 4))
    else:
        x = g.str('x', g.b(2, 4), chars=[(43, 58), (97, 102)])
    decide(g, x, cls, strict=g.flag('strict'))


SEQS = [list, tuple, set, frozenset, deque, List[int], List[str], List[bool], List[Optional[int]], List[datetime], List[List[int]], List[Colour],
        List[Dict[str, int]], Tuple[int, str], Tuple[int, ...], Tuple[()], Tuple[Optional[bool], int], Set[int], FrozenSet[str], Deque[float],
        Sequence[int], Iterable[bool], List[Any], List[object], List[Union[int, datetime]], list[int], tuple[int, str], List[None],
        List[Tuple[int, ...]], Tuple[List[int], Decimal], List[Uid], Set[Tuple[int, int]], List[Decimal], Deque[Colour]]
ELEMS = (('none', 'int', 'bool', 'text'), ('', '5', 'x', '2020-01-01T00:00:00Z', 'A'))


@harness('lists and dicts of up to 2 values (3 in thorough), any scalar, into %d sequence types' % len(SEQS), params=list(range(len(SEQS))))
def sequences(g):
    cls = SEQS[g.param]
    hashed = 'et[' in repr(cls) or cls in (set, frozenset)

    def elem(n):
        if hashed:
            return g.choice(n, (None, 0, -3, True, 1.5, '', '5', 'x', [], [1, 2], ['a'], {}))
        kind = g.choice(n + '.in', ('scalar', 'list', 'dict'))
        if kind == 'scalar':
            return scalar(g, n, *ELEMS, **bounds(cls))
        if kind == 'list':
            return g.choice(n + '.l', ([], [1], [1, 2], ['a', None], [[1]]))
        return g.choice(n + '.d', ({}, {'a': 1}, {'1': None}))
    kind = g.choice('outer', ('list', 'dict', 'scalar'))
    if kind == 'list':
        x = [elem('x[%d]' % k) for k in range(g.len('x.len', g.b(2, 3)))]
    elif kind == 'dict':
        x = {k: 1 for k in g.subset('x.keys', ('a', '1', ''))}
    else:
        x = scalar(g, 'x', **bounds(cls))
    decide(g, x, cls, strict=g.flag('strict'))


MAPS = [dict, Dict[str, int], Dict[int, str], Dict[str, Optional[bool]], Dict[str, List[int]], Dict[bool, float], Dict[Colour, int],
        Mapping[str, int], DefaultDict[str, int], collections.OrderedDict, Dict[str, Dict[str, int]], Dict[datetime, int], Dict[str, Any],
        Dict[Tuple[int, int], int], dict[str, int], Dict[Optional[str], int], Dict[str, Plain], Dict[UUID, bool], Mapping[str, datetime]]


@harness('dicts of up to 3 of 6 keys and values of any kind into %d mapping types' % len(MAPS), params=list(range(len(MAPS))))
def mappings(g):
    cls = MAPS[g.param]
    kind = g.choice('outer', ('dict', 'list', 'scalar'))
    if kind == 'dict':
        keys = g.choice('keys', ((), ('a',), ('1', '2'), ('A', 'ONE'), ('2020-01-01T00:00:00Z',), ('', 'b'), (1, None), ('-keys',), ('-meta',), ('-cls', 'a')))
        x = {}
        for i, k in enumerate(keys):
            if i:
                x[k] = g.choice('x%d' % i, (1, None, 'x', [1], {'a': True}))
            else:
                x[k] = value(g, 'x0', lambda n: scalar(g, n, ('none', 'int', 'text'), ('x', '5'), **bounds(cls)), keys=('a',), width=1,
                             kinds=ELEMS[0], texts=ELEMS[1], **bounds(cls))
    elif kind == 'list':
        x = g.choice('l', ([], [1], [['a', 1]], [[1, 2], [3, 4]], ['ab']))
    else:
        x = scalar(g, 'x', **bounds(cls))
    decide(g, x, cls, strict=g.flag('strict'))


CLASSES = [Plain, PlainDef, KwOnly, Derived, Inherits, Holder, Slotted, SlottedChild, Annotated, Loose, Node, Tree, DC, DCChild, DCFrozen,
           DCNest, AT, ATPriv, ATSlots, NT, NTNest, NTLoose, WithNewType]
P, D = {'a': 1, 'b': 'z'}, {'x': 1, 'y': 's'}
VALID = {'Holder': dict(p=P, q=[P], r=None), 'Node': dict(v=1, nxt={'v': 2}), 'Tree': dict(v=True, kids=[]), 'DC': dict(x=1, y='', z=None, w=[1]),
         'DCFrozen': dict(x=1, t=[1, True]), 'DCNest': dict(d=D, m={'k': {'x': 1, 't': [1, True]}}, o=None), 'DCChild': dict(x=1, y='', v=True),
         'Annotated': dict(a=1, x=2, y=[1], p=P), 'ATSlots': dict(a=1, p=P), 'NT': dict(a=1, b=None, c=2), 'NTNest': dict(n={'a': 1, 'b': 'x'}, ps=[P]),
         'WithNewType': dict(uid=1), 'SlottedChild': dict(a=1, b=True, c=2), 'Slotted': dict(a=1, b=True), 'Inherits': dict(a=1),
         'PlainDef': dict(a=1, b='', c=None, d=False), 'Derived': dict(a=1, b=True), 'Loose': dict(a=1, b=[1]), 'ATPriv': dict(a=1, b=2)}


def member(g, n):
    kind = g.choice(n + '.in', ('int', 'none', 'text', 'list', 'dict', 'bool'))
    if kind == 'int':
        return g.int(n + '.i', -99, 9999)
    if kind == 'none':
        return None
    if kind == 'bool':
        return g.bool(n + '.v')
    if kind == 'text':
        return g.choice(n + '.t', ('x', '5', ''))
    if kind == 'list':
        return g.choice(n + '.l', ([], [1], [1, True], [P], [None], [[{'v': 1, 'kids': []}]], [1, 'x', None]))
    return g.choice(n + '.d', ({}, P, {'v': 3}, {'x': 1}, {'a': None}, {'x': '1', 't': [1, 1]}, {'k': D}, {'a': [], 'b': 1}))


@harness('objects with any subset of their keys, or with one member (two in thorough) of any kind, and other values, into %d classes' % len(CLASSES),
         params=list(range(len(CLASSES))))
def objects(g):
    cls = CLASSES[g.param]
    valid = VALID.get(cls.__name__, P)
    kind = g.choice('outer', ('missing', 'member', 'list', 'scalar'))
    if kind == 'missing':
        x = {k: valid[k] for k in g.subset('keys', valid)}
        for k in g.choice('extra', ((), ('zz',), ('_a', ''))):
            x[k] = g.choice('value ' + k, (None, 1, '2020-01-01T00:00:00Z'))
    elif kind == 'member':
        x = dict(valid)
        for i in range(g.b(1, 2)):
            k = g.choice('wild%d' % i, tuple(valid))
            x[k] = member(g, 'x%d' % i)
    elif kind == 'list':
        x = [member(g, 'x')] * g.len('x.len', 2) + g.choice('rest', ([], [1, P]))
    else:
        x = scalar(g, 'x', lo=-99, hi=9999)
    decide(g, x, cls, strict=g.flag('strict'))


UNIONS = [Optional[int], Optional[str], Union[int, str], Union[str, int, None], Union[datetime, int], Union[bool, List[int]], Optional[Plain],
          Union[Plain, DC, None], Union[None, datetime], Union[List[int], Dict[str, int]], Optional[List[Optional[int]]], Union[Colour, int],
          Union[Tuple[int, int], Tuple[int]], Optional[Any]]


@harness('any JSON value into %d unions' % len(UNIONS), params=list(range(len(UNIONS))))
def unions(g):
    cls = UNIONS[g.param]
    x = value(g, 'x', lambda n: scalar(g, n, ('none', 'int', 'text'), ('x', '5'), **bounds(cls)), keys=('a', 'b', 'x')[:g.b(2, 3)],
              **bounds(cls))
    out = decide(g, x, cls, strict=g.flag('strict'))
    if x is None:
        g.check(out.ok == admits_none(cls), 'None accepted exactly where the union admits it', cls, out.value, out.exc)


ANY_TYPES = SCALARS + SEQS + MAPS + CLASSES + UNIONS


@harness('None into each of %d types, on its own, as element, value and attribute' % len(ANY_TYPES), params=list(range(0, len(ANY_TYPES), 8)))
def nulls(g):
    cls = g.choice('cls', ANY_TYPES[g.param:g.param + 8])
    where = g.choice('where', ('top', 'list', 'dict', 'attribute', 'tuple', 'class field'))
    strict = g.flag('strict')
    if where == 'top':
        out = g.run(jsons.load, None, cls, strict=strict)
    elif where == 'list':
        out = g.run(jsons.load, [None], List[cls], strict=strict)
    elif where == 'dict':
        out = g.run(jsons.load, {'k': None}, Dict[str, cls], strict=strict)
    elif where == 'tuple':
        out = g.run(jsons.load, [1, None], Tuple[int, cls], strict=strict)
    elif where == 'attribute':
        class Own:
            def __init__(self, k: cls):
                self.k = k
        out = g.run(jsons.load, {'k': None}, Own, strict=strict)
    else:
        class Own:
            k: cls
        if strict:
            return
        out = g.run(jsons.load, {'k': None}, Own)
    g.check(out.ok == admits_none(cls), 'None accepted exactly where the type admits it', cls, where, out.value, out.exc)
    if not out.ok:
        g.check(isinstance(out.exc, jsons.JsonsError), 'error that is no jsons error', out.exc)


METAS = (None, 1, 'x', [], {}, {'classes': None}, {'classes': 1}, {'classes': []}, {'classes': {}}, {'classes': {'/': None}}, {'classes': {'/': 5}},
         {'classes': {'/': 'no.such.Class'}}, {'classes': {'/': 'print'}}, {'classes': {'/': ''}}, {'classes': {'/': '.'}}, {'classes': {'/': 'List['}},
         {'classes': {'/': '[]'}}, {'classes': {'/': 'typing.List[nope]'}}, {'classes': {'/': 'os.path'}}, {'classes': {'/a': 'no.such'}},
         {'classes': {'/a': 'builtins.str', '/': 'builtins.dict'}}, {'classes': {'/': '..a'}}, {'classes': {'/': 'a..b'}}, {'classes': {'/a': None, '/b': 1}},
         {'dump_time': 5}, {'classes': {'/': 'typing.Any'}}, {'classes': {'/': 'typing.Union[int, str]'}}, {'classes': {'/': 'datetime.datetime'}},
         {'classes': {'/': '\0'}}, {'classes': {'/': 'builtins.Ellipsis'}}, {'classes': {'/': 'jsons.__all__'}})


@harness('%d kinds of (broken) meta information with and without a class, at the top and inside' % len(METAS), params=[0, 1, 2, 3])
def metas(g):
    meta = g.choice('meta', METAS[g.param::4])
    x = {'a': g.choice('a', (1, None, {'a': 1})), 'b': 'x', '-meta': meta}
    where = g.choice('where', ('top', 'list', 'dict', 'attribute'))
    if where == 'list':
        x = [x]
    elif where == 'dict':
        x = {'k': x}
    elif where == 'attribute':
        x = {'v': 1, 'nxt': x}
    cls = g.choice('cls', {'top': (None, Plain, dict, Dict[str, Any], Loose), 'list': (None, list, List[Plain], List[dict]),
                           'dict': (None, dict, Dict[str, Plain], Dict[str, dict]), 'attribute': (None, Node, Loose, dict)}[where])
    out = g.run(jsons.load, x, cls, strict=g.flag('strict'))
    if not out.ok:
        g.check(isinstance(out.exc, jsons.JsonsError), 'error that is no jsons error', type(out.exc), out.exc, x)
    elif cls is not None:
        g.check(isinstance(out.value, {'top': cls if isinstance(cls, type) else dict, 'list': list, 'dict': dict,
                                       'attribute': cls}[where]), 'value of another type', out.value)


KEYSETS = (None, 1, 'ab', [], ['x'], {}, {'1': 1}, {'1': [1, 2], '2': [1, 2]}, {'9': 1}, {'1': None}, {'a': {}})


@harness('%d kinds of (broken) hashed keys into %d mapping types' % (len(KEYSETS), len(MAPS)), params=list(range(len(MAPS))))
def hashed(g):
    x = {'-keys': g.choice('keys', KEYSETS)}
    for k in ('1', '2'):
        if g.flag('has ' + k):
            x[k] = g.choice('v' + k, (1, None, 'x', {'a': 1, 'b': 2}))
    decide(g, x, MAPS[g.param], strict=g.flag('strict'))
