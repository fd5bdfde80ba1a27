"""C10: registered serializers and deserializers take effect at once and everywhere."""
import typing
from collections import deque
from collections.abc import Mapping
from dataclasses import dataclass
from datetime import date, datetime, time, timedelta, timezone
from decimal import Decimal
from enum import Enum, IntEnum
from pathlib import PurePath
from typing import Any, Deque, Dict, List, NamedTuple, Optional, Tuple, Union
from uuid import UUID
from zoneinfo import ZoneInfo

import jsons
from engine.api import harness


class A:
    def __init__(self, n: int):
        self.n = n


class B(A):
    pass


class Un:
    """Untyped."""

    def __init__(self, n):
        self.n = n


class X:
    """A mixin."""


class C(B, X):
    pass


class D(X):
    def __init__(self, n: int):
        self.n = n


class Pair(NamedTuple):
    f: A
    s: int


class Box:
    def __init__(self, a: A, li: List[B], di: Dict[str, C], op: Optional[D], tu: Tuple[B, ...], de: Deque[D], nt: Pair, n: int):
        self.a, self.li, self.di, self.op, self.tu, self.de, self.nt, self.n = a, li, di, op, tu, de, nt, n


class Bag:
    """As Box, without any types."""

    def __init__(self, a, li, di, op, tu, de, nt, n):
        self.a, self.li, self.di, self.op, self.tu, self.de, self.nt, self.n = a, li, di, op, tu, de, nt, n


@dataclass
class Strict:
    a: A
    li: List[B]
    n: int


MINE = (A, B, C, D, X)
NoneType = type(None)


# The types that can be dumped and loaded from the start, in order of priority.
FIRST = (ZoneInfo, PurePath, Optional, Union, Decimal, UUID, List, list, IntEnum, Enum, bool, float, int, str, timedelta, timezone, time,
         date, datetime, complex, Tuple, tuple)
DUMPED = FIRST + (Mapping, typing.Iterable, object)
LOADED = FIRST + (NoneType, typing.DefaultDict, Mapping, dict, Dict, typing.Iterable, object)


class Model:
    """Which function handles which type: a list of types in order of priority and the latest function of each."""

    def __init__(self, order):
        self.order = list(order)
        self.funcs = {}

    def register(self, cls, tag, high):
        if high:
            self.order.insert(0, cls)
        else:
            self.order.append(cls)
        self.funcs[cls] = tag

    def copy(self):
        m = Model(self.order)
        m.funcs = dict(self.funcs)
        return m

    def tag(self, cls):
        """None means the function that was there from the start."""
        if cls in self.funcs or cls in self.order or cls is NoneType:
            return self.funcs.get(cls)
        for c in self.order:
            if isinstance(c, type) and issubclass(cls, c):
                return self.funcs.get(c)
        return None


class Bad(Exception):
    pass


def serializer(tag):
    def serialize(obj, cls=None, **kwargs):
        return {'tag': tag, 'n': getattr(obj, 'n', 0)}
    return serialize


def int_serializer(tag):
    def serialize(obj, cls=None, **kwargs):
        return [tag, obj]
    return serialize


def broken(obj, cls=None, **kwargs):
    raise Bad('broken')


def make(n):
    return Bag(A(n), [B(n), C(n)], {'k': C(n)}, D(n), (B(n), A(n)), deque([D(n)]), Pair(A(n), n), n)


def expected_dump(m, x):
    """What the dump of x must be by the model."""
    cls = x.__class__
    t = m.tag(cls)
    if t == 'broken':
        raise Bad()
    if t is not None:
        if cls is int:
            return [t, x]
        return {'tag': t, 'n': getattr(x, 'n', 0)}
    if cls is int or cls is str or x is None:
        return x
    if cls in (list, deque) or cls is tuple:
        return [expected_dump(m, e) for e in x]
    if cls is dict:
        return {k: expected_dump(m, v) for k, v in x.items()}
    if cls is Pair:
        return {'f': expected_dump(m, x.f), 's': expected_dump(m, x.s)}
    r = {}
    for k, v in vars(x).items():
        try:
            r[k] = expected_dump(m, v)
        except Bad:
            pass  # An attribute that cannot be dumped is left out.
    return r


# -- serializers ------------------------------------------------------------------------------------

REG = [(cls, high) for cls in (A, B, C, D, X, int, object) for high in (True, False)]
PROBES = ('dump', 'dump list', 'get', 'fail', 'strict', 'load')


def probe(g, kind, n):
    """Something that looks functions up, and sometimes fails."""
    if kind == 'dump':
        g.run(jsons.dump, make(n))
    elif kind == 'dump list':
        g.run(jsons.dump, [A(n), B(n), C(n), D(n)], List[A])
    elif kind == 'get':
        for cls in MINE:
            jsons.get_serializer(cls)
            jsons.get_deserializer(cls)
    elif kind == 'fail':
        g.run(jsons.dump, [B(n)], Tuple[int, int], strict=True)
        g.run(jsons.load, {'a': {'n': n}, 'li': [{}]}, Box)
    elif kind == 'strict':
        g.run(jsons.dump, Strict(A(n), [B(n)], n), Strict, strict=True)
    else:
        g.run(jsons.load, {'a': {'n': n}, 'li': [{'n': n}], 'n': n}, Strict)


def check_dumps(g, m, n):
    box = make(n)
    try:
        want = expected_dump(m, box)
    except Bad:
        want = None
    out = g.run(jsons.dump, box)
    if want is None:
        g.check(not out.ok and isinstance(out.exc, jsons.SerializationError), 'dump succeeds with a broken serializer', out.value)
    else:
        g.check(out.ok, 'dump fails', out.exc)
        g.same(out.value, want, 'dump of a nested value')
    for x in (C(n), [D(n), B(n)], (A(n), 'x', None), {'k': {'l': X()}}, n):
        try:
            want = expected_dump(m, x)
        except Bad:
            continue
        g.same(g.ok('dump', jsons.dump, x), want, 'dump at the top level')
    typed = [B(n), C(n), B(n)]
    if m.tag(B) != 'broken':
        g.same(g.ok('typed list', jsons.dump, typed, List[B]), [by_type(m, x, B) for x in typed], 'dump of a list with an element type')
    # In strict mode, declared types decide.
    if m.tag(Strict) is None and 'broken' not in (m.tag(A), m.tag(B), m.tag(int)):
        out = g.ok('strict dump', jsons.dump, Strict(C(n), [C(n)], n), Strict, strict=True)
        g.check(sorted(out) == ['a', 'li', 'n'], 'strict dump', out)
        if m.tag(A) is not None:
            g.same(out['a'], by_type(m, C(n), A), 'strictly dumped attribute')
        if m.tag(B) is not None:
            g.same(out['li'], [by_type(m, C(n), B)], 'strictly dumped elements')


def by_type(m, x, cls):
    t = m.tag(cls)
    return expected_dump(m, x) if t is None and False else ({'tag': t, 'n': x.n} if t is not None else {'n': expected_dump(m, x.n)})


def registration(g, m, name, k, reg):
    cls, high = reg
    tag = 't%d' % k
    func = int_serializer(tag) if cls is int else serializer(tag)
    if cls is not int and g.tier == 'thorough' and g.flag(name + ' broken'):
        func, tag = broken, 'broken'
    jsons.set_serializer(func, cls, high)
    m.register(cls, tag, high)


@harness('every history of 2 registrations (3 in thorough) for 7 types with high or low priority, with one of 6 lookups, dumps, loads or failures before '
         'or between; dumps of every type at every nesting level after each', params=list(range(len(REG))), timeout=(150, 1700))
def serializers(g):
    m = Model(DUMPED)
    n = g.int('n')
    if g.flag('used before'):
        probe(g, 'dump', n)
    registration(g, m, 'first', 0, REG[g.param])
    p = g.choice('probe', ('dump', 'get', 'fail') if g.tier == 'quick' else PROBES)
    probe(g, p, n)
    registration(g, m, 'second', 1, g.choice('second', REG))
    check_dumps(g, m, n)
    if g.tier == 'thorough':
        probe(g, g.choice('probe again', ('fail', 'dump', 'get')), n)
        registration(g, m, 'third', 2, g.choice('third', REG))
        check_dumps(g, m, n)


@harness('a type is registered again after use, for a sequence of types, for the type of None, for a library type and for several types at once')
def kinds(g):
    m = Model(DUMPED)
    n = g.int('n')
    what = g.choice('what', ('again', 'sequence', 'none', 'none type', 'datetime', 'list', 'str', 'bool'))
    if g.flag('used before'):
        probe(g, g.choice('probe', PROBES), n)
    if what == 'again':
        cls = g.choice('cls', MINE)
        for k in range(3):
            jsons.set_serializer(serializer(k), cls, g.flag('high %d' % k))
            x = C(n) if cls is X else cls(n)
            if cls is not X:
                g.same(g.ok('dump', jsons.dump, [x]), [{'tag': k, 'n': n}], 'the latest registration counts')
        return
    if what == 'sequence':
        high = g.flag('high')
        jsons.set_serializer(serializer('s'), (D, A) if g.flag('tuple') else [D, A], high)
        m.register(D, 's', high)
        m.register(A, 's', high)
        check_dumps(g, m, n)
        return
    if what in ('none', 'none type'):
        jsons.set_serializer(lambda obj, **kw: 'nil', None if what == 'none' else NoneType)
        g.check(jsons.dump(None) == 'nil', 'None at the top level')
        g.check(jsons.dump([None, {'k': None}]) == ['nil', {'k': 'nil'}], 'None inside')
        g.check(jsons.dump(Un(None)) == {'n': 'nil'}, 'None as an attribute')
        return
    if what == 'datetime':
        jsons.set_serializer(lambda obj, **kw: obj.year, datetime)
        dt = datetime(2020, 1, 1, tzinfo=timezone.utc)
        g.check(jsons.dump(Un([dt])) == {'n': [2020]}, 'datetime')
        g.check(jsons.dump({'k': dt}) == {'k': 2020}, 'datetime')
        g.check(jsons.dump(date(2020, 1, 1)) == '2020-01-01', 'date is another type')
        return
    if what == 'list':
        jsons.set_serializer(lambda obj, **kw: 'list%d' % len(obj), list)
        g.check(jsons.dump(Un([n, n])) == {'n': 'list2'}, 'list')
        g.check(jsons.dump(([],)) == ['list0'], 'list in a tuple')
        return
    if what == 'str':
        jsons.set_serializer(lambda obj, **kw: 'str', str)
        g.check(jsons.dump(Un(['x', n])) == {'n': ['str', n]}, 'str')
        g.check(jsons.dump({'k': 'v'}) == {'k': 'str'}, 'str in a dict')
        return
    jsons.set_serializer(lambda obj, **kw: 'int', int)
    b = g.bool('b')
    g.same(jsons.dump([b, n, Un(b)]), [b, 'int', {'n': b}], 'a bool has a serializer of its own')


# -- deserializers ----------------------------------------------------------------------------------

def deserializer(tag):
    def deserialize(obj, cls=None, **kwargs):
        r = Loaded()
        r.tag, r.obj, r.cls = tag, obj, cls
        return r
    return deserialize


class Loaded:
    pass


def check_part(g, m, got, cls, n, msg):
    t = m.tag(cls)
    if t == 'broken':
        g.fail('a broken deserializer gives a value: ' + msg, got)
    if t is None:
        g.check(got.__class__ is cls, msg + ': other class', got, cls)
        if m.tag(int) is None:
            g.check(got.n == n, msg + ': value', got.n, n)
        return
    g.check(got.__class__ is Loaded, msg + ': the registered function is not used', got, t)
    g.check(got.tag == t, msg + ': another function is used', got.tag, t)
    g.check(got.cls is cls, msg + ': the function gets another class', got.cls, cls)
    g.same(got.obj, {'n': n}, msg + ': the function gets another value')


def check_loads(g, m, n):
    e = lambda: {'n': n}
    obj = {'a': e(), 'li': [e(), e()], 'di': {'k': e()}, 'op': e(), 'tu': [e()], 'de': [e()], 'nt': [e(), n], 'n': n}
    parts = {A, B, C, D}
    if m.tag(Box) is not None or m.tag(Pair) is not None:
        out = g.ok('load', jsons.load, obj, Box)
        g.check(m.tag(Box) is None or (out.__class__ is Loaded and out.tag == m.tag(Box)), 'load of the outer object', out)
    elif any(m.tag(c) == 'broken' for c in parts):
        out = g.run(jsons.load, obj, Box)
        g.check(not out.ok and isinstance(out.exc, jsons.JsonsError), 'load succeeds with a broken deserializer', out.value)
    else:
        r = g.ok('load', jsons.load, obj, Box)
        check_part(g, m, r.a, A, n, 'attribute')
        for x in r.li:
            check_part(g, m, x, B, n, 'list element')
        check_part(g, m, r.di['k'], C, n, 'dict value')
        check_part(g, m, r.op, D, n, 'optional attribute')
        check_part(g, m, r.tu[0], B, n, 'tuple element')
        check_part(g, m, r.de[0], D, n, 'deque element')
        check_part(g, m, r.nt.f, A, n, 'field of a named tuple')
        g.check(r.n == n, 'number', r.n)
    for cls in (A, B, C, D):
        if m.tag(cls) != 'broken':
            check_part(g, m, g.ok('load', jsons.load, e(), cls), cls, n, 'top level')
    if m.tag(C) != 'broken':
        check_part(g, m, g.ok('load', jsons.load, {'k': [[e()]]}, Dict[str, List[List[C]]])['k'][0][0], C, n, 'deep inside')
        check_part(g, m, g.ok('load', jsons.load, e(), Union[int, C]) if m.tag(int) is None else
                   g.ok('load', jsons.load, e(), Union[C, int]), C, n, 'union')


LOAD_REG = [(cls, high) for cls in (A, B, C, D, X, object) for high in (True, False)]


@harness('every history of 2 registrations (3 in thorough) for 6 types with high or low priority, with one of 6 lookups, dumps, loads or failures '
         'before or between; loads into every type at every nesting level', params=list(range(len(LOAD_REG))), timeout=(150, 1700))
def deserializers(g):
    m = Model(LOADED)
    n = g.int('n')
    if g.flag('used before'):
        probe(g, 'load', n)

    def register(k, reg):
        cls, high = reg
        func, tag = deserializer('t%d' % k), 't%d' % k
        if cls is not object and g.flag('broken %d' % k):
            func, tag = broken, 'broken'
        jsons.set_deserializer(func, cls, high)
        m.register(cls, tag, high)
    register(0, LOAD_REG[g.param])
    probe(g, g.choice('probe', ('load', 'fail') if g.tier == 'quick' else PROBES), n)
    register(1, g.choice('second', LOAD_REG))
    check_loads(g, m, n)
    if g.tier == 'thorough':
        probe(g, g.choice('probe again', ('fail', 'load', 'get')), n)
        register(2, g.choice('third', LOAD_REG))
        check_loads(g, m, n)


@harness('deserializers of library types, strict or not, with and without a type given')
def load_kinds(g):
    n = g.int('n')
    what = g.choice('what', ('int', 'str', 'datetime', 'none', 'list', 'dict', 'sequence'))
    strict = g.flag('strict')
    if g.flag('used before'):
        probe(g, g.choice('probe', PROBES), n)
    if what == 'int':
        jsons.set_deserializer(lambda obj, cls=None, **kw: ['int', obj], int)
        if strict:
            # A value that already has the type is returned as it is otherwise.
            g.same(jsons.load(n, int, strict=True), ['int', n], 'int')
            g.same(jsons.load([n], List[int], strict=True), [['int', n]], 'int')
        g.same(jsons.load('5', int, strict=strict), ['int', '5'], 'str as int')
        g.same(jsons.load({'n': '5'}, A, strict=strict).n, ['int', '5'], 'int attribute')
    elif what == 'str':
        jsons.set_deserializer(lambda obj, cls=None, **kw: 'S', str)
        g.check(jsons.load(n, str, strict=strict) == 'S', 'int as str')
        g.same(jsons.load([5], List[str], strict=strict), ['S'], 'element')
        g.same(jsons.load(['x', 'y']), ['S', 'S'], 'untyped') if strict else None
    elif what == 'datetime':
        jsons.set_deserializer(lambda obj, cls=None, **kw: ('D', obj), datetime)
        g.same(jsons.load('x', datetime, strict=strict), ('D', 'x'), 'datetime')
        g.same(jsons.load({'k': ['x']}, Dict[str, List[datetime]], strict=strict), {'k': [('D', 'x')]}, 'datetime')
        g.same(jsons.load('2020-01-01', date, strict=strict), date(2020, 1, 1), 'date is another type')
    elif what == 'none':
        jsons.set_deserializer(lambda obj, cls=None, **kw: 'nil', None)
        g.same(jsons.load([None], strict=True), ['nil'], 'None')
    elif what == 'list':
        jsons.set_deserializer(lambda obj, cls=None, **kw: ('L', obj), list)
        g.same(jsons.load((n,), list, strict=strict), ('L', (n,)), 'list')
        g.same(jsons.load({'k': (n,)}, Dict[str, list], strict=strict), {'k': ('L', (n,))}, 'list')
        jsons.set_deserializer(lambda obj, cls=None, **kw: ('L2', cls, obj), List)
        g.same(jsons.load([n], List[int], strict=strict), ('L2', List[int], [n]), 'list')
    elif what == 'dict':
        jsons.set_deserializer(lambda obj, cls=None, **kw: ('M', obj), dict)
        g.same(jsons.load({'k': n}, dict, strict=True), ('M', {'k': n}), 'dict')
        g.same(jsons.load([[{'k': n}]], List[List[dict]], strict=True), [[('M', {'k': n})]], 'dict')
        jsons.set_deserializer(lambda obj, cls=None, **kw: ('M2', obj), Dict)
        g.same(jsons.load({'k': n}, Dict[str, int], strict=strict), ('M2', {'k': n}), 'dict')
    else:
        high = g.flag('high')
        jsons.set_deserializer(deserializer('s'), (B, D), high)
        for cls in (B, D):
            r = jsons.load({'n': n}, cls, strict=strict)
            g.check(r.__class__ is Loaded, 'sequence of types', r)
        # A is no subclass of B, C is.
        g.check(jsons.load({'n': n}, A, strict=strict).__class__ is A, 'sequence of types')
        g.check(jsons.load({'n': n}, C, strict=strict).__class__ is (Loaded if high else C), 'sequence of types')


# -- classes with the same name ------------------------------------------------------------------------

class One:
    class Meta:
        def __init__(self, n: int):
            self.n = n


class Two:
    class Meta:
        def __init__(self, n: int):
            self.n = n


class CASE:
    def __init__(self, n: int):
        self.n = n


class Case:
    def __init__(self, n: int):
        self.n = n


@harness('two classes with the same name, or names that differ in case only; any order of registration and use')
def names(g):
    pair = g.choice('pair', ((One.Meta, Two.Meta), (CASE, Case)))
    first, second = pair if g.flag('order') else pair[::-1]
    n = g.int('n')
    if g.flag('used'):
        jsons.dump([second(n), first(n)])
        jsons.load({'n': n}, second)
    jsons.set_serializer(serializer('f'), first)
    jsons.set_deserializer(deserializer('f'), first)
    both = g.flag('both')
    if both:
        jsons.set_serializer(serializer('s'), second, g.flag('high'))
        jsons.set_deserializer(deserializer('s'), second)
    want2 = {'tag': 's', 'n': n} if both else {'n': n}
    g.same(jsons.dump([first(n), second(n), first(n)]), [{'tag': 'f', 'n': n}, want2, {'tag': 'f', 'n': n}], 'dump')
    r1, r2 = jsons.load({'n': n}, first), jsons.load({'n': n}, second)
    g.check(r1.__class__ is Loaded and r1.tag == 'f', 'load', r1)
    g.check(r2.__class__ is (Loaded if both else second), 'load', r2)


# -- registrations made by functions that are running ------------------------------------------------------

@harness('a serializer or deserializer registers another one while it runs, for its own or for another type')
def running(g):
    n = g.int('n')
    target = g.choice('target', (A, D, B))
    k = g.len('k', 2)

    def ser(obj, cls=None, **kw):
        jsons.set_serializer(serializer('late'), target)
        return {'early': obj.n}

    def des(obj, cls=None, **kw):
        jsons.set_deserializer(deserializer('late'), target)
        return 'early'
    if g.flag('load'):
        jsons.set_deserializer(des, A)
        r = g.ok('load', jsons.load, {'a': {'n': n}, 'b': {'n': n}, 'd': {'n': n}}, Later)
        g.check(r.a == 'early', 'first')
        late = r.d if target is D else r.b
        if target is not A:
            g.check(late.__class__ is Loaded, 'a deserializer registered during a load', late)
        r = jsons.load({'n': n}, target)
        g.check(r.__class__ is Loaded, 'a deserializer registered during a load', r)
        return
    jsons.set_serializer(ser, A)
    r = g.ok('dump', jsons.dump, (A(n), [B(n), D(n)]) if k == 0 else ([A(n)], [B(n), D(n)]) if k == 1 else ((A(n),), [B(n), D(n)]))
    g.same(r[0] if k == 0 else r[0][0], {'early': n}, 'first')
    late = {'tag': 'late', 'n': n}
    if target is not A:
        g.same(r[1][1] if target is D else r[1][0], late, 'a serializer registered during a dump')
    g.same(jsons.dump(target(n)), late, 'a serializer registered during a dump')


class Later:
    def __init__(self, a: A, b: B, d: D):
        self.a, self.b, self.d = a, b, d
