"""C12: no load returns a value that its registered validator rejects."""
from collections import OrderedDict, deque
from dataclasses import dataclass
from datetime import date, datetime, timezone
from decimal import Decimal
from enum import Enum
from typing import (DefaultDict, Deque, Dict, FrozenSet, Iterable, List, Mapping, NamedTuple, NewType, Optional,
                    Sequence, Set, Tuple, Union)
from uuid import UUID

import jsons
from jsons.decorators import loaded
from engine.api import harness

Num = NewType('Num', int)


class P:
    def __init__(self, n: int):
        self.n = n

    def __eq__(self, other):
        return self.__class__ is other.__class__ and (self.n == other.n)

    def __hash__(self):
        return 1


class Q(P):
    pass


class R(Q):
    pass


class Named(NamedTuple):
    f: P
    g: Optional[P] = None


class IntNamed(NamedTuple):
    f: int
    g: int


@dataclass
class Data:
    a: P
    o: Optional[P] = None


class Annotated:
    rest: P

    def __init__(self):
        pass


class IntRest:
    rest: int

    def __init__(self):
        pass


class Empty:
    def __init__(self):
        pass


class Untyped:
    def __init__(self, v):
        self.v = v


class Typed:
    def __init__(self, v: int):
        self.v = v


class KwOnly:
    def __init__(self, *, v: int = 0):
        self.v = v


class Colour(Enum):
    RED = 1
    BLUE = 2


OUTCOMES = ('false', 'none', 'zero', 'text', 'raise', 'raise no args', 'raise two args', 'raise jsons')


def verdict(g, name, outcomes=OUTCOMES, of=lambda x: x):
    """A validator with a threshold and a way to refuse; its message."""
    limit = g.int('limit ' + name)
    how = g.choice('outcome ' + name, outcomes)
    seen = []

    def validator(x):
        seen.append(x)
        if of(x) > limit:
            return True
        if how == 'raise':
            raise ValueError('too small', 3)
        if how == 'raise no args':
            raise KeyError()
        if how == 'raise two args':
            raise RuntimeError('too', 'small')
        if how == 'raise jsons':
            raise jsons.DeserializationError('refused', x, int)
        return {'false': False, 'none': None, 'zero': 0, 'text': ''}[how]

    msg = {'raise': 'too small', 'raise two args': 'too', 'raise jsons': 'refused'}.get(how, 'Validation failed.')
    return validator, limit, msg, seen


def expect(g, out, accepted, msg, good=None, what='load'):
    if accepted:
        g.check(out.ok, what + ': an accepted value is refused', out.exc)
        if good is not None:
            good(out.value)
        return
    g.check(not out.ok, what + ': a rejected value is loaded', out.value)
    g.check(isinstance(out.exc, jsons.ValidationError), what + ': fails with another error', out.exc)
    g.check(out.exc.message == msg, what + ': the message is not that of the validator', out.exc.message, msg)


@harness('one value; the validator has a threshold (any int) and refuses with False, None, 0, "", or an exception with '
         'or without arguments; strict or not', params=OUTCOMES)
def outcome(g):
    inst = jsons.fork()
    validator, limit, msg, seen = verdict(g, 'v', (g.param,))
    jsons.set_validator(validator, int, fork_inst=inst)
    n = g.int('n')
    strict = g.flag('strict')
    out = g.run(jsons.load, n, g.choice('cls', (int, None)), strict=strict, fork_inst=inst)
    expect(g, out, n > limit, msg, lambda v: g.same(v, n, 'an accepted value is changed'))


def kept(g, v, r, what):
    g.same(r, v, what + ': an accepted value is changed')


# name: (target, wrap the JSON value, take the loaded values apart)
INT_PLACES = {
    'list': (List[int], lambda a, b: [a, b], lambda r: (r[0], r[1])),
    'bare list': (None, lambda a, b: [a, b], lambda r: (r[0], r[1])),
    'deque': (Deque[int], lambda a, b: [a, b], lambda r: (r[0], r[1])),
    'sequence': (Sequence[int], lambda a, b: [a, b], lambda r: (r[0], r[1])),
    'tuple': (Tuple[int, int], lambda a, b: [a, b], lambda r: r),
    'tuple...': (Tuple[int, ...], lambda a, b: [a, b], lambda r: r),
    'bare tuple': (tuple, lambda a, b: [a, b], lambda r: r),
    'dict': (Dict[str, int], lambda a, b: {'x': a, 'y': b}, lambda r: (r['x'], r['y'])),
    'bare dict': (None, lambda a, b: {'x': a, 'y': b}, lambda r: (r['x'], r['y'])),
    'mapping': (Mapping[str, int], lambda a, b: {'x': a, 'y': b}, lambda r: (r['x'], r['y'])),
    'defaultdict': (DefaultDict[str, int], lambda a, b: {'x': a, 'y': b}, lambda r: (r['x'], r['y'])),
    'nested': (Dict[str, List[int]], lambda a, b: {'x': [a], 'y': [b]}, lambda r: (r['x'][0], r['y'][0])),
    'bare nested': (None, lambda a, b: [{'x': a}, [[b]]], lambda r: (r[0]['x'], r[1][0][0])),
    'named': (IntNamed, lambda a, b: [a, b], lambda r: r),
    'named dict': (IntNamed, lambda a, b: {'f': a, 'g': b}, lambda r: r),
    'attr': (List[Typed], lambda a, b: [{'v': a}, {'v': b}], lambda r: (r[0].v, r[1].v)),
    'untyped attr': (List[Untyped], lambda a, b: [{'v': a}, {'v': b}], lambda r: (r[0].v, r[1].v)),
    'untyped attr inside': (Untyped, lambda a, b: {'v': [a, {'k': b}]}, lambda r: (r.v[0], r.v[1]['k'])),
    'keyword': (List[KwOnly], lambda a, b: [{'v': a}, {'v': b}], lambda r: (r[0].v, r[1].v)),
    'rest': (List[IntRest], lambda a, b: [{'rest': a}, {'rest': b}], lambda r: (r[0].rest, r[1].rest)),
    'unknown rest': (Empty, lambda a, b: {'x': a, 'y': b}, lambda r: (r.x, r.y)),
}


@harness('two ints at any of the named positions, a validator for int with any threshold, strict or not',
         params=tuple(INT_PLACES))
def ints(g):
    """Also on the shortcut that does not deserialize a value that has the type already."""
    inst = jsons.fork()
    validator, limit, msg, seen = verdict(g, 'v', ('raise', 'none'))
    jsons.set_validator(validator, int, fork_inst=inst)
    cls, wrap, take = INT_PLACES[g.param]
    a, b = g.int('a'), g.int('b')
    strict = False if g.param in ('unknown rest', 'rest') else g.flag('strict')
    out = g.run(jsons.load, wrap(a, b), cls, strict=strict, fork_inst=inst)
    expect(g, out, (a > limit) & (b > limit), msg, lambda r: kept(g, (a, b), tuple(take(r)), g.param))


@harness('a set of up to two small ints and a dict with one int key, a validator for int with a threshold',
         params=('set', 'frozenset', 'key', 'hashed'))
def hashed(g):
    inst = jsons.fork()
    validator, limit, msg, seen = verdict(g, 'v', ('raise', 'none'))
    jsons.set_validator(validator, int, fork_inst=inst)
    a, b = g.int('a', 0, g.b(2, 6)), g.int('b', 0, g.b(2, 6))
    if g.param == 'key':
        out = g.run(jsons.load, {g.choice('key', ('5', '-1')): 'x'}, Dict[int, str], fork_inst=inst)
        if out.ok:
            g.check(all(k > limit for k in out.value), 'a rejected key is loaded', out.value)
        return
    if g.param == 'hashed':
        g.assume(a != b)
        js = {'-keys': {'k1': {'n': a}, 'k2': {'n': b}}, 'k1': 1, 'k2': 2}
        out = g.run(jsons.load, js, Dict[P, int], fork_inst=inst)
        expect(g, out, (a > limit) & (b > limit) & (1 > limit), msg)
        return
    cls = {'set': Set[int], 'frozenset': FrozenSet[int]}[g.param]
    out = g.run(jsons.load, [a, b], cls, fork_inst=inst)
    expect(g, out, (a > limit) & (b > limit), msg, lambda r: g.same(r, cls.__origin__([a, b]), 'elements'))


OBJ_PLACES = {
    'top': (P, lambda a: a, lambda r: r),
    'list': (List[P], lambda a: [a], lambda r: r[0]),
    'tuple': (Tuple[P], lambda a: [a], lambda r: r[0]),
    'set': (Set[P], lambda a: [a], lambda r: next(iter(r))),
    'iterable': (Iterable[P], lambda a: [a], lambda r: next(iter(r))),
    'dict': (Dict[str, P], lambda a: {'k': a}, lambda r: r['k']),
    'dict of lists': (Dict[str, List[P]], lambda a: {'k': [a]}, lambda r: r['k'][0]),
    'mapping': (Mapping[str, P], lambda a: {'k': a}, lambda r: r['k']),
    'ordered': (OrderedDict, lambda a: {'k': {'-meta': {'classes': {'/': __name__ + '.P'}}, **a}}, lambda r: r['k']),
    'attr': (Data, lambda a: {'a': a}, lambda r: r.a),
    'optional attr': (Data, lambda a: {'a': {'n': 1}, 'o': a}, lambda r: r.o),
    'field': (Named, lambda a: [a], lambda r: r.f),
    'optional field': (Named, lambda a: {'f': {'n': 1}, 'g': a}, lambda r: r.g),
    'annotated': (Annotated, lambda a: {'rest': a}, lambda r: r.rest),
    'meta': (None, lambda a: {'-meta': {'classes': {'/': __name__ + '.P'}}, **a}, lambda r: r),
    'meta nested': (Untyped, lambda a: {'-meta': {'classes': {'/': __name__ + '.Untyped', '/v': __name__ + '.P'}}, 'v': a},
                    lambda r: r.v),
    'by name': ('checks.c12.P', lambda a: a, lambda r: r),
    'optional': (Optional[P], lambda a: a, lambda r: r),
    'union': (Union[P, Untyped], lambda a: a, lambda r: r),
    'union last': (Union[datetime, P], lambda a: a, lambda r: r),
}
UNIONS = ('optional', 'union', 'union last', 'optional attr', 'optional field')


@harness('an object with any int at any of the named positions; its class has a validator with any threshold, itself '
         'or through its parent or grandparent; strict or not', params=tuple(OBJ_PLACES))
def objects(g):
    inst = jsons.fork()
    validator, limit, msg, seen = verdict(g, 'v', ('raise', 'false'), of=lambda p: p.n)
    via = g.choice('via', ('direct', 'sequence', 'object'))
    if via == 'sequence':
        jsons.set_validator(validator, (Colour, P), fork_inst=inst)
    else:
        jsons.set_validator(validator, P, fork_inst=inst)
    cls, wrap, take = OBJ_PLACES[g.param]
    n = g.int('n')
    if g.param in ('optional attr', 'optional field'):
        g.assume(limit < 1)
    strict = g.flag('strict') if 'meta' not in g.param and g.param not in ('ordered', 'annotated') else False
    out = g.run(jsons.load, wrap({'n': n}), cls, strict=strict, fork_inst=inst)
    if g.param not in UNIONS:
        expect(g, out, n > limit, msg, lambda r: g.same(take(r), P(n), 'an accepted value is changed'))
    elif n > limit:
        g.check(out.ok, 'an accepted alternative is refused', out.exc)
        g.same(take(out.value), P(n), 'an accepted alternative is changed')
    elif out.ok:
        g.check(take(out.value).__class__ is not P, 'a rejected alternative is loaded', out.value)
    else:
        g.check(isinstance(out.exc, jsons.JsonsError), 'fails with another error', out.exc)
    g.check(len(seen) >= 1 and all(s.__class__ is P for s in seen), 'the validator is not called with the loaded value', seen)


@harness('a class, its child and its grandchild of which any may have a validator with any threshold; objects with any '
         'int, at the top or as an element', params=('P', 'Q', 'R'))
def parents(g):
    """One's own validator or else that of a parent."""
    inst = jsons.fork()
    classes = {'P': P, 'Q': Q, 'R': R}
    own = {}
    for name in g.choice('order', ((), ('P',), ('Q',), ('P', 'Q'), ('P', 'R'), ('Q', 'R', 'P'), ('R', 'P'))):
        validator, limit, msg, seen = verdict(g, name, ('raise',), of=lambda p: p.n)
        jsons.set_validator(validator, classes[name], fork_inst=inst)
        own[name] = limit
    cls = classes[g.param]
    n = g.int('n')
    inside = g.flag('inside')
    out = g.run(jsons.load, [{'n': n}] if inside else {'n': n}, List[cls] if inside else cls, fork_inst=inst)
    if g.param in own:
        ok = n > own[g.param]
    elif g.param == 'R' and 'P' in own and 'Q' in own:
        # Which of several parents is asked is not claimed.
        ok = None
    else:
        limits = [own[name] for name in 'QP' if name in own and issubclass(cls, classes[name])]
        ok = n > limits[0] if limits else True
    if ok is None:
        both = (n > own['P']) & (n > own['Q'])
        either = (n > own['P']) | (n > own['Q'])
        if both:
            g.check(out.ok, 'a value that all accept is refused', out.exc)
        elif not either:
            g.check(not out.ok and isinstance(out.exc, jsons.ValidationError), 'a value that none accepts is loaded')
        return
    expect(g, out, ok, 'too small', lambda r: g.same(r[0] if inside else r, cls(n), 'an accepted value is changed'))


D1 = datetime(2020, 2, 29, 12, 30, 5, tzinfo=timezone.utc)
VALUES = {
    'str': (str, 'abc', 'abc'),
    'float': (float, 1.5, 1.5),
    'float cast': (float, 2, 2.0),
    'bool': (bool, True, True),
    'false': (bool, False, False),
    'int': (int, 0, 0),
    'int cast': (int, '17', 17),
    'str cast': (str, 17, '17'),
    'none': (type(None), None, None),
    'datetime': (datetime, '2020-02-29T12:30:05Z', D1),
    'date': (date, '2020-02-29', date(2020, 2, 29)),
    'decimal': (Decimal, '1.5', Decimal('1.5')),
    'uuid': (UUID, '12345678-1234-1234-1234-123456789abc', UUID('12345678-1234-1234-1234-123456789abc')),
    'enum': (Colour, 'RED', Colour.RED),
    'complex': (complex, {'real': 1.0, 'imag': 2.0}, 1 + 2j),
    'list': (list, [1], [1]),
    'empty list': (list, [], []),
    'dict': (dict, {'a': 1}, {'a': 1}),
    'tuple': (tuple, [1, 2], (1, 2)),
    'set': (set, [1, 2], {1, 2}),
    'deque': (deque, [1, 2], deque([1, 2])),
    'List[int]': (List[int], [1], [1]),
    'Dict[str, int]': (Dict[str, int], {'a': 1}, {'a': 1}),
    'Tuple[int, str]': (Tuple[int, str], [1, 'a'], (1, 'a')),
    'named': (IntNamed, [1, 2], IntNamed(1, 2)),
    'newtype': (Num, 5, 5),
}
HOLDERS = ('top', 'list', 'dict', 'tuple', 'attr', 'untyped list')


def _holder(cls):
    class Holder:
        def __init__(self, v: cls):
            self.v = v
    return Holder


@harness('one value of each type at the top, as element, dict value, tuple element or attribute; the validator of its '
         'type accepts it or not (free); strict or not', params=tuple(VALUES))
def types(g):
    cls, js, value = VALUES[g.param]
    inst = jsons.fork()
    good = g.bool('good')
    seen = []

    def validator(x):
        seen.append(x)
        if good:
            return True
        raise ValueError('no')

    jsons.set_validator(validator, cls, fork_inst=inst)
    where = g.choice('where', HOLDERS)
    strict = g.flag('strict')
    untyped = where == 'untyped list'
    if untyped and (type(js) is not type(value) or not isinstance(cls, type)) or g.param == 'int cast' and strict:
        return
    if untyped and cls not in (str, float, bool, int, list, dict):
        return
    if where == 'top':
        out, take = g.run(jsons.load, js, cls, strict=strict, fork_inst=inst), lambda r: r
    elif where in ('list', 'untyped list'):
        out, take = g.run(jsons.load, [js], None if untyped else List[cls], strict=strict, fork_inst=inst), lambda r: r[0]
    elif where == 'dict':
        out, take = g.run(jsons.load, {'k': js}, Dict[str, cls], strict=strict, fork_inst=inst), lambda r: r['k']
    elif where == 'tuple':
        out, take = g.run(jsons.load, [js], Tuple[cls], strict=strict, fork_inst=inst), lambda r: r[0]
    else:
        holder = g.native(_holder, cls)
        out, take = g.run(jsons.load, {'v': js}, holder, strict=strict, fork_inst=inst), lambda r: r.v
    if not good:
        g.check(not out.ok, 'a rejected value is loaded', out.value)
        g.check(isinstance(out.exc, jsons.ValidationError), 'fails with another error', out.exc)
        g.check(out.exc.message == 'no', 'the message is not that of the validator', out.exc.message)
        return
    g.check(out.ok, 'an accepted value is refused', out.exc)
    g.same(take(out.value), value, 'an accepted value is changed')


@harness('a NewType and its base with validators of any threshold; any int', params=('both', 'own', 'base'))
def newtypes(g):
    inst = jsons.fork()
    own = base = None
    if g.param != 'base':
        validator, own, msg, _ = verdict(g, 'own', ('raise',))
        jsons.set_validator(validator, Num, fork_inst=inst)
    if g.param != 'own':
        validator, base, msg, _ = verdict(g, 'base', ('raise',))
        jsons.set_validator(validator, int, fork_inst=inst)
    n = g.int('n')
    cls = g.choice('cls', (int, Num))
    out = g.run(jsons.load, [n], List[cls], fork_inst=inst)
    if cls is int:
        ok = True if base is None else n > base
    elif g.param == 'both':
        # Its own one is asked at least.
        if not n > own:
            g.check(not out.ok and isinstance(out.exc, jsons.ValidationError), 'a rejected value is loaded', out.value)
        elif n > base:
            g.check(out.ok, 'an accepted value is refused', out.exc)
        return
    else:
        ok = n > own if base is None else n > base
    expect(g, out, ok, 'too small', lambda r: g.same(r, [n], 'an accepted value is changed'))


class Stack:
    """Run one task at a time, each when it is started."""

    def __init__(self, target, args):
        self.target, self.args = target, args

    def start(self):
        self.target(*self.args)

    def join(self):
        pass


@harness('a list of up to three ints loaded by two tasks, a validator for int with any threshold')
def tasks(g):
    inst = jsons.fork()
    validator, limit, msg, seen = verdict(g, 'v', ('raise', 'false'))
    jsons.set_validator(validator, int, fork_inst=inst)
    values = g.list('values', 3, lambda name: g.int(name))
    cls = g.choice('cls', (List[int], None))
    n = g.choice('tasks', (2, 3))
    out = g.run(jsons.load, values, cls, tasks=n, task_type=Stack, fork_inst=inst)
    ok = True
    for v in values:
        ok = ok & (v > limit)
    expect(g, out, ok, msg, lambda r: g.same(r, values, 'an accepted value is changed'))


@harness('a validator that is replaced by another one after a first load; any thresholds and ints')
def replaced(g):
    inst = jsons.fork()
    a, b, n = g.int('first'), g.int('second'), g.int('n')
    cls = g.choice('cls', (P, Q))
    jsons.set_validator(lambda p: p.n > a, P, fork_inst=inst)
    out = g.run(jsons.load, {'n': n}, cls, fork_inst=inst)
    expect(g, out, n > a, 'Validation failed.')
    jsons.set_validator(lambda p: p.n > b, P, fork_inst=inst)
    out = g.run(jsons.load, {'n': n}, cls, fork_inst=inst)
    expect(g, out, n > b, 'Validation failed.')
    jsons.set_deserializer(lambda obj, cls=None, **kw: cls(obj['n'] + 1), P, fork_inst=inst)
    out = g.run(jsons.load, {'n': n}, cls, fork_inst=inst)
    expect(g, out, n + 1 > b, 'Validation failed.', lambda r: g.same(r, cls(n + 1), 'an accepted value is changed'))


@harness('a value of a validated class that a registered deserializer or a getter makes; any int and threshold')
def produced(g):
    """A registered deserializer's result is validated, as is one loaded by loads, loadb or a class method."""
    inst = g.native(jsons.JsonSerializable.fork)
    limit, n = g.int('limit'), g.int('n', -9, 99)
    jsons.set_validator(lambda p: p.n > limit, P, fork_inst=inst)
    how = g.choice('how', ('loads', 'loadb', 'method', 'decorator', 'deserializer'))
    if how == 'deserializer':
        jsons.set_deserializer(lambda obj, cls=None, **kw: P(obj), P, fork_inst=inst)
        out = g.run(jsons.load, [n], List[P], fork_inst=inst)
    elif how == 'method':
        cls = g.native(_member, inst)
        jsons.set_validator(lambda p: p.n > limit, cls, fork_inst=inst)
        out = g.run(cls.load, {'n': n})
    elif how == 'decorator':
        fn = g.native(_decorated, inst)
        out = g.run(fn, {'n': n})
    else:
        n = g.choice('n text', (-3, 0, 12))
        text = '{"n": %d}' % n
        out = g.run(jsons.loads if how == 'loads' else jsons.loadb, text if how == 'loads' else text.encode(), P,
                    fork_inst=inst)
    expect(g, out, n > limit, 'Validation failed.', lambda r: g.check((r[0] if how == 'deserializer' else r).n == n, 'value'))


def _member(inst):
    class Member(inst):
        def __init__(self, n: int):
            self.n = n
    return Member


def _decorated(inst):
    @loaded(returnvalue=False, fork_inst=inst)
    def fn(p: P):
        return p
    return fn
