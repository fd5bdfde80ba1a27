"""C06: unions resolve to the first matching alternative and None stays None."""
import enum
import itertools
from collections import deque
from dataclasses import make_dataclass
from datetime import date, datetime, timezone
from decimal import Decimal
from typing import Any, Dict, List, NamedTuple, Optional, Set, Tuple, Union
from uuid import UUID

import jsons
from checks.shapes import DC, NT, Derived, Plain, PlainDef, Slotted
from engine.api import harness

NoneType = type(None)


class Colour(enum.Enum):
    A = 1
    B = 'x'


class PlainToo:
    """Same keys as Plain, other types."""

    def __init__(self, a: str, b: List[int]):
        self.a, self.b = a, b


ALTS = [int, str, bool, float, NoneType, datetime, Decimal, Colour, List[int], Dict[str, int], Tuple[int, str], Plain, PlainToo, NT]
TEXTS = ('', 'x', '5', '1.5', 'A', '2020-01-01T00:00:00Z')


def json_value(g, n, numbers=True):
    """A JSON value that some of the alternatives can load."""
    kind = g.choice(n, ('none', 'int', 'bool', 'float', 'text', 'str', 'list', 'dict'))
    if kind == 'none':
        return None
    if kind == 'int':
        return g.int(n + '.i', -1, 5) if numbers else g.choice(n + '.i', (-1, 0, 5))
    if kind == 'bool':
        return g.bool(n + '.b')
    if kind == 'float':
        return g.choice(n + '.f', (2.5, 3.0))
    if kind == 'text':
        return g.choice(n + '.t', TEXTS)
    if kind == 'str':
        return g.str(n + '.s', 1, chars=[(64, 66)])
    if kind == 'list':
        items = (lambda m: g.int(m, -9, 9), lambda m: 'x', lambda m: None)
        return [g.choice('%s[%d]' % (n, k), items[:g.b(3 - k, 3)])('%s[%d].v' % (n, k)) for k in range(g.len(n + '.len', 2))]
    a = g.choice(n + '.a', (lambda m: g.int(m, -9, 9), lambda m: 'y'))(n + '.a.v')
    return g.choice(n + '.keys', (lambda: {}, lambda: {'a': a}, lambda: {'a': a, 'b': 'z'}, lambda: {'a': a, 'b': [1]}))()


def with_attr(u):
    """A class, a dataclass and a named tuple with a part of the given type."""
    class Holds:
        def __init__(self, v: u):
            self.v = v

    class Declares:
        v: u

    class Tup(NamedTuple):
        v: u
    return Holds, make_dataclass('Data', [('v', u)]), Declares, Tup


PLACES = ('top', 'list', 'dict', 'attr', 'tuple', 'tuples', 'data', 'declared', 'named', 'deep', 'optional')


def place(g, where, u, classes):
    """The type, a function that wraps the value and one that gets the part out again."""
    holds, data, declares, tup = classes
    return {
        'top': (u, lambda x: x, lambda r: r),
        'optional': (Optional[u], lambda x: x, lambda r: r),
        'list': (List[u], lambda x: [x], lambda r: r[0]),
        'dict': (Dict[str, u], lambda x: {'k': x}, lambda r: r['k']),
        'attr': (holds, lambda x: {'v': x}, lambda r: r.v),
        'tuple': (Tuple[int, u], lambda x: [1, x], lambda r: r[1]),
        'tuples': (Tuple[u, ...], lambda x: [x], lambda r: r[0]),
        'data': (data, lambda x: {'v': x}, lambda r: r.v),
        'declared': (declares, lambda x: {'v': x}, lambda r: r.v),
        'named': (tup, lambda x: [x], lambda r: r.v),
        'deep': (Dict[str, List[u]], lambda x: {'k': [x]}, lambda r: r['k'][0]),
    }[where]


MADE = {}


def prepare(alts):
    if alts not in MADE:
        u = Union[alts]
        MADE[alts] = u, with_attr(u)
    return MADE[alts]


def expect_load(g, x, alts, kw):
    """The outcome of the first alternative that can load x."""
    for t in alts:
        if x is None:
            if t is NoneType:
                return g.run(lambda: None)
            continue
        out = g.run(jsons.load, x, t, **kw)
        if out.ok:
            return out
    return None


def check_load(g, x, alts, where, kw):
    u, classes = g.native(prepare, alts)
    want = expect_load(g, x, alts, kw)
    cls, wrap, unwrap = place(g, where, u, classes)
    if where == 'optional' and x is None:
        want = g.run(lambda: None)
    if where == 'declared' and kw.get('strict'):
        return
    out = g.run(jsons.load, wrap(x), cls, **kw)
    if want is None:
        g.check(not out.ok, 'a value that fits no alternative is loaded', out.value, x, alts)
        g.check(isinstance(out.exc, jsons.JsonsError), 'error that is no jsons error', type(out.exc), out.exc)
        return
    g.check(out.ok, 'a value that fits an alternative is not loaded', out.exc, x, alts)
    g.same(unwrap(out.value), want.value, 'not what the first matching alternative gives')


@harness('every ordered pair of %d alternatives, any of 11 places, JSON values of every kind with symbolic ints, bools and strings' % len(ALTS),
         params=list(range(len(ALTS))))
def load_pairs(g):
    first = ALTS[g.param]
    second = g.choice('second', [t for t in ALTS if t is not first])
    x = json_value(g, 'x', float not in (first, second))
    k = ALTS.index(second) + g.param
    where = g.choice('where', [PLACES[(k + i) % len(PLACES)] for i in range(0, len(PLACES), g.b(7, 1))])
    check_load(g, x, (first, second), where, {'strict': k % 2 == 0 if g.tier == 'quick' else g.flag('strict')})


TRIPLES = [(NoneType, int, str), (int, NoneType, str), (int, str, NoneType), (datetime, Decimal, str), (Plain, PlainToo, PlainDef),
           (PlainToo, Plain, DC), (List[int], List[str], Dict[str, str]), (Dict[str, int], Plain, str), (bool, int, float), (Colour, int, str),
           (Tuple[int, int], Tuple[str, ...], Set[int]), (Optional[datetime], List[Union[int, None]], Dict[str, Union[str, int]]),
           (UUID, date, Decimal, Plain), (Derived, Slotted, NoneType), (float, List[Any], NoneType, str)]


@harness('%d unions of three and more alternatives, nested unions, every place, strict or not' % len(TRIPLES), params=list(range(len(TRIPLES))))
def load_more(g):
    alts = flatten(TRIPLES[g.param])
    x = json_value(g, 'x', float not in alts)
    where = g.choice('where', [p for k, p in enumerate(PLACES) if g.tier != 'quick' or (k + g.param) % 2 == 0])
    check_load(g, x, alts, where, {'strict': g.flag('strict') if g.tier != 'quick' else g.param % 2 == 0})


def flatten(alts):
    r = []
    for t in alts:
        r.extend(getattr(t, '__args__', ()) if getattr(t, '__origin__', None) is Union else (t,))
    return tuple(dict.fromkeys(r))


# -- alternatives that refuse depending on the value ---------------------------------------------------

class Small:
    def __init__(self, n: int):
        self.n = n


class Big(Small):
    pass


class Other:
    def __init__(self, n: int):
        self.n = n


@harness('three classes of which two are refused by validators, deserializers or serializers with any thresholds, every order and place')
def refusing(g):
    order = g.choice('order', tuple(itertools.permutations((Small, Big, Other))))
    u, classes = g.native(prepare, order)
    lo, hi, n = g.int('lo'), g.int('hi'), g.int('n')

    def accepts(cls):
        return {Small: lambda: n < hi, Big: lambda: n > lo, Other: lambda: n == 7}[cls]()
    how = g.choice('how', ('validator', 'deserializer', 'serializer'))

    def refuse(obj, cls=None, **kw):
        if not accepts(cls):
            raise ValueError('refused')
        return cls(obj['n'])

    def refuse_dump(obj, cls=None, **kw):
        if not accepts(cls):
            raise jsons.SerializationError('refused')
        return {'n': obj.n, 'as': cls.__name__}
    for cls in (Small, Big, Other):
        if how == 'validator':
            jsons.set_validator(lambda obj, cls=cls: obj.n < hi if cls is Small else (obj.n > lo if cls is Big else obj.n == 7), cls)
        elif how == 'deserializer':
            jsons.set_deserializer(refuse, cls)
        else:
            jsons.set_serializer(refuse_dump, cls)
    want = None
    for cls in order:
        if accepts(cls):
            want = cls
            break
    where = g.choice('where', PLACES if how != 'serializer' else DUMP_PLACES)
    if how != 'serializer':
        cls, wrap, unwrap = place(g, where, u, classes)
        out = g.run(jsons.load, wrap({'n': n}), cls)
        if want is None:
            g.check(not out.ok and isinstance(out.exc, jsons.JsonsError), 'a value that fits no alternative is loaded', out.value, out.exc)
            return
        g.check(out.ok, 'a value that fits an alternative is not loaded', out.exc)
        r = unwrap(out.value)
        g.check(r.__class__ is want, 'not the first matching alternative', r, want)
        g.check(r.n == n, 'value')
        return
    obj = Small(n)
    out = dump_at(g, obj, where, u, classes)
    if want is None:
        g.check(not out.ok and isinstance(out.exc, jsons.JsonsError), 'a value that fits no alternative is dumped', out.value, out.exc)
        return
    g.check(out.ok, 'a value that fits an alternative is not dumped', out.exc)
    g.same(out.value, {'n': n, 'as': want.__name__}, 'not the dump of the first matching alternative')


# -- dumping ------------------------------------------------------------------------------------------

DUMP_PLACES = ('top', 'list', 'attr', 'tuple', 'tuples', 'data', 'declared', 'optional', 'lists')
STRICT = ('attr', 'data', 'declared', 'tuple', 'tuples')


def dump_at(g, v, where, u, classes):
    """The outcome of dumping v where a value of type u stands."""
    holds, data, declares, tup = classes
    kw = {'strict': True} if where in STRICT else {}
    obj, cls, get = {
        'top': lambda: (v, u, lambda r: r),
        'optional': lambda: (v, Optional[u], lambda r: r),
        'list': lambda: ([v], List[u], lambda r: r[0]),
        'lists': lambda: ([[v]], List[List[u]], lambda r: r[0][0]),
        'tuple': lambda: ((1, v), Tuple[int, u], lambda r: r[1]),
        'tuples': lambda: ((v,), Tuple[u, ...], lambda r: r[0]),
        'attr': lambda: (holds(v), holds, lambda r: r['v']),
        'data': lambda: (data(v), data, lambda r: r['v']),
        'declared': lambda: (declares(), declares, lambda r: r['v']),
    }[where]()
    if where == 'declared':
        obj.v = v
    out = g.run(jsons.dump, obj, cls, **kw)
    if out.ok:
        out.value = get(out.value)
    return out


VALUES = {
    'none': lambda g: None, 'five': lambda g: 5, 'int': lambda g: g.int('v', -3, 12), 'bool': lambda g: g.bool('v'), 'float': lambda g: g.choice('v', (1.5, -2.0)),
    'str': lambda g: g.str('v', 1, 0, [(65, 66), (48, 50)]), 'text': lambda g: g.choice('v', ('5', 'A')), 'list': lambda g: [g.int('v', 0, 2)],
    'dict': lambda g: {'k': g.int('v', 0, 2)}, 'tuple': lambda g: (g.int('v', 0, 2), 'x'), 'plain': lambda g: Plain(g.int('v'), 'p'),
    'nt': lambda g: NT(g.int('v', 0, 2), None), 'enum': lambda g: Colour.A, 'datetime': lambda g: datetime(2020, 1, 2, tzinfo=timezone.utc),
    'decimal': lambda g: Decimal('1.5'), 'plain2': lambda g: PlainToo('s', [g.int('v')]),
}


def kinds(alts):
    """Without library values dumped as user classes (method tables) and symbolic text into float."""
    if any(isinstance(t, type) and t.__module__.startswith('checks.') and t is not Colour for t in alts):
        return ('none', 'dict', 'plain', 'nt', 'plain2')
    return tuple(k for k in VALUES if not (k in ('str', 'int') and (float in alts or Decimal in alts)))


def check_dump(g, v, alts, where):
    u, classes = g.native(prepare, alts)
    want = None
    for t in alts:
        if v is None:
            # None is dumped as null if it is admitted at all.
            if NoneType in alts or where == 'optional':
                want = g.run(lambda: None)
                break
        out = g.run(jsons.dump, v, t, **({'strict': True} if where in STRICT else {}))
        if out.ok:
            want = out
            break
    out = dump_at(g, v, where, u, classes)
    if want is None:
        g.check(not out.ok, 'a value that fits no alternative is dumped', out.value, v, alts)
        g.check(isinstance(out.exc, jsons.JsonsError), 'error that is no jsons error', type(out.exc), out.exc)
        return
    g.check(out.ok, 'a value that fits an alternative is not dumped', out.exc, v, alts)
    g.same(out.value, want.value, 'not what the first matching alternative gives')


@harness('dump of %d kinds of values with every ordered pair of %d alternatives, any of 11 places' % (len(VALUES), len(ALTS)),
         params=list(range(len(ALTS))))
def dump_pairs(g):
    first = ALTS[g.param]
    second = g.choice('second', [t for t in ALTS if t is not first])
    kind = g.choice('kind', kinds((first, second)))
    k = ALTS.index(second) + g.param + list(VALUES).index(kind)
    where = g.choice('where', [DUMP_PLACES[(k + i) % len(DUMP_PLACES)] for i in range(0, len(DUMP_PLACES), g.b(5, 1))])
    check_dump(g, VALUES[kind](g), (first, second), where)


@harness('dump with %d unions of three and more alternatives in every place' % len(TRIPLES), params=list(range(len(TRIPLES))))
def dump_more(g):
    v = VALUES[g.choice('kind', kinds(flatten(TRIPLES[g.param])))](g)
    check_dump(g, v, flatten(TRIPLES[g.param]), g.choice('where', DUMP_PLACES))


# -- two unions of the same alternatives ------------------------------------------------------------------

def both_orders(alts):
    """Types with parts of two unions that hold the same alternatives in another order (which compare as equal)."""
    u, w = Union[alts], Union[alts[::-1]]

    class Inner:
        def __init__(self, q: w):
            self.q = q

    class Attrs:
        def __init__(self, p: u, q: w):
            self.p, self.q = p, q

    class Lists:
        def __init__(self, p: List[u], q: Dict[str, w]):
            self.p, self.q = p, q

    class Outer:
        def __init__(self, p: u, i: Inner):
            self.p, self.i = p, i
    return u, w, Attrs, Lists, Outer, Inner


def alone(g, x, alts, kw, mapping):
    for t in alts:
        if x is None and NoneType in alts:
            return g.run(lambda: None)
        out = g.run(mapping, x, t, **kw)
        if out.ok:
            return out
    return None


@harness('two unions of the same two alternatives in both orders in one value: attributes, elements, tuples, nested objects; JSON values and values '
         'of every kind', params=[(op, k) for op in ('load', 'dump') for k in range(len(ALTS))])
def both(g):
    op, k = g.param
    first = ALTS[k]
    second = g.choice('second', [t for i, t in enumerate(ALTS) if i > k or (i < k and g.tier != 'quick')] or [int])
    if first is second:
        return
    alts = (first, second)
    u, w, attrs, lists, outer, inner = g.native(both_orders, alts)
    turn = ALTS.index(second) + k
    where = g.choice('where', ('attrs', 'lists', 'tuple', 'outer')[turn % g.b(4, 1)::g.b(4, 1)])
    if op == 'load':
        x = json_value(g, 'x', float not in alts)
        kw = {'strict': turn % 8 < 4 if g.tier == 'quick' else g.flag('strict')}
        wants = [expect_load(g, x, a, kw) for a in (alts, alts[::-1])]
        cls, js, parts = {'attrs': lambda: (attrs, {'p': x, 'q': x}, lambda r: (r.p, r.q)),
                          'lists': lambda: (lists, {'p': [x], 'q': {'k': x}}, lambda r: (r.p[0], r.q['k'])),
                          'tuple': lambda: (Tuple[u, w], [x, x], tuple),
                          'outer': lambda: (outer, {'p': x, 'i': {'q': x}}, lambda r: (r.p, r.i.q))}[where]()
        out = g.run(jsons.load, js, cls, **kw)
    else:
        x = VALUES[g.choice('kind', kinds(alts))](g)
        kw = {'strict': True}
        wants = [alone(g, x, a, kw, jsons.dump) for a in (alts, alts[::-1])]
        obj, cls, parts = {'attrs': lambda: (attrs(x, x), attrs, lambda r: (r['p'], r['q'])),
                           'lists': lambda: ([(x, x)], List[Tuple[u, w]], lambda r: r[0]),
                           'tuple': lambda: ((x, x), Tuple[u, w], tuple),
                           'outer': lambda: (outer(x, inner(x)), outer, lambda r: (r['p'], r['i']['q']))}[where]()
        out = g.run(jsons.dump, obj, cls, **kw)
    if None in wants:
        g.check(not out.ok and isinstance(out.exc, jsons.JsonsError), 'a value that fits no alternative', out.value, out.exc)
        return
    g.check(out.ok, 'a value that fits an alternative fails', out.exc)
    got = parts(out.value)
    g.same(got[0], wants[0].value, 'the first union: not what its first matching alternative gives')
    g.same(got[1], wants[1].value, 'the second union: not what its first matching alternative gives')
