"""C23: a strict dump as a class exposes only what that class declares."""
from dataclasses import dataclass, field
from typing import Any, Deque, Dict, Generic, List, Optional, Sequence, Tuple, TypeVar, Union

import jsons
from engine.api import harness

T = TypeVar('T')


class Ann:
    a: int
    b: Optional[int]
    _p: int
    const = 7

    class Inner:
        pass

    @property
    def prop(self):
        return [self.a, 1]

    def method(self):
        return 1

    @classmethod
    def cmethod(cls):
        return 2

    @staticmethod
    def smethod():
        return 3


class Slots:
    __slots__ = ('a', 'b', '_p')

    @property
    def prop(self):
        return [self.a, 1]

    def method(self):
        return 1


class SubSlots(Slots):
    __slots__ = ('c',)


class Ctor:
    def __init__(self, a: int, b: Optional[int] = None):
        self.a, self.b, self._p = a, b, 3

    @property
    def prop(self):
        return [self.a, 1]


@dataclass
class Data:
    a: int
    b: Optional[int] = None
    parts: list = field(default_factory=list)


class Generics(Generic[T]):
    a: int
    b: T


class Mid(Ann):
    c: int


class Plain:
    """Declares nothing."""


class OnlyProps:
    level = 3

    @property
    def prop(self):
        return [self.a, 1]


# Base: the attributes that it declares; those that instances need.
BASES = {
    'annotations': (Ann, ('a', 'b', '_p', 'const', 'prop')),
    'slots': (Slots, ('a', 'b', '_p', 'prop')),
    'inherited slots': (SubSlots, ('a', 'b', '_p', 'prop', 'c')),
    'constructor': (Ctor, ('a', 'b', 'prop')),
    'dataclass': (Data, ('a', 'b', 'parts')),
    'inherited': (Mid, ('a', 'b', '_p', 'const', 'prop', 'c')),
    'nothing': (Plain, ()),
    'properties': (OnlyProps, ('level', 'prop')),
}


def plain_sub(base):
    class Sub(base):
        secret = 5

        @property
        def token(self):
            return 'secret'
    return Sub


def annotated_sub(base):
    class Sub(base):
        secret: int
        token: int
    return Sub


def ctor_sub(base):
    class Sub(base):
        def __init__(self, a: int, secret: int, token: int = 2):
            pass
    return Sub


def slots_sub(base):
    class Sub(base):
        __slots__ = ('secret', 'token')
    return Sub


def overriding_sub(base):
    """Overrides what the base declares."""
    class Sub(base):
        const = 8
        level = 9
        secret = 5

        @property
        def prop(self):
            return 'overridden'
    return Sub


def sub_of_sub(base):
    return annotated_sub(plain_sub(base))


SUBS = {'itself': lambda base: base, 'plain': plain_sub, 'annotated': annotated_sub, 'constructor': ctor_sub, 'slots': slots_sub,
        'overriding': overriding_sub, 'sub of sub': sub_of_sub}


def make(g, cls, values, extra):
    x = cls.__new__(cls)
    for name, v in values.items():
        setattr(x, name, v)
    for name in ('secret', 'token'):
        if name in extra:
            try:
                setattr(x, name, 99)
            except AttributeError:
                pass
    if 'other' in extra:
        x.other = 'leak'
    return x


def values(g, base, tag=''):
    vals = {'a': g.int('a' + tag), 'b': None if g.flag('none' + tag) else g.int('b' + tag), '_p': 2}
    if base is Data:
        vals.pop('_p')
        vals['parts'] = [1]
    if base in (Mid, SubSlots):
        vals['c'] = g.int('c' + tag)
    return vals


def declared(g, names, vals, kind):
    r = {}
    for name in names:
        if name == 'prop':
            r[name] = 'overridden' if kind == 'overriding' else [vals['a'], 1]
        elif name == 'const':
            r[name] = 8 if kind == 'overriding' else 7
        elif name == 'level':
            r[name] = 9 if kind == 'overriding' else 3
        else:
            r[name] = vals[name]
    return r


def drawn(g, base, names, kind, tag=''):
    """An object of a subclass and what it is dumped as."""
    cls = g.native(lambda: SUBS[kind](base))
    vals = values(g, base, tag)
    slotted = not hasattr(cls.__new__(cls), '__dict__')
    extra = g.choice('extra' + tag, ((), ('other',), ('secret', 'token', 'other')) if not slotted else ((), ('secret', 'token')))
    if kind == 'itself':
        extra = [e for e in extra if e == 'other']
    if slotted:
        vals = dict([(k, v) for k, v in vals.items() if hasattr(cls, k)])
    if kind == 'slots':
        extra = ('secret', 'token')
    return make(g, cls, vals, extra), declared(g, names, vals, kind), vals, extra


PAIRS = [(b, s) for b in BASES for s in SUBS if not (b == 'dataclass' and s == 'slots')]


@harness('objects of %d classes, as their class, of subclasses of seven kinds with further attributes, and with further attributes of '
         'their own; any ints; at the top level, in typed lists, and with the options that leave kinds of attributes out' % len(BASES),
         params=PAIRS)
def exact(g):
    b, kind = g.param
    base, names = BASES[b]
    x, want, vals, extra = drawn(g, base, names, kind)
    where = g.choice('where', ('top', 'list', 'two', 'text'))
    if where == 'top':
        opt = g.choice('options', ('none', 'privates', 'properties', 'nulls', 'class variables'))
        kw = {'none': {}, 'privates': {'strip_privates': True}, 'properties': {'strip_properties': True},
              'nulls': {'strip_nulls': True}, 'class variables': {'strip_class_variables': True}}[opt]
        if opt == 'privates':
            want.pop('_p', None)
        if opt == 'properties':
            want.pop('prop', None)
        if opt == 'nulls':
            want = dict([(k, v) for k, v in want.items() if v is not None])
        if opt == 'class variables':
            want = dict([(k, v) for k, v in want.items() if k not in ('const', 'level')])
        r = g.ok('dump', jsons.dump, x, base, strict=True, **kw)
    elif where == 'list':
        r = g.ok('dump', jsons.dump, [x], List[base], strict=True)
        want = [want]
    elif where == 'two':
        r = g.ok('dump', jsons.dump, [x, make(g, base, vals, ()), x], List[base], strict=True)
        want = [want, declared(g, names, vals, 'itself'), want]
    else:
        r = g.ok('dump', jsons.dump, x, base, strict=True, fork_inst=jsons.fork())
    g.same(r, want, 'dump')


def everything(x, base, names, vals, kind, extra):
    """All attributes of an object."""
    r = dict(vals)
    r.update(declared(None, [n for n in names if n in ('prop', 'const', 'level')], vals, kind))
    if kind in ('plain', 'sub of sub', 'overriding'):
        r['secret'] = 5
    if kind in ('plain', 'sub of sub'):
        r['token'] = 'secret'
    if kind == 'overriding':
        r.update(const=8, level=9, prop='overridden')
    if 'other' in extra:
        r['other'] = 'leak'
    if 'secret' in extra:
        r['secret'] = 99
        if kind not in ('plain', 'sub of sub'):
            r['token'] = 99
    return r


@harness('as exact: without strict mode, without a class, or without both, all attributes are dumped', params=PAIRS)
def all_attributes(g):
    b, kind = g.param
    base, names = BASES[b]
    x, want, vals, extra = drawn(g, base, names, kind)
    want = everything(x, base, names, vals, kind, extra)
    how = g.choice('how', ('class', 'strict', 'neither', 'list', 'list with class'))
    if how == 'class':
        r = g.ok('dump', jsons.dump, x, base)
    elif how == 'strict':
        r = g.ok('dump', jsons.dump, x, strict=True)
    elif how == 'neither':
        r = g.ok('dump', jsons.dump, x)
    elif how == 'list':
        r, want = g.ok('dump', jsons.dump, [x]), [want]
    else:
        r, want = g.ok('dump', jsons.dump, [x], List[base]), [want]
    g.same(r, want, 'dump')


@harness('strict dumps of lists without a type: the class of the first object is that of all its instances; any ints',
         params=[(b, s) for b, s in PAIRS if s != 'itself'])
def inferred(g):
    b, kind = g.param
    base, names = BASES[b]
    x, want, vals, extra = drawn(g, base, names, kind)
    first = make(g, base, vals, ())
    r = g.ok('dump', jsons.dump, [first, x, first] if g.flag('three') else [first, x], strict=True)
    g.same(r[1], want, 'dump')
    g.same(r[0], declared(g, names, vals, 'itself'), 'dump of the first')
    if len(r) == 3:
        g.same(r[2], r[0], 'dump of the last')
    same = g.ok('dump', jsons.dump, [first], strict=True)
    g.same(same, [r[0]], 'dump of one')


class Holder:
    def __init__(self, one, many):
        self.one, self.many = one, many


@harness('strictly typed tuples, deques, dicts and sequences of objects, lists in lists, and lists that are attributes with a hint; '
         'any ints', params=[(w, b) for w in ('tuple', 'tuples', 'sequence', 'lists', 'attr') for b in ('annotations', 'constructor')])
def typed_places(g):
    where, b = g.param
    base, names = BASES[b]
    kind = g.choice('sub', ('annotated', 'plain'))
    x, want, vals, extra = drawn(g, base, names, kind)
    other = make(g, base, vals, ())
    other_want = declared(g, names, vals, 'itself')

    class Typed:
        def __init__(self, many: List[base]):
            self.many = many

    val, cls, expected = {
        'tuple': lambda: ((x, other), Tuple[base, base], [want, other_want]),
        'tuples': lambda: ((x, other, x), Tuple[base, ...], [want, other_want, want]),
        'sequence': lambda: ([x, other], Sequence[base], [want, other_want]),
        'lists': lambda: ([[x], [other, x]], List[List[base]], [[want], [other_want, want]]),
        'attr': lambda: (Typed([x, other]), Typed, {'many': [want, other_want]}),
    }[where]()
    g.same(g.ok('dump', jsons.dump, val, cls, strict=True), expected, 'dump')


@harness('one object dumped in turn as its base, as itself and without a class, in every order of three; any int')
def history(g):
    """Dumps do not affect each other."""
    base, names = BASES[g.choice('base', ('annotations', 'constructor', 'slots'))]
    kind = g.choice('sub', ('annotated', 'plain'))
    x, want, vals, extra = drawn(g, base, names, kind)
    own = set(names) | {'secret', 'token'}
    full = everything(x, base, names, vals, kind, extra)
    for k in range(3):
        how = g.choice('how %d' % k, ('base', 'without', 'not strict'))
        if how == 'base':
            g.same(g.ok('dump', jsons.dump, x, base, strict=True), want, 'as base')
        elif how == 'without':
            g.same(g.ok('dump', jsons.dump, x, strict=True), full, 'without a class')
        else:
            g.same(g.ok('dump', jsons.dump, x, base), full, 'not strict')
