"""C15: a verbose dump restores the original classes without type hints."""
from dataclasses import dataclass
from datetime import datetime
from enum import Enum
from typing import Dict, List, NamedTuple, Optional, Tuple, Union
import json

import attr

import jsons
from jsons.classes.verbosity import Verbosity
from engine.api import harness

WITH = {'everything': Verbosity.WITH_EVERYTHING, 'true': True, 'class': Verbosity.WITH_CLASS_INFO}
ALL = {'false': (False, False, False), 'nothing': (Verbosity.WITH_NOTHING, False, False), 'true': (True, True, True),
       'class': (Verbosity.WITH_CLASS_INFO, True, False), 'time': (Verbosity.WITH_DUMP_TIME, False, True),
       'none': (None, False, False), 'text': ('yes', True, True), 'everything': (Verbosity.WITH_EVERYTHING, True, True),
       'both': (Verbosity.WITH_CLASS_INFO | Verbosity.WITH_DUMP_TIME, True, True)}


class Base:
    def __init__(self, n: int):
        self.n = n


class Kid(Base):
    def __init__(self, n: int, extra: Optional[int] = None):
        super().__init__(n)
        self.extra = extra


class GrandKid(Kid):
    pass


class Other:
    """Could be loaded from what Base is dumped to."""

    def __init__(self, n: int, extra=None):
        self.n = n
        self.extra = extra


class Loose:
    """Attributes without types, of which one is the start of another."""

    def __init__(self, a, ab=None, n=None):
        self.a, self.ab, self.n = a, ab, n


class Typed:
    def __init__(self, a: Base, ab: Optional[Base] = None, n: Union[int, Base] = 0):
        self.a, self.ab, self.n = a, ab, n


@dataclass
class Data:
    a: Base
    items: List[Base]
    by_name: Dict[str, Base]
    pair: Tuple[Base, int]


@attr.s(auto_attribs=True, eq=False)
class At:
    a: Base
    b: object


class Named(NamedTuple):
    f: Base
    g: object


class Slots:
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a, self.b = a, b


class Ann:
    a: Base

    def __init__(self):
        pass


class Colour(Enum):
    RED = 1
    BLUE = 2


class Member(jsons.JsonSerializable):
    def __init__(self, a: Base, b=None):
        self.a, self.b = a, b


LEAVES = ('Base', 'Kid', 'GrandKid', 'Other')


def leaf(g, n, kinds=LEAVES):
    kind = g.choice(n + '.class', kinds)
    v = g.int(n)
    if kind == 'Kid' or kind == 'Other':
        return {'Kid': Kid, 'Other': Other}[kind](v, g.choice(n + '.extra', (None, 5)))
    return {'Base': Base, 'GrandKid': GrandKid}[kind](v)


KIDS = ('Base', 'Kid')


def some(g, n, kinds=KIDS):
    return leaf(g, n, kinds)


def inside(g, n, x, kinds):
    """x in an untyped nesting of lists and dicts."""
    kind = g.choice(n, kinds)
    if kind == 'bare':
        return x
    if kind == 'list':
        return [x, 3]
    if kind == 'dict':
        return {'a': x, 'k': 3}
    if kind == 'dict list':
        return {'a': [x, {'a': x}]}
    if kind == 'list dict':
        return [[], {'k/a': x, '': 1}, [x]]
    return {'a': {'a': x, 'b': {}}, 'ab': None}


NESTS = ('bare', 'list', 'dict', 'dict list', 'list dict', 'dict dict')


def t_leaf(g, n):
    return leaf(g, n)


def t_loose(g, n):
    return Loose(inside(g, n + '.nest', leaf(g, n + '.a', KIDS), NESTS), some(g, n + '.ab', ('Kid', 'Other')))


def t_loose2(g, n):
    """Attributes of the same name at several levels, of different classes."""
    inner = Loose(leaf(g, n + '.x', ('Kid', 'Other')), None, leaf(g, n + '.y', ('Base', 'GrandKid')))
    outer = Loose(leaf(g, n + '.z', ('Base', 'Kid')), inner, inner if g.flag(n + '.same') else 4)
    return Loose(outer, Other(1)) if g.flag(n + '.more') else outer


def t_typed(g, n):
    u = g.flag(n + '.u')
    return Typed(leaf(g, n + '.a', ('Base', 'Kid', 'GrandKid')), None if g.flag(n + '.none') else some(g, n + '.ab'),
                 g.int(n + '.n') if u else Base(g.int(n + '.n')))


def t_typed2(g, n):
    return Loose(t_typed(g, n + '.t'), Typed(Kid(g.int(n + '.k')), Base(2)), [Typed(Kid(7), None)])


def t_data(g, n):
    return Data(some(g, n + '.a'), [some(g, n + '.i0'), Kid(g.int(n + '.i1'), 4)], {'a': some(g, n + '.d')},
                (Kid(g.int(n + '.p')), 5))


def t_attrs(g, n):
    return At(some(g, n + '.a'), inside(g, n + '.nest', Kid(g.int(n + '.b')), NESTS[:4]))


def t_named(g, n):
    return Loose(Named(some(g, n + '.f'), inside(g, n + '.nest', some(g, n + '.g'), NESTS[:3])), Named(Kid(1), 2))


def t_slots(g, n):
    return Slots(some(g, n + '.a'), Slots(Kid(g.int(n + '.b')), [Slots(1, some(g, n + '.c'))]))


def t_late(g, n):
    r = Ann()
    r.a = some(g, n + '.a')
    r.late = inside(g, n + '.nest', Kid(g.int(n + '.late')), NESTS[:4])
    r.ab = Kid(g.int(n + '.ab'))
    return r


def t_list(g, n):
    return [leaf(g, n + '.0', KIDS), [Kid(g.int(n + '.1'))], {'k': leaf(g, n + '.2', ('Other', 'GrandKid'))}, 3, None]


def t_dict(g, n):
    return {'a': leaf(g, n + '.0', KIDS), 'b': {'a': Other(g.int(n + '.1'))}, 'c': [Loose(Kid(g.int(n + '.2')))], 'd': None}


def t_member(g, n):
    return Member(some(g, n + '.a'), inside(g, n + '.nest', Member(Kid(g.int(n + '.b'))), NESTS[:4]))


TREES = {'leaf': t_leaf, 'loose': t_loose, 'loose2': t_loose2, 'typed': t_typed, 'typed2': t_typed2, 'data': t_data,
         'attrs': t_attrs, 'named': t_named, 'slots': t_slots, 'late': t_late, 'list': t_list, 'dict': t_dict,
         'member': t_member}


@harness('an object, list or dict of depth up to 4 with attributes that are untyped, typed, or typed with a parent class '
         'and values of several classes with any ints; each verbosity with class information; strict or not',
         params=tuple(TREES))
def restored(g):
    obj = TREES[g.param](g, 't')
    verbose = WITH[g.choice('verbose', tuple(WITH)[:g.b(2, 3)])]
    d = g.ok('dump', jsons.dump, obj, verbose=verbose)
    strict = g.flag('strict') if g.param != 'late' else False
    r = g.ok('load', jsons.load, d, strict=strict)
    g.same(r, obj, 'load')


@harness('as restored, by way of JSON text; a few ints', params=tuple(TREES))
def by_text(g):
    obj = g.native(_concrete, g.param, g.choice('variant', tuple(range(g.b(4, 12)))))
    how = g.choice('how', ('text', 'bytes'))
    if how == 'text':
        s = g.ok('dumps', jsons.dumps, obj, verbose=True)
        r = g.ok('loads', jsons.loads, s)
    else:
        s = g.ok('dumpb', jsons.dumpb, obj, verbose=Verbosity.WITH_CLASS_INFO)
        r = g.ok('loadb', jsons.loadb, s)
    g.same(r, obj, 'loads')


class _Fixed:
    """Draws for a fixed variant of a tree."""

    def __init__(self, seed):
        self.seed, self.count, self.tier = seed, 0, 'quick'

    def _next(self):
        self.count += 1
        return self.seed * 7 + self.count * (self.seed + 3)

    def int(self, name, lo=None, hi=None):
        return self._next() - 9

    def flag(self, name):
        return self._next() % 2 == 0

    def choice(self, name, seq):
        return tuple(seq)[self._next() % len(seq)]


def _concrete(kind, seed):
    return TREES[kind](_Fixed(seed), 't')


def without_meta(js):
    if isinstance(js, dict):
        return {k: without_meta(v) for k, v in js.items() if k != '-meta'}
    if isinstance(js, list):
        return [without_meta(v) for v in js]
    return js


def scan(js, path=()):
    """Every dict in js with its path."""
    if isinstance(js, dict):
        yield path, js
        for k, v in js.items():
            if k != '-meta':
                for found in scan(v, path + (k,)):
                    yield found
    elif isinstance(js, list):
        for k, v in enumerate(js):
            for found in scan(v, path + (k,)):
                yield found


@harness('as restored; every verbosity setting, as flag, bool, None or text', params=tuple(TREES))
def asked_for(g):
    """Meta information is there exactly as asked for; the rest is as without it."""
    obj = TREES[g.param](g, 't')
    verbose, classes, time = ALL[g.choice('verbose', tuple(ALL)[:g.b(5, 9)])]
    d = g.ok('dump', jsons.dump, obj, verbose=verbose)
    plain = g.ok('plain dump', jsons.dump, obj)
    g.same(without_meta(d), plain, 'the dump without meta information')
    if g.param not in ('list', 'dict'):
        g.check(('-meta' in d) == (classes or time), 'meta information at the top')
    count = 0
    for path, js in scan(d):
        g.check('-cls' not in js, 'an internal marker remains', path)
        if '-meta' not in js:
            continue
        count += 1
        meta = js['-meta']
        g.check(classes or time, 'meta information that was not asked for', path)
        g.check(set(meta) == ({'classes'} if classes else set()) | ({'dump_time'} if time else set()),
                'other meta information than was asked for', path, list(meta))
        if classes:
            g.check(isinstance(meta['classes'], dict) and isinstance(meta['classes'].get('/'), str), 'classes', meta)
        if time:
            t = g.ok('dump time', jsons.load, meta['dump_time'], datetime)
            g.check(isinstance(t, datetime), 'dump time', t)
    g.check((count > 0) == (classes or time), 'number of sections', count)


@harness('every verbosity setting; a dict whose keys are objects, at the top or in an attribute; any ints')
def keys(g):
    verbose, classes, time = ALL[g.choice('verbose', tuple(ALL))]
    d = {Hashed(g.int('n'), Base(1)): 1, (2, 3): Kid(g.int('m'))}
    obj = Loose(d) if g.flag('inside') else d
    r = g.ok('dump', jsons.dump, obj, verbose=verbose)
    g.same(without_meta(r), g.ok('plain dump', jsons.dump, obj), 'the dump without meta information')
    for path, js in scan(r):
        g.check('-cls' not in js, 'an internal marker remains', path)
        g.check('-meta' not in js or classes or time, 'meta information that was not asked for', path)


class Hashed:
    def __init__(self, n, base):
        self.n, self.base = n, base

    def __hash__(self):
        return 5


@harness('a verbose dump of a class loaded as another one: as itself, its parent, an unrelated one; top level, element, '
         'attribute, optional; any ints', params=('top', 'name', 'method', 'list', 'dict', 'attr', 'optional', 'nested'))
def asked_class(g):
    """At the top the class that is asked for wins; a type inferred from a container or attribute loses."""
    obj = leaf(g, 'x', ('Kid', 'GrandKid', 'Other'))
    d = g.ok('dump', jsons.dump, obj, verbose=WITH[g.choice('verbose', tuple(WITH))])
    asked = g.choice('asked', (Base, Kid, Other))
    strict = g.flag('strict')
    if g.param == 'top':
        r = g.ok('load', jsons.load, d, asked) if asked is not Base else g.ok('load', jsons.load, d, asked)
        g.check(r.__class__ is asked, 'not the class that was asked for', r)
        g.check(r.n == obj.n, 'value')
    elif g.param == 'name':
        r = g.ok('load', jsons.load, d, __name__ + '.' + asked.__name__)
        g.check(r.__class__ is asked and r.n == obj.n, 'not the class that was asked for', r)
    elif g.param == 'method':
        md = g.ok('dump', jsons.dump, Member(obj), verbose=True)
        r = g.ok('load', Member.load, md)
        g.same(r, Member(obj), 'load')
    elif g.param == 'list':
        g.same(g.ok('load', jsons.load, [d], List[asked], strict=strict), [obj], 'load')
    elif g.param == 'dict':
        g.same(g.ok('load', jsons.load, {'k': d}, Dict[str, asked], strict=strict), {'k': obj}, 'load')
    elif g.param == 'attr':
        holder = Typed if asked is Base else Loose
        g.same(g.ok('load', jsons.load, {'a': d}, holder, strict=strict), holder(obj), 'load')
    elif g.param == 'optional':
        # The types of a union are asked for.
        r = g.ok('load', jsons.load, d, Optional[asked])
        g.check(r.__class__ is asked and r.n == obj.n, 'not the class that was asked for', r)
    else:
        # The hints for what is inside are used also if another class is asked for at the top.
        nested = g.ok('dump', jsons.dump, Typed(obj if asked is Base else Kid(1), None, 3), verbose=True)
        r = g.ok('load', jsons.load, nested, Loose, strict=strict)
        g.check(r.__class__ is Loose, 'not the class that was asked for', r)
        g.same(r.a, obj if asked is Base else Kid(1), 'load')


CASES = {'camel': jsons.KEY_TRANSFORMER_CAMELCASE, 'pascal': jsons.KEY_TRANSFORMER_PASCALCASE,
         'lisp': jsons.KEY_TRANSFORMER_LISPCASE, 'snake': jsons.KEY_TRANSFORMER_SNAKECASE}


class Words:
    def __init__(self, first_attr, second_attr, third_attr=None):
        self.first_attr, self.second_attr, self.third_attr = first_attr, second_attr, third_attr


class WordsBase:
    def __init__(self, inner_val: int):
        self.inner_val = inner_val


class WordsKid(WordsBase):
    pass


class WordsTyped:
    def __init__(self, some_base: WordsBase, more_bases: List[WordsBase]):
        self.some_base, self.more_bases = some_base, more_bases


@harness('an object of depth up to 4 with attribute names of several words; dumped verbosely with any key transformer and '
         'loaded with snake case; strict or not; any ints', params=tuple(CASES))
def transformed(g):
    n = g.int('n')
    inner = g.choice('inner', (0, 1, 2, 3))
    kid = WordsKid(n)
    x = (kid, Words(kid, [kid]), WordsTyped(kid, [kid, WordsBase(2)]), {'some_key': Words(1, kid), 'k': [kid]})[inner]
    obj = Words(x, [Words(WordsKid(3), None)], Words(WordsTyped(WordsKid(4), []), 5))
    d = g.ok('dump', jsons.dump, obj, verbose=True, key_transformer=CASES[g.param])
    r = g.ok('load', jsons.load, d, key_transformer=CASES['snake'], strict=g.flag('strict'))
    g.same(r, obj, 'load')


@harness('a verbose dump with stripping options of an object tree with None, private and computed attributes; any ints')
def stripped(g):
    kw = {k: True for k in g.subset('options', ('strip_nulls', 'strip_privates', 'strip_properties',
                                                 'strip_class_variables'))}
    o = Loose(Loose(Kid(g.int('n'), None), None, None), [Kid(g.int('m'))], None)
    obj = Prop(o)
    d = g.ok('dump', jsons.dump, obj, verbose=True, **kw)
    plain = g.ok('dump', jsons.dump, obj, **kw)
    g.same(without_meta(d), plain, 'the dump without meta information')
    r = g.ok('load', jsons.load, d)
    g.check(r.__class__ is Prop, 'class', r)
    g.same(r.o, o, 'load')


class Prop:
    cv = 3

    def __init__(self, o):
        self.o = o
        self._p = 1

    @property
    def twice(self):
        return Base(4)
