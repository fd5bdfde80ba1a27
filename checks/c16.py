"""C16: dumping and loading never change their input and are deterministic."""
from collections import OrderedDict, defaultdict, deque
from dataclasses import dataclass, field
from datetime import datetime
from typing import Any, DefaultDict, Deque, Dict, FrozenSet, List, NamedTuple, Optional, Set, Tuple, Union

import jsons
from checks import shapes, spec
from engine.api import harness, state_of


class Refuses:
    """Cannot be dumped: this attribute's getter fails."""

    def __init__(self):
        self.items = [1]

    @property
    def bad(self):
        raise ValueError('no')


class BadSet:
    """An attribute of this cannot be dumped as it is typed."""
    a: int
    b: List[int]

    def __init__(self, a, b):
        self.a, self.b = a, b


class A:
    shared = [1, {'k': [2]}]

    def __init__(self, x: int, items: Optional[List[int]] = None, by: Optional[Dict[str, int]] = None, any_=None):
        self.x, self.items, self.by, self.any_ = x, items, by, any_


class Kid(A):
    def __init__(self, x: int, items: Optional[List[int]] = None, by: Optional[Dict[str, int]] = None, any_=None, y=0):
        super().__init__(x, items, by, any_)
        self.y = y


@dataclass
class D:
    a: A
    many: List[A]
    pair: Tuple[A, int]
    opt: Optional['D'] = None
    u: Union[int, List[int]] = 3


class N(NamedTuple):
    f: int
    g: List[int]
    h: Dict[str, A] = {}


class S:
    __slots__ = ('p', 'q')

    def __init__(self, p: int, q: List[int]):
        self.p, self.q = p, q


class Key:
    def __init__(self, n: int):
        self.n = n

    def __hash__(self):
        return 7

    def __eq__(self, other):
        return self.n == other.n


class Sets:
    def __init__(self, s: Set[int], f: FrozenSet[int], d: Deque[int], o: dict, dd: DefaultDict[str, List[int]]):
        self.s, self.f, self.d, self.o, self.dd = s, f, d, o, dd


# -- snapshots ---------------------------------------------------------------------------------------

def snap(x, depth=0):
    """x and all that it holds: containers by identity, everything else by value."""
    cls = x.__class__
    if depth > 12:
        return (x, 'deep', None)
    if issubclass(cls, dict):
        return (x, 'dict', [(k, snap(v, depth + 1)) for k, v in x.items()])
    if issubclass(cls, (list, tuple, deque, set, frozenset)):
        return (x, 'seq', [snap(v, depth + 1) for v in x])
    if cls.__module__.startswith('checks') and not isinstance(x, type) and not callable(x):
        return (x, 'obj', [(k, snap(v, depth + 1)) for k, v in (state_of(x) or {}).items()])
    return (x, 'leaf', None)


def unchanged(g, s, what):
    x, kind, parts = s
    if kind == 'leaf' or kind == 'deep':
        return
    if kind == 'obj':
        now = list((state_of(x) or {}).items())
    else:
        now = list(x.items()) if kind == 'dict' else list(x)
    g.check(len(now) == len(parts), what + ' has more or fewer elements than before', x)
    for new, old in zip(now, parts):
        if kind != 'seq':
            g.check(new[0] is old[0] or new[0] == old[0], what + ' has other keys or attributes', x)
            new, old = new[1], old[1]
        was = old[0]
        if old[1] == 'leaf':
            g.check(new is was or (new.__class__ is was.__class__ and (new == was or new != new)), what + ' has another value',
                    new, was)
        else:
            g.check(new is was, what + ' holds something else', new, was)
            unchanged(g, old, what)


def containers(x, depth=0):
    cls = x.__class__
    if depth > 12:
        return []
    if issubclass(cls, dict):
        return [x] + [c for v in x.values() for c in containers(v, depth + 1)]
    if issubclass(cls, (list, deque, set)):
        return [x] + [c for v in x for c in containers(v, depth + 1)]
    if issubclass(cls, (tuple, frozenset)):
        return [c for v in x for c in containers(v, depth + 1)]
    if cls.__module__.startswith('checks') and not isinstance(x, type) and not callable(x):
        own = [x.__dict__] if hasattr(x, '__dict__') else []
        values = [getattr(x, k) for k in (state_of(x) or {})] + [v for k, v in vars(cls).items()
                                                                 if isinstance(v, (list, dict))]
        return own + [c for v in values for c in containers(v, depth + 1)]
    return []


def timeless(js):
    """Without the time of the dump."""
    if isinstance(js, dict):
        return {k: timeless(v) for k, v in js.items() if k != 'dump_time'}
    return [timeless(v) for v in js] if isinstance(js, list) else js


# -- what is dumped and loaded -----------------------------------------------------------------------

def a_obj(g, n):
    items = None if g.flag(n + '.none') else [g.int(n + '.i'), 2]
    return A(g.int(n), items, {'k': g.int(n + '.k')}, [[1], {'in': [3]}])


def o_a(g, n):
    return a_obj(g, n), A


def o_kid(g, n):
    return Kid(g.int(n), [1], None, a_obj(g, n + 'a'), {'y': [4]}), Kid


def o_d(g, n):
    a = a_obj(g, n + '.a')
    inner = D(A(1), [], (A(2), 3))
    return D(a, [a, A(g.int(n + '.b'), [])], (A(3, [5]), 6), inner if g.flag(n + '.in') else None, [g.int(n + '.u')]), D


def o_list(g, n):
    return [[g.int(n + '.0'), None], {'a': [g.int(n + '.1')], 'b': {}}, (1, [2]), A(3, [4])], list


def o_dict(g, n):
    return {'a': [g.int(n + '.0'), {'x': None}], 'b': None, 1: {2: [3]}, 'c': A(g.int(n + '.1'), [1], {'z': 1})}, dict


def o_keys(g, n):
    return {Key(g.int(n)): [1], (1, 2): {'x': [g.int(n + '.v')]}, 'plain': []}, dict


def o_named(g, n):
    return N(g.int(n), [g.int(n + '.g')], {'k': A(1, [2])}), N


def o_slots(g, n):
    return S(g.int(n), [g.int(n + '.q'), 2]), S


def o_sets(g, n):
    dd = defaultdict(list, {'k': [g.int(n)]})
    return Sets({1, 2}, frozenset({3}), deque([g.int(n + '.d')]), OrderedDict([('z', [1]), ('a', 2)]), dd), Sets


def o_bad(g, n):
    return [A(g.int(n), [1]), Refuses()], list


def o_bad_attr(g, n):
    return BadSet([g.int(n)], [1, [2]]), BadSet


def o_spec(g, n):
    kinds = (g.choice(n + '.outer', spec.KINDS), g.choice(n + '.inner', ('bare', 'list')[:g.b(1, 2)]))
    v = spec.pattern_tree(g, n, kinds).v
    return v, v.__class__


OBJECTS = {'a': o_a, 'kid': o_kid, 'd': o_d, 'list': o_list, 'dict': o_dict, 'keys': o_keys, 'named': o_named,
           'slots': o_slots, 'sets': o_sets, 'bad': o_bad, 'bad attr': o_bad_attr, 'spec': o_spec}

DUMPS = ({}, {'strict': True}, {'strip_nulls': True, 'strip_privates': True}, {'verbose': True},
         {'key_transformer': jsons.KEY_TRANSFORMER_CAMELCASE, 'strip_properties': True},
         {'strip_attr': ['x', 'f'], 'strip_class_variables': True},
         {'strict': True, 'strip_attr': ['x'], 'strip_nulls': True},
         {'verbose': jsons.Verbosity.WITH_CLASS_INFO, 'strict': True})


@harness('objects of every kind, also some that cannot be dumped, any ints; several sets of options, with and without the '
         'class, strict or not', params=tuple(OBJECTS))
def dumped(g):
    obj, cls = OBJECTS[g.param](g, 'o')
    kw = dict(g.choice('options', DUMPS))
    if g.flag('class'):
        kw['cls'] = cls
    if 'strip_attr' in kw:
        kw['strip_attr'] = list(kw['strip_attr'])
    before, opts = snap(obj), snap(kw)
    statics = snap(A.shared)
    out = g.run(jsons.dump, obj, **kw)
    unchanged(g, before, 'the dumped object')
    unchanged(g, opts, 'the options')
    unchanged(g, statics, 'the class of the dumped object')
    if out.ok:
        inside = containers(obj) + containers(kw)
        for c in containers(out.value):
            g.check(not any(c is d for d in inside), 'the dump shares a container with the dumped object', c)
    again = g.run(jsons.dump, obj, **kw)
    g.check(again.ok == out.ok, 'the second dump differs in success', out.exc, again.exc)
    if out.ok:
        g.same(timeless(again.value), timeless(out.value), 'the second dump')
        for c in containers(again.value):
            g.check(not any(c is d for d in containers(out.value)), 'two dumps share a container', c)


@harness('every shape of value (containers, dataclasses, attrs, slots, named tuples ...), any values',
         params=shapes.CONTAINERS_ALL + shapes.OBJECTS_ALL)
def shaped(g):
    """Dump and load leave every kind of value as it was."""
    v = g.param.build(g, 'v')
    before = snap(v)
    js = g.ok('dump', jsons.dump, v)
    unchanged(g, before, 'the dumped value')
    for c in containers(js):
        g.check(not any(c is d for d in containers(v)), 'the dump shares a container with the dumped object', c)
    s = snap(js)
    r = g.run(jsons.load, js, g.param.cls)
    unchanged(g, s, 'the loaded JSON value')
    again = g.run(jsons.load, js, g.param.cls)
    unchanged(g, s, 'the JSON value loaded twice')
    g.check(r.ok == again.ok, 'the second load differs in success', r.exc, again.exc)
    if r.ok:
        g.same(again.value, r.value, 'the second load')


# -- JSON values -------------------------------------------------------------------------------------

HERE = __name__


def j_a(g, n):
    return {'x': g.int(n), 'items': [1, g.int(n + '.i')], 'by': {'k': 1}, 'any_': {'z': [1, None]}}, A


def j_loose(g, n):
    return {'x': 1, 'items': None, 'any_': [[g.int(n)], {'a': {}}], 'extra': {'more': [1]}, 'late': [g.int(n + '.l')]}, A


def j_missing(g, n):
    return {'items': [g.int(n)], 'by': {'k': 2}}, A


def j_wrong(g, n):
    return {'x': {'no': 1}, 'items': [g.int(n), 'x', [2]], 'by': 5}, A


def j_deep_wrong(g, n):
    a, _ = j_a(g, n)
    return {'a': a, 'many': [a, {'x': 'no', 'items': [1]}], 'pair': [a, 1]}, D


def j_d(g, n):
    a, _ = j_a(g, n)
    b = {'x': 1}
    return {'a': a, 'many': [b, a], 'pair': [b, 2], 'opt': {'a': b, 'many': [], 'pair': [a, 1]}, 'u': [g.int(n + '.u')]}, D


def j_meta(g, n):
    meta = {'classes': {'/': HERE + '.D', '/a': HERE + '.Kid', '/many': None}}
    return {'-meta': meta, 'a': {'x': g.int(n), 'y': 2}, 'many': [{'-meta': {'classes': {'/': HERE + '.A'}}, 'x': 4}],
            'pair': [{'x': 1}, 1]}, None


def j_meta_wrong(g, n):
    return {'-meta': {'classes': {'/': 'nowhere.Nothing', '/a': 'x'}}, 'a': {'x': g.int(n)}}, None


def j_keys(g, n):
    return {'-keys': {'5': {'n': g.int(n)}, '6': {'n': 2}}, '5': [1, {}], '6': []}, Dict[Key, list]


def j_keys_wrong(g, n):
    return {'-keys': {'5': {'n': g.int(n)}, '6': {'m': []}}, '5': [1, {}], '6': []}, Dict[Key, list]


def j_bare(g, n):
    return [{'a': [g.int(n), None]}, {'2020-01-01': '2020-01-01T00:00:00Z'}, [[], {}]], None


def j_typed(g, n):
    return {'k': [[g.int(n), 2], [3, 4]], 'l': []}, Dict[str, List[Tuple[int, int]]]


def j_named(g, n):
    return [{'f': g.int(n), 'g': [1, 2]}, [2, [g.int(n + '.2')], {'k': {'x': 2}}]], List[N]


def j_set(g, n):
    return {'s': [1, 2], 'f': [3, 4], 'd': [g.int(n)], 'o': {'b': [1], 'a': {}}, 'dd': {'k': [1]}}, Sets


def j_union(g, n):
    return [{'x': g.int(n), 'items': [1], 'by': {'k': []}}, {'f': 1, 'g': [2]}], List[Union[datetime, A, N, Dict[str, Any]]]


def j_any(g, n):
    return {'k': [g.int(n), {'z': [1]}]}, Dict[str, Any]


JSON = {'a': j_a, 'loose': j_loose, 'missing': j_missing, 'wrong': j_wrong, 'deep wrong': j_deep_wrong, 'd': j_d,
        'meta': j_meta, 'meta wrong': j_meta_wrong, 'keys': j_keys, 'keys wrong': j_keys_wrong, 'bare': j_bare,
        'typed': j_typed, 'named': j_named, 'set': j_set, 'union': j_union, 'any': j_any}

LOADS = ({}, {'strict': True}, {'key_transformer': jsons.KEY_TRANSFORMER_SNAKECASE},
         {'attr_getters': {'x': lambda: 5, 'late': lambda: 6, 'extra2': lambda: 7}},
         {'strict': True, 'attr_getters': {'x': lambda: 5}}, {'warn_on_fail': True},
         {'strict': True, 'key_transformer': jsons.KEY_TRANSFORMER_LISPCASE})


@harness('JSON values for classes and containers, also some that cannot be loaded, any ints; several sets of options',
         params=tuple(JSON))
def loaded(g):
    js, cls = JSON[g.param](g, 'j')
    kw = dict(g.choice('options', LOADS))
    if 'attr_getters' in kw:
        kw['attr_getters'] = dict(kw['attr_getters'])
    before, opts = snap(js), snap(kw)
    out = g.run(jsons.load, js, cls, **kw)
    unchanged(g, before, 'the loaded JSON value')
    unchanged(g, opts, 'the options')
    again = g.run(jsons.load, js, cls, **kw)
    unchanged(g, before, 'the JSON value loaded twice')
    g.check(again.ok == out.ok, 'the second load differs in success', out.exc, again.exc)
    if out.ok:
        g.same(again.value, out.value, 'the second load')
    else:
        g.check(again.exc.__class__ is out.exc.__class__, 'the second load fails differently', out.exc, again.exc)


@harness('text and bytes with options for json itself; a few ints')
def as_text(g):
    v = g.choice('v', (0, 5))
    obj = A(v, [1], {'b': 1, 'a': v})
    jd = {'indent': 2, 'sort_keys': True}
    before, opts = snap(obj), snap(jd)
    first = None
    for k in range(2):
        s = g.ok('dumps', jsons.dumps, obj, jdkwargs=jd)
        b = g.ok('dumpb', jsons.dumpb, obj, jdkwargs=jd)
        r = g.ok('loads', jsons.loads, s, A)
        g.check(first is None or first == (s, b), 'the second dump differs')
        first = (s, b)
        unchanged(g, before, 'the dumped object')
        unchanged(g, opts, 'the options')
        g.same(r.by, obj.by, 'load')
    jd = {'parse_int': int}
    opts = snap(jd)
    for k in range(2):
        g.ok('loads', jsons.loads, s, A, jdkwargs=jd)
        g.ok('loadb', jsons.loadb, b, A, jdkwargs=jd)
        unchanged(g, opts, 'the options')


# -- histories ---------------------------------------------------------------------------------------

def _twin():
    """Another class with the name of A, with other attributes."""
    class A:
        def __init__(self, x: str, other: int = 1):
            self.x, self.other = x, other
    A.__qualname__ = 'A'
    return A


TWIN = _twin()
TWIN.__module__ = __name__


class ADataTwin:
    x: int
    _y: int = 2

    def __init__(self, x: int = 0):
        self.x = x


OPS = {
    'dump': lambda: jsons.dump(A(1, [2], {'k': 3}, A(2))),
    'dump strict': lambda: jsons.dump(A(1, [2], {'k': 3}), A, strict=True),
    'dump kid as parent': lambda: jsons.dump(Kid(1, y=5), A, strict=True),
    'dump stripped': lambda: jsons.dump(A(1), strip_nulls=True, strip_class_variables=True, strip_attr='x',
                                        strip_privates=True, strip_properties=True),
    'dump verbose': lambda: jsons.dump([D(Kid(1), [A(2)], (A(3), 4))], verbose=jsons.Verbosity.WITH_CLASS_INFO),
    'dump keys': lambda: jsons.dump({(1, 2): [1], 'k': A(1)}, key_transformer=jsons.KEY_TRANSFORMER_PASCALCASE),
    'dump fails': lambda: jsons.dump([A(1), Refuses()]),
    'dump fails inside': lambda: jsons.dump(BadSet([1], 5)),
    'dump strict fails': lambda: jsons.dump(BadSet([1], 5), strict=True),
    'load': lambda: jsons.load({'x': 1, 'items': [1], 'by': {'k': 1}}, A),
    'load strict': lambda: jsons.load({'x': 1, 'items': [1]}, A, strict=True),
    'load extra': lambda: jsons.load({'x': 1, 'late': '2020-01-01T00:00:00Z'}, A),
    'load extra strict': lambda: jsons.load({'x': 1, 'late': 2}, A, strict=True),
    'load nested': lambda: jsons.load({'a': {'x': 1}, 'many': [{'x': 2}], 'pair': [{'x': 3}, 4]}, D),
    'load fails': lambda: jsons.load({'items': [1]}, A),
    'load fails inside': lambda: jsons.load([{'x': 1}, {'x': 'no'}], List[A]),
    'load meta': lambda: jsons.load({'x': 1, '-meta': {'classes': {'/': HERE + '.Kid'}}}),
    'load meta fails': lambda: jsons.load({'x': 1, '-meta': {'classes': {'/': HERE + '.Nobody'}}}),
    'load twin': lambda: jsons.load({'x': 'text', 'other': 4}, TWIN),
    'dump twin': lambda: jsons.dump(TWIN('text'), strict=True),
    'load union': lambda: jsons.load([1, {'x': 1}, 'text'], List[Union[int, A, str]]),
    'load by name': lambda: jsons.load({'x': 1}, HERE + '.A'),
    'load text': lambda: jsons.loads('{"x": 1, "by": {"a": 2}}', A),
    'load bad text': lambda: jsons.loads('{"x": 1,', A),
    'load named': lambda: jsons.load([[1, [2]], {'f': 1, 'g': []}], List[N]),
    'load untyped': lambda: jsons.load({'a': ['2020-01-01T00:00:00Z', 1]}),
}


@harness('every ordered pair of %d operations that succeed or fail (also of two classes with the same name); the first is '
         'repeated after the second, with the real caches' % len(OPS), params=tuple(OPS))
def repeated(g):
    op = OPS[g.param]
    others = g.choice('other', tuple(OPS))
    first = g.run(op)
    g.run(OPS[others])
    if g.tier == 'thorough':
        g.run(OPS[g.choice('another', tuple(OPS)[::4])])
    again = g.run(op)
    g.check(first.ok == again.ok, 'the repeated operation differs in success', first.exc, again.exc)
    if first.ok:
        g.same(again.value, first.value, 'the repeated operation')
    else:
        g.check(first.exc.__class__ is again.exc.__class__ and str(first.exc) == str(again.exc),
                'the repeated operation fails differently', first.exc, again.exc)


@harness('an object of any ints, dumped and loaded before and after any one of %d other operations' % len(OPS))
def after_others(g):
    x, y = g.int('x'), g.int('y')
    obj = Kid(x, [y], {'k': x}, [A(y)], {'z': [y]})
    js = {'a': {'x': x, 'items': [y]}, 'many': [{'x': y}], 'pair': [{'x': 1, 'any_': {'q': y}}, x]}
    d1, l1 = g.ok('dump', jsons.dump, obj), g.ok('load', jsons.load, js, D)
    g.run(OPS[g.choice('other', tuple(OPS))])
    d2, l2 = g.ok('dump', jsons.dump, obj), g.ok('load', jsons.load, js, D)
    g.same(d2, d1, 'the second dump')
    g.same(l2, l1, 'the second load')
