"""C22: element errors name the failing element and tolerant loads skip only those."""
import warnings
from dataclasses import dataclass
from datetime import date, datetime
from typing import Deque, Dict, List, Optional, Sequence, Set, Tuple, Union

import jsons
from engine.api import harness


class Item:
    def __init__(self, my_n: int, opt: Optional[int] = None):
        self.my_n, self.opt = my_n, opt

    def __eq__(self, other):
        return self.__class__ is other.__class__ and (self.my_n == other.my_n) and self.opt == other.opt


class Bad:
    """Objects of which some cannot be dumped, nor shown."""

    def __init__(self, how):
        self.how = how

    def __repr__(self):
        raise RuntimeError('cannot be shown')

    def __format__(self, spec):
        raise RuntimeError('cannot be shown')


ERRORS = {'value': ValueError('no'), 'key': KeyError(), 'attribute': AttributeError('gone'), 'two': OSError(2, 'x'),
          'jsons': jsons.SerializationError('refused'), 'assert': AssertionError(), 'lookup': IndexError(3)}


def dump_bad(obj, **kwargs):
    raise ERRORS[obj.how]


def recorded(g, f, *args, **kwargs):
    """The outcome and the warnings of a call."""
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter('always')
        out = g.run(f, *args, **kwargs)
    return out, [str(w.message) for w in seen]


def numbers(text):
    """The numbers in a text, in order."""
    words = ''.join([c if c in '0123456789' else ' ' for c in text]).split()
    return [int(w) for w in words]


# Kinds of lists: the type, a good element, bad elements and what the good one is loaded as.
LISTS = {
    'int': (int, lambda n: n, ('x', None, [], {}), lambda n: n),
    'object': (Item, lambda n: {'my_n': n}, ({'opt': None}, {'my_n': 'x'}, None, []), lambda n: Item(n)),
    'optional': (Optional[int], lambda n: n, ('x', ['x']), lambda n: n),
    'union': (Union[int, Item], lambda n: {'my_n': n}, ('x', ['x'], {'opt': None}), lambda n: Item(n)),
    'date': (date, lambda n: '2020-02-03', ('x', '2020-02-3x', [], None), lambda n: date(2020, 2, 3)),
    'tuple': (Tuple[int, str], lambda n: [n, 'a'], (['a'], 'x', ['x', 'x']), lambda n: (n, 'a')),
    'dict': (Dict[str, int], lambda n: {'a': n}, ({'a': 'x'}, {'a': None}), lambda n: {'a': n}),
    'list': (List[int], lambda n: [n], (['x'], [[]], ), lambda n: [n]),
}
DRAWN = [(k, b) for k in LISTS for b in range(len(LISTS[k][2]))]


def elements(g, kind, bad, hi):
    t, good, bads, loaded = LISTS[kind]
    js, want, failing = [], [], []
    for k in range(g.len('len', hi)):
        if g.flag('bad %d' % k):
            js.append(bads[bad])
            failing.append(k)
        else:
            n = g.int('n%d' % k)
            js.append(good(n))
            want.append(loaded(n))
    return t, js, want, failing


def source_within(source, elem):
    """The source is the element or something in it."""
    if source is elem or source == elem:
        return True
    if isinstance(elem, dict):
        return len([1 for v in elem.values() if source_within(source, v)]) > 0
    if isinstance(elem, (list, tuple)):
        return len([1 for v in elem if source_within(source, v)]) > 0
    return False


@harness('lists of up to 4 (thorough: 6) elements of %d types, any subset of which is wrong in one of several ways; any ints; strict or '
         'not' % len(LISTS), params=DRAWN)
def errors(g):
    kind, bad = g.param
    t, js, want, failing = elements(g, kind, bad, g.b(4, 6))
    out, warned = recorded(g, jsons.load, js, List[t], strict=g.flag('strict'))
    if not failing:
        g.check(out.ok, 'fails', out.exc)
        g.same(out.value, want, 'load')
        return
    g.check(not out.ok, 'a wrong element is loaded', out.value)
    g.check(isinstance(out.exc, jsons.DeserializationError), 'not a deserialization error', out.exc)
    ns = numbers(out.exc.message)
    g.check(len(ns) > 0 and ns[0] == failing[0], 'the message does not name the index of the first wrong element', out.exc)
    g.check(source_within(out.exc.source, js[failing[0]]), 'another source', out.exc.source)
    if kind in ('int', 'date') and js[failing[0]] is not None:
        g.check(out.exc.target is t, 'another target', out.exc.target)
    g.check(out.exc.source is not js or js == [], 'the list is the source')
    g.check(warned == [], 'warns', warned)


@harness('as errors, with warn_on_fail', params=DRAWN)
def tolerant(g):
    kind, bad = g.param
    t, js, want, failing = elements(g, kind, bad, g.b(4, 6))
    cls = g.choice('cls', (List[t], Sequence[t])[:g.b(1, 2)])
    out, warned = recorded(g, jsons.load, js, cls, warn_on_fail=True, strict=g.flag('strict'))
    g.check(out.ok, 'fails', out.exc)
    g.same(out.value, want, 'load')
    g.check(len(warned) == len(failing), 'the number of warnings', warned)
    for k in range(len(warned)):
        ns = numbers(warned[k])
        g.check(len(ns) > 0 and ns[0] == failing[k], 'a warning does not name the index', warned[k])


@harness('lists as attributes, in lists, dicts, tuples and optional values, with up to 3 elements any of which is wrong; with and '
         'without warn_on_fail')
def nested(g):
    js, want, failing = [], [], []
    for k in range(g.len('len', 3)):
        if g.flag('bad %d' % k):
            js.append('x')
            failing.append(k)
        else:
            n = g.int('n%d' % k)
            js.append(n)
            want.append(n)
    where = g.choice('where', ('attr', 'list', 'dict', 'tuple', 'optional', 'deque', 'set'))
    doc, cls, take = {
        'attr': lambda: ({'xs': js, 'other': 'y'}, Holder, lambda r: r.xs),
        'list': lambda: ([[5], js], List[List[int]], lambda r: r[1]),
        'dict': lambda: ({'k': js}, Dict[str, List[int]], lambda r: r['k']),
        'tuple': lambda: (['y', js], Tuple[str, List[int]], lambda r: r[1]),
        'optional': lambda: (js, Optional[List[int]], lambda r: r),
        'deque': lambda: (js, Deque[int], list),
        'set': lambda: ([js], List[List[int]], lambda r: r[0]),
    }[where]()
    tol = g.flag('tolerant')
    if tol and where in ('list', 'set') and failing:
        # The outer list is the one that leaves elements out.
        out, warned = recorded(g, jsons.load, doc, cls, warn_on_fail=True)
        g.check(out.ok, 'fails', out.exc)
        g.same(out.value, doc[:-1], 'load')
        g.check(len(warned) == 1 and numbers(warned[0])[0] == len(doc) - 1, 'the warnings', warned)
        return
    out, warned = recorded(g, jsons.load, doc, cls, warn_on_fail=tol)
    if tol or not failing:
        g.check(out.ok, 'fails', out.exc)
        g.same(take(out.value), want, 'load')
        g.check(len(warned) == len(failing), 'the number of warnings', warned)
        for k in range(len(warned)):
            ns = numbers(warned[k])
            g.check(len(ns) > 0 and ns[0] == failing[k], 'a warning does not name the index', warned[k])
        return
    g.check(not out.ok, 'a wrong element is loaded', out.value)
    g.check(isinstance(out.exc, jsons.DeserializationError), 'not a deserialization error', out.exc)
    if where in ('attr', 'dict', 'list', 'set'):
        ns = numbers(out.exc.message)
        if where in ('list', 'set'):
            g.check(len(ns) > 0 and ns[0] == (1 if where == 'list' else 0), 'the outer index', out.exc)
            ns = ns[1:]
        g.check(len(ns) > 0 and ns[0] == failing[0], 'the message does not name the index', out.exc)


class Holder:
    def __init__(self, xs: List[int], other: str = 'z'):
        self.xs, self.other = xs, other


# -- attributes that cannot be dumped ----------------------------------------------------------------

class Plain:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class Hinted:
    def __init__(self, a: int, b: Optional[int], c: 'Item'):
        self.a, self.b, self.c = a, b, c


@dataclass
class Data:
    a: object
    b: object
    c: object = None


class Slots:
    __slots__ = 'a', 'b', 'c'

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class Props:
    def __init__(self, a, b, c):
        self._a, self._b, self.c = a, b, c

    @property
    def a(self):
        return self._a

    @property
    def b(self):
        return self._b


class ClassVars:
    a = None
    c = None

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


CLASSES = {'plain': Plain, 'data': Data, 'slots': Slots, 'props': Props, 'class vars': ClassVars}


def bad_value(g, how, where):
    bad = Bad(how)
    return {'itself': lambda: bad, 'list': lambda: [1, bad], 'tuple': lambda: (bad,), 'dict': lambda: {'k': bad}}[where]()


def fork_with_bad():
    inst = jsons.fork()
    jsons.set_serializer(dump_bad, Bad, fork_inst=inst)
    return inst


@harness('objects of five kinds of classes with three attributes, each of which may not be dumpable by itself or in a list, tuple or '
         'dict, for seven kinds of errors; any ints; lenient and strict, with options', params=tuple(CLASSES))
def attributes(g):
    cls = CLASSES[g.param]
    inst = fork_with_bad()
    how = g.choice('how', tuple(ERRORS))
    where = g.choice('where', ('itself', 'list', 'tuple', 'dict'))
    vals, want, failing = {}, {}, []
    for name in 'abc':
        if g.flag('bad ' + name):
            vals[name] = bad_value(g, how, where)
            failing.append(name)
        else:
            vals[name] = want[name] = g.int(name) if name == 'a' else {'b': None, 'c': [1]}[name]
    x = cls(**vals)
    if g.param == 'props':
        want.update([('_' + k, want[k]) for k in ('a', 'b') if k in want])
    opt = g.choice('options', ('none', 'nulls', 'transformer'))
    kw = {'none': {}, 'nulls': {'strip_nulls': True}, 'transformer': {'key_transformer': lambda k: k + '_'}}[opt]
    if opt == 'nulls':
        want = dict([(k, v) for k, v in want.items() if v is not None])
    if opt == 'transformer':
        want = dict([(k + '_', v) for k, v in want.items()])
    strict = g.flag('strict')
    out, warned = recorded(g, jsons.dump, x, strict=strict, fork_inst=inst, **kw)
    if strict and failing:
        g.check(not out.ok, 'a strict dump leaves attributes out', out.value)
        g.check(isinstance(out.exc, jsons.JsonsError), 'not a jsons error', out.exc)
        return
    g.check(out.ok, 'fails', out.exc)
    g.same(out.value, want, 'dump')
    if g.param != 'props':
        g.check(len(warned) == len(failing), 'the number of warnings', warned)
    else:
        g.check((len(warned) > 0) == (len(failing) > 0), 'the number of warnings', warned)


@harness('an object with an undumpable attribute as attribute, list element, dict value; the deepest attribute is left out; any int')
def nested_attributes(g):
    inst = fork_with_bad()
    n = g.int('n')
    inner = Plain(n, Bad('value'), 2)
    where = g.choice('where', ('attr', 'list', 'dict', 'tuple', 'attr of attr', 'attr list'))
    x, want = {
        'attr': lambda: (Plain(inner, 3, n), {'a': {'a': n, 'c': 2}, 'b': 3, 'c': n}),
        'list': lambda: ([inner, n], [{'a': n, 'c': 2}, n]),
        'dict': lambda: ({'k': inner, 'l': n}, {'k': {'a': n, 'c': 2}, 'l': n}),
        'tuple': lambda: ((inner, n), [{'a': n, 'c': 2}, n]),
        'attr of attr': lambda: (Plain(1, Plain(inner, 2, 3), 4), {'a': 1, 'b': {'a': {'a': n, 'c': 2}, 'b': 2, 'c': 3}, 'c': 4}),
        'attr list': lambda: (Plain([inner], 3, n), {'a': [{'a': n, 'c': 2}], 'b': 3, 'c': n}),
    }[where]()
    out, warned = recorded(g, jsons.dump, x, fork_inst=inst)
    g.check(out.ok, 'fails', out.exc)
    g.same(out.value, want, 'dump')
    g.check(len(warned) == 1, 'the number of warnings', warned)
    if where in ('list', 'tuple', 'attr list'):
        # Strictly, elements have only what their class declares.
        return
    out = g.run(jsons.dump, x, fork_inst=inst, strict=True)
    g.check(not out.ok and isinstance(out.exc, jsons.JsonsError), 'a strict dump leaves attributes out', out.value)


# -- suppression -------------------------------------------------------------------------------------

CODES = ('attribute-not-serialized', 'element-not-deserialized', 'datetime-without-tz', 'hashed-keys-without-hint', 'another')


class Late:
    def __init__(self):
        pass


def actions(inst, n):
    """Calls that warn with the codes, in order."""
    keys = {'-keys': {'1': [1, 2]}, '1': n}
    return [
        (lambda: jsons.dump(Plain(n, Bad('value'), 2), fork_inst=inst), 1),
        (lambda: jsons.load([n, 'x', 'y', 3], List[int], warn_on_fail=True, fork_inst=inst), 2),
        (lambda: jsons.dump(datetime(2020, 1, 2, 3), fork_inst=inst), 1),
        (lambda: jsons.load({'late': keys}, Late, fork_inst=inst), 1),
    ]


@harness('two suppressions in any order, of all warnings, none or one of five codes, in a fork or in another; four kinds of '
         'warnings; any int', params=(0, 1, 2, 3))
def suppression(g):
    """Exactly the suppressed warnings are not issued, and no result changes."""
    inst, other = fork_with_bad(), fork_with_bad()
    n = g.int('n')
    action, count = actions(inst, n)[g.param]
    plain, warned = recorded(g, action)
    g.check(len(warned) == count, 'the number of warnings', warned)
    everything, codes = False, set()
    for k in range(2):
        what = g.choice('what %d' % k, ('all', 'not all') + CODES)
        here = g.flag('here %d' % k)
        where = inst if here else other
        if what in ('all', 'not all'):
            jsons.suppress_warnings(what == 'all', where)
            everything = (what == 'all') if here else everything
        else:
            jsons.suppress_warning(what, where)
            codes |= {what} if here else set()
    out, warned = recorded(g, action)
    g.check(out.ok == plain.ok, 'suppression changes the outcome', out.exc)
    if plain.ok:
        g.same(out.value, plain.value, 'suppression changes the result')
    else:
        g.check(out.exc.__class__ is plain.exc.__class__, 'suppression changes the error', out.exc)
    silent = everything or CODES[g.param] in codes
    g.check(len(warned) == (0 if silent else count), 'the warnings that are issued', warned)
    later = fork_of(inst)
    out, warned = recorded(g, actions(later, n)[g.param][0])
    g.check(len(warned) == (0 if silent else count), 'the warnings that a fork issues', warned)


def fork_of(inst):
    return jsons.fork(inst)
