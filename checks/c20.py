"""C20: transform is dump, then the mapper, then load."""
import copy
from dataclasses import dataclass
from datetime import date
from typing import Dict, List, NamedTuple, Optional, Tuple, Union

import jsons
from engine.api import harness

CAMEL, SNAKE = jsons.KEY_TRANSFORMER_CAMELCASE, jsons.KEY_TRANSFORMER_SNAKECASE


class Base:
    my_n: int

    def __init__(self, my_n: int):
        self.my_n = my_n


class Source(Base):
    def __init__(self, my_n: int, opt_v: Optional[int] = None, parts=None):
        Base.__init__(self, my_n)
        self.opt_v, self._hidden, self.parts = opt_v, 3, parts


class Same:
    def __init__(self, my_n: int, opt_v: Optional[int] = 4, parts: Optional[List[Base]] = None):
        self.my_n, self.opt_v, self.parts = my_n, opt_v, parts


@dataclass
class Data:
    my_n: int
    opt_v: Optional[int] = 6


class Camel:
    def __init__(self, myN: int, optV: Optional[int] = 8):
        self.myN, self.optV = myN, optV


class Other:
    def __init__(self, other_n: int):
        self.other_n = other_n


class Named(NamedTuple):
    my_n: int
    opt_v: Optional[int] = 5


class Open:
    def __init__(self, **kwargs):
        self.n = kwargs


class Leaf:
    def __init__(self, n):
        self.n = n


TARGETS = (Same, Data, Camel, Other, Named, dict, Dict[str, int], Union[Other, Data], Optional[Same], None)

DUMP_OPTS = ({}, {'key_transformer': CAMEL}, {'strip_nulls': True, 'strip_privates': True}, {'strict': True},
             {'strip_attr': 'my_n'}, {'verbose': jsons.Verbosity.WITH_CLASS_INFO})
LOAD_OPTS = ({}, {'strict': True}, {'key_transformer': SNAKE}, {'attr_getters': {'my_n': lambda: 71, 'other_n': lambda: 72}},
             {'key_transformer': SNAKE, 'strict': True})


def source(g, small=False):
    n = g.int('n')
    kind = g.choice('source', ('plain', 'none', 'parts', 'data', 'dict'))
    if kind == 'plain':
        return Source(n, g.int('m'))
    if kind == 'none':
        return Source(n)
    if kind == 'parts':
        return Source(n, 1, [Base(n), Base(2)])
    if kind == 'data':
        return Data(n, 2)
    return {'my_n': n, 'opt_v': None}


def attempt(g, a, b, what):
    g.check(a.ok == b.ok, what + ': differs in success', a.exc, b.exc)
    if a.ok:
        g.same(a.value, b.value, what)
    else:
        g.check(a.exc.__class__ is b.exc.__class__, what + ': another error', a.exc, b.exc)
        g.check(str(a.exc) == str(b.exc), what + ': another message', a.exc, b.exc)


class Stop(Exception):
    pass


def composed(obj, cls, mapper, dump_cls, dump_kwargs, load_kwargs):
    js = jsons.dump(obj, dump_cls, **dump_kwargs)
    if mapper is not None:
        js = mapper(js)
    return jsons.load(js, cls, **load_kwargs)


def rename(js):
    return {'other_n': js['my_n']} if 'my_n' in js else js


def raising(js):
    raise Stop('no')


def constant(js):
    return {'my_n': 5, 'opt_v': 7, 'myN': 9}


def changing(js):
    """Changes the dump in place."""
    if 'my_n' in js:
        js['my_n'] = js['my_n'] + 1
    js.pop('parts', None)
    return js


def nothing(js):
    return None


def wrapping(js):
    return [js, js]


MAPPERS = {'none': None, 'rename': rename, 'raising': raising, 'constant': constant, 'changing': changing,
           'nothing': nothing}


@harness('objects, data and dicts with any ints; ten targets; six mappers; six combinations of dump options and five of '
         'load options', params=[(k, m) for k in range(len(TARGETS)) for m in MAPPERS])
def composition(g):
    cls, name = TARGETS[g.param[0]], g.param[1]
    mapper = MAPPERS[name]
    obj = source(g)
    before = copy.deepcopy(obj)
    dump_kwargs = g.choice('dump', DUMP_OPTS if g.tier == 'thorough' or name in ('none', 'changing') else DUMP_OPTS[:2])
    load_kwargs = g.choice('load', LOAD_OPTS if g.tier == 'thorough' or name in ('none', 'rename') else LOAD_OPTS[:2])
    dump_cls = g.choice('dump class', (None, Base)) if isinstance(obj, Source) else None
    want = g.run(composed, obj, cls, mapper, dump_cls, dump_kwargs, load_kwargs)
    calls = []

    def counted(js):
        calls.append(js)
        return mapper(js)

    kw = dict(load_kwargs)
    if mapper is not None:
        kw['mapper'] = counted
    if dump_cls is not None:
        kw['dump_cls'] = dump_cls
    if dump_kwargs:
        kw['dump_kwargs'] = dump_kwargs
    out = g.run(jsons.transform, obj, cls, **kw)
    attempt(g, out, want, 'transform')
    if mapper is not None and (out.ok or isinstance(out.exc, Stop)):
        g.check(len(calls) == 1, 'the mapper is not called once')
    if out.ok and cls in (Same, Data, Camel, Other, Named):
        g.check(isinstance(out.value, cls), 'not an instance of the target', out.value)
    g.same(obj, before, 'the object is changed')


@harness('objects with any ints; serializers, deserializers and validators of the dump and of the load configuration; '
         'either one given or not')
def forks(g):
    """The load options do not reach the dump nor the dump options the load."""
    n, limit = g.int('n'), g.int('limit')
    one, two = jsons.fork(), jsons.fork()
    jsons.set_serializer(lambda obj, **kw: {'my_n': obj.n}, Leaf, fork_inst=one)
    jsons.set_deserializer(lambda obj, cls=None, **kw: Data(obj['my_n'], 1), Data, fork_inst=one)
    jsons.set_deserializer(lambda obj, cls=None, **kw: Data(obj.get('my_n', 50), 2), Data, fork_inst=two)
    jsons.set_serializer(lambda obj, **kw: {}, Leaf, fork_inst=two)
    jsons.set_validator(lambda d: d.my_n > limit, Data, fork_inst=two)
    a, b = g.flag('dump fork'), g.flag('load fork')
    kw = {'fork_inst': two} if b else {}
    if a:
        kw['dump_kwargs'] = {'fork_inst': one}
    mapper = g.flag('mapper')
    if mapper:
        kw['mapper'] = lambda js: js if a else {'my_n': js['n']}
    out = g.run(jsons.transform, Leaf(n), Data, **kw)
    key = a or mapper
    if not key and not b:
        g.check(not out.ok and isinstance(out.exc, jsons.UnfulfilledArgumentError), 'the dump options come from the load', out.value)
        return
    value = n if key else 50
    if b and not value > limit:
        g.check(isinstance(out.exc, jsons.ValidationError), 'not validated', out.exc)
        return
    g.check(out.ok, 'fails', out.exc)
    g.same(out.value, Data(value, 2 if b else 6), 'transform')


@harness('lists, tuples, dicts and nested objects as a whole; any ints', params=('list', 'dict', 'tuple', 'int', 'date', 'none'))
def other_values(g):
    n = g.int('n')
    obj, cls, want = {
        'list': lambda: ([Base(n), Base(2)], List[Data], [Data(n, 6), Data(2, 6)]),
        'dict': lambda: ({'k': Base(n)}, Dict[str, Data], {'k': Data(n, 6)}),
        'tuple': lambda: ((Base(n), n), Tuple[Data, int], (Data(n, 6), n)),
        'int': lambda: (n, int, n),
        'date': lambda: (date(2020, 2, 3), date, date(2020, 2, 3)),
        'none': lambda: (None, Optional[Data], None),
    }[g.param]()
    g.same(g.ok('transform', jsons.transform, obj, cls), want, 'transform')
    seen = []

    def mapper(js):
        seen.append(js)
        return wrapping(js)

    g.same(g.ok('transform', jsons.transform, obj, List[cls], mapper=mapper), [want, want], 'transform with mapper')
    g.same(seen, [jsons.dump(obj)], 'what the mapper is given')


class FalsyMapper:
    """A mapper that is false as a condition."""

    def __init__(self):
        self.calls = 0

    def __len__(self):
        return 0

    def __call__(self, js):
        self.calls += 1
        return {'my_n': js['my_n'], 'opt_v': self.calls}


@harness('mappers that are callable instances, also false ones, classes and bound methods; results that are false; any int')
def mappers(g):
    n = g.int('n')
    kind = g.choice('kind', ('falsy', 'class', 'method', 'empty', 'zero', 'false'))
    if kind == 'falsy':
        m = FalsyMapper()
        g.same(g.ok('transform', jsons.transform, Source(n), Data, mapper=m), Data(n, 1), 'transform')
        g.check(m.calls == 1, 'the mapper is not called once')
    elif kind == 'class':
        g.same(g.ok('transform', jsons.transform, Source(n), dict, mapper=dict, dump_cls=Base, dump_kwargs={'strict': True}),
               {'my_n': n}, 'transform')
    elif kind == 'method':
        extra = {'my_n': n}
        g.same(g.ok('transform', jsons.transform, Source(1), Data, mapper=lambda js: extra), Data(n, 6), 'transform')
        g.same(extra, {'my_n': n}, 'what the mapper returned is changed')
    elif kind == 'empty':
        out = g.run(jsons.transform, Source(n), Data, mapper=lambda js: {})
        g.check(not out.ok and isinstance(out.exc, jsons.UnfulfilledArgumentError), 'an empty result is replaced', out.value)
    elif kind == 'zero':
        g.same(g.ok('transform', jsons.transform, Source(n), int, mapper=lambda js: 0), 0, 'transform')
    else:
        g.same(g.ok('transform', jsons.transform, Source(n), bool, mapper=lambda js: False), False, 'transform')
