"""C11: forks are isolated from their origin and from each other."""
import warnings
from collections import deque
from dataclasses import dataclass
from typing import Any, DefaultDict, Deque, Dict, Iterable, List, NamedTuple, Optional, Set, Tuple, Union

import jsons
from engine.api import harness

CODE = 'attribute-not-serialized'


class A:
    def __init__(self, n: int):
        self.n = n


class AKid(A):
    pass


class Named(NamedTuple):
    f: A
    g: Optional[A]


@dataclass
class Holds:
    a: A
    o: Optional[A]
    u: Union[int, A]


class Loose:
    def __init__(self, a):
        self.a = a


class Thing:
    def __init__(self, n: int):
        self.n = n


class Unhappy:
    """An attribute of this cannot be dumped."""

    def __init__(self):
        self.bad = Refuses()
        self.good = 1


class Refuses:
    pass


def refuse(obj, **kw):
    raise ValueError('no')


class Loaded:
    def __init__(self, tag, n):
        self.tag, self.n = tag, n


class Conf:
    """The model: what has been configured in an instance."""

    def __init__(self, other=None):
        self.ser = other.ser if other else None
        self.des = other.des if other else None
        self.limit = other.limit if other else None
        self.names = dict(other.names) if other else {}
        self.quiet = other.quiet if other else False
        self.codes = set(other.codes) if other else set()


OPS = ('ser', 'des', 'val', 'announce', 'quiet', 'code')


def act(g, op, inst, conf, k):
    """Configure something in one instance."""
    if op == 'ser':
        jsons.set_serializer(lambda obj, **kw: {'s': k, 'n': obj.n}, A, g.flag('high %d' % k) if g.tier == 'thorough' else True, inst)
        conf.ser = k
    elif op == 'des':
        jsons.set_deserializer(lambda obj, cls=None, **kw: Loaded(k, obj['n']), A, fork_inst=inst)
        conf.des = k
    elif op == 'val':
        limit = g.int('limit %d' % k)
        jsons.set_validator(lambda obj: obj.n > limit, [A] if k else A, fork_inst=inst)
        conf.limit = limit
    elif op == 'announce':
        name = 'name%d' % (k % 2)
        cls = A if k == 0 else Thing
        jsons.announce_class(cls, name, inst)
        conf.names[name] = cls
    elif op == 'quiet':
        on = g.flag('on %d' % k)
        jsons.suppress_warnings(on, inst)
        conf.quiet = on
    else:
        jsons.suppress_warning(CODE, inst)
        conf.codes.add(CODE)


def observe(g, inst, conf, n, ops):
    """Everything that can be seen of a configuration is as the model says."""
    kw = {'fork_inst': inst}
    if 'ser' in ops:
        observe_dumps(g, conf, n, kw)
    if 'des' in ops or 'val' in ops or 'announce' in ops:
        observe_loads(g, conf, n, kw)
    if 'announce' in ops:
        observe_names(g, conf, n, kw)
    if 'quiet' in ops or 'code' in ops:
        observe_warnings(g, conf, n, kw)


def observe_dumps(g, conf, n, kw):
    part = {'n': n} if conf.ser is None else {'s': conf.ser, 'n': n}
    g.same(g.ok('dump', jsons.dump, A(n), **kw), part, 'dump')
    g.same(g.ok('dump', jsons.dump, [{'k': Loose(A(n))}], **kw), [{'k': {'a': part}}], 'dump inside')


def observe_loads(g, conf, n, kw):
    valid = conf.limit is None or n > conf.limit
    for what in ('top', 'inside'):
        out = g.run(jsons.load, {'n': n}, A, **kw) if what == 'top' else g.run(jsons.load, {'a': {'n': n}, 'o': None, 'u': 1}, Holds, **kw)
        if not valid:
            g.check(not out.ok and isinstance(out.exc, jsons.ValidationError), 'a rejected value is loaded', out.value, out.exc)
            continue
        g.check(out.ok, 'load fails', out.exc)
        r = out.value if what == 'top' else out.value.a
        g.check(r.__class__ is (A if conf.des is None else Loaded), 'load: wrong deserializer', r)
        g.check(r.n == n, 'load: value')
        if conf.des is not None:
            g.check(r.tag == conf.des, 'load: another deserializer', r.tag)


def observe_names(g, conf, n, kw):
    valid = conf.limit is None or n > conf.limit
    for name in ('name0', 'name1'):
        out = g.run(jsons.load, {'n': n}, name, **kw)
        if name not in conf.names:
            g.check(not out.ok and isinstance(out.exc, jsons.exceptions.UnknownClassError), 'a name that was never announced here is known', out.value, out.exc)
        elif conf.names[name] is Thing:
            g.check(out.ok and out.value.__class__ is Thing, 'announced class', out.value, out.exc)
        elif valid:
            g.check(out.ok and out.value.__class__ is (A if conf.des is None else Loaded), 'announced class', out.value, out.exc)


def observe_warnings(g, conf, n, kw):
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        g.same(g.ok('dump', jsons.dump, Unhappy(), **kw), {'good': 1}, 'lenient dump')
    count = sum(1 for w in caught if CODE in str(w.message))
    g.check(count == (0 if conf.quiet or conf.codes else 1), 'warnings issued', count)


def new_fork(g, name, origin):
    if name == 'fork0' if g.tier == 'quick' else g.flag(name + ' method'):
        return origin.fork()
    return jsons.fork(origin, g.choice(name + '.name', (None, 'Custom')) if g.tier == 'thorough' else None)


@harness('every history of 2 settings (3 in thorough), each of 6 kinds, on any of: the origin, a fork of it, a fork of that fork; the forks are made '
         'before, between or after; all observed on all three', params=OPS, timeout=(150, 1700))
def settings(g):
    n = g.int('n')
    jsons.set_serializer(refuse, Refuses)
    origin = jsons.JsonSerializable
    insts, confs = [origin], [Conf()]
    steps = g.b(2, 3)
    used = []
    when = (g.len('first fork', steps), g.len('second fork', steps))
    g.assume(when[0] <= when[1])
    parent = g.flag('fork of the fork')
    for k in range(steps + 1):
        for j in (0, 1):
            if when[j] == k:
                of = 1 if j == 1 and parent else 0
                insts.append(new_fork(g, 'fork%d' % j, insts[of]))
                confs.append(Conf(confs[of]))
        if k == steps:
            break
        op = g.param if k == 0 else g.choice('op%d' % k, OPS)
        t = g.choice('target%d' % k, tuple(range(len(insts))))
        if g.tier == 'thorough' and g.flag('used%d' % k):
            g.run(jsons.dump, [Loose(A(n))], fork_inst=insts[t])
            g.run(jsons.load, {'a': {'n': n}, 'o': None, 'u': 1}, Holds, fork_inst=insts[-1])
        act(g, op, insts[t], confs[t], k)
        used.append(op)
    for inst, conf in zip(insts, confs):
        observe(g, inst, conf, n, used if g.tier == 'quick' else OPS)


# -- a fork is used at every nesting level -----------------------------------------------------------

def no_hash_cls():
    pass


DUMPS = {
    'list': (lambda a: [a], None, lambda p: [p]),
    'typed list': (lambda a: [a], List[A], lambda p: [p]),
    'lists': (lambda a: [[a], []], List[List[A]], lambda p: [[p], []]),
    'tuple': (lambda a: (a, 1), Tuple[A, int], lambda p: [p, 1]),
    'tuples': (lambda a: (a, a), Tuple[A, ...], lambda p: [p, p]),
    'set': (lambda a: {a}, Set[A], lambda p: [p]),
    'frozenset': (lambda a: frozenset([a]), None, lambda p: [p]),
    'deque': (lambda a: deque([a]), Deque[A], lambda p: [p]),
    'dict': (lambda a: {'k': a}, Dict[str, A], lambda p: {'k': p}),
    'named': (lambda a: Named(a, None), None, lambda p: {'f': p, 'g': None}),
    'holds': (lambda a: Holds(a, a, a), None, lambda p: {'a': p, 'o': p, 'u': p}),
    'strict holds': (lambda a: Holds(a, None, 1), Holds, lambda p: {'a': p, 'o': None, 'u': 1}),
    'loose': (lambda a: Loose([{'x': (a,)}]), None, lambda p: {'a': [{'x': [p]}]}),
    'optional': (lambda a: a, Optional[A], lambda p: p),
    'union': (lambda a: a, Union[A, str], lambda p: p),
    'list of unions': (lambda a: [a, None], List[Optional[A]], lambda p: [p, None]),
    'any': (lambda a: [a], List[Any], lambda p: [p]),
    'kid': (lambda a: [AKid(a.n)], None, lambda p: [p]),
    'generator': (lambda a: Loose(deque([(a,)])), None, lambda p: {'a': [[p]]}),
}


@harness('dumps of %d kinds of nested values, lenient or strict, through a fork, its origin and a sibling' % len(DUMPS), params=list(DUMPS))
def nested_dump(g):
    n = g.int('n')
    make, cls, want = DUMPS[g.param]
    one, two = jsons.fork(), jsons.fork()
    jsons.set_serializer(lambda obj, **kw: {'one': obj.n}, A, fork_inst=one)
    if g.flag('two'):
        jsons.set_serializer(lambda obj, **kw: {'two': obj.n}, A, fork_inst=two)
        part_two = {'two': n}
    else:
        part_two = {'n': n}
    strict = g.flag('strict') or g.param.startswith('strict')
    for inst, part in g.choice('order', (((one, {'one': n}), (jsons.JsonSerializable, {'n': n}), (two, part_two)),
                                         ((two, part_two), (one, {'one': n}), (jsons.JsonSerializable, {'n': n})))):
        how = g.choice('how', ('dump', 'dumps')) if inst is one else 'dump'
        kw = {'fork_inst': inst} if inst is not jsons.JsonSerializable or g.flag('explicit') else {}
        if strict:
            kw['strict'] = True
        if cls is not None and g.param != 'set':
            kw['cls'] = cls
        if how == 'dumps' and g.param == 'list':
            import json
            g.same(json.loads(jsons.dumps(make(A(5)), **kw)), want({k: 5 for k in part}), 'dumps')
        g.same(g.ok('dump', jsons.dump, make(A(n)), **kw), want(part), 'dump with the functions of an instance')


LOADS = {
    'top': (lambda e: e, A, lambda r: [r]),
    'list': (lambda e: [e], List[A], lambda r: r),
    'lists': (lambda e: [[e], [e]], List[List[A]], lambda r: r[0] + r[1]),
    'tuple': (lambda e: [e, 1], Tuple[A, int], lambda r: r[:1]),
    'tuples': (lambda e: [e, e], Tuple[A, ...], lambda r: r),
    'set': (lambda e: [e], Set[A], lambda r: r),
    'deque': (lambda e: [e], Deque[A], lambda r: r),
    'iterable': (lambda e: [e], Iterable[A], lambda r: r),
    'dict': (lambda e: {'k': e}, Dict[str, A], lambda r: r.values()),
    'defaultdict': (lambda e: {'k': e}, DefaultDict[str, A], lambda r: r.values()),
    'named': (lambda e: [e, e], Named, lambda r: [r.f, r.g]),
    'named dict': (lambda e: {'f': e, 'g': e}, Named, lambda r: [r.f, r.g]),
    'holds': (lambda e: {'a': e, 'o': e, 'u': e}, Holds, lambda r: [r.a, r.o, r.u]),
    'optional': (lambda e: e, Optional[A], lambda r: [r]),
    'union': (lambda e: e, Union[int, A], lambda r: [r]),
    'name': (lambda e: e, 'checks.c11.A', lambda r: [r]),
    'meta': (lambda e: {'-meta': {'classes': {'/': 'checks.c11.A'}}, **e}, None, lambda r: [r]),
    'deep meta': (lambda e: {'-meta': {'classes': {'/': 'checks.c11.Loose', '/a': 'checks.c11.A'}}, 'a': e}, None, lambda r: [r.a]),
    'announced': (lambda e: e, 'alias', lambda r: [r]),
}


@harness('loads of %d kinds of nested values, lenient or strict, through a fork, its origin and a sibling; deserializers or validators' % len(LOADS),
         params=list(LOADS))
def nested_load(g):
    n, limit = g.int('n'), g.int('limit')
    make, cls, parts = LOADS[g.param]
    one, two = jsons.fork(), jsons.fork()
    if g.param == 'announced':
        for inst in (one, two, jsons.JsonSerializable):
            jsons.announce_class(A, 'alias', inst)
    des = g.flag('deserializer')
    if des:
        jsons.set_deserializer(lambda obj, cls=None, **kw: Loaded(1, obj['n']), A, fork_inst=one)
    else:
        jsons.set_validator(lambda obj: obj.n > limit, A, fork_inst=one)
    strict = g.flag('strict')
    for inst in g.choice('order', ((one, jsons.JsonSerializable, two), (two, one, jsons.JsonSerializable))):
        kw = {'fork_inst': inst} if inst is not jsons.JsonSerializable else {}
        if strict:
            kw['strict'] = True
        out = g.run(jsons.load, make({'n': n}), cls, **kw)
        if inst is one and not des and not n > limit:
            g.check(not out.ok and isinstance(out.exc, jsons.JsonsError), 'the validator of the fork is not asked', out.value, out.exc)
            continue
        g.check(out.ok, 'load fails', out.exc)
        for x in parts(out.value):
            g.check(x.__class__ is (Loaded if inst is one and des else A), 'load with the functions of an instance', x)
            g.check(x.n == n, 'value')


# -- classes announced by dumps, warnings at depth -----------------------------------------------------

@harness('classes that a dump announces, and warnings issued deep inside')
def side_effects(g):
    n = g.int('n')
    one = jsons.fork()
    two = jsons.fork(one) if g.flag('two of one') else jsons.fork()
    insts = {'origin': jsons.JsonSerializable, 'one': one, 'two': two}
    who = g.choice('who', tuple(insts))

    class Local:
        def __init__(self, n: int):
            self.n = n
    if g.flag('announced'):
        name = 'checks.c11.Local'
        wrap = g.choice('wrap', (lambda x: x, lambda x: [x], lambda x: {'k': Loose(x)}))
        g.ok('dump', jsons.dump, wrap(Local(n)), fork_inst=insts[who])
        for other, inst in insts.items():
            out = g.run(jsons.load, {'n': n}, name, fork_inst=inst)
            if other == who:
                g.check(out.ok and out.value.__class__ is Local, 'a dumped class is known afterwards', out.exc)
            else:
                g.check(not out.ok and isinstance(out.exc, jsons.exceptions.UnknownClassError), 'a class dumped with another instance is known', out.value)
        return
    jsons.set_serializer(refuse, Refuses)
    for inst in (one, two):
        jsons.set_serializer(refuse, Refuses, fork_inst=inst)
    if g.flag('by code'):
        jsons.suppress_warning(CODE, insts[who])
    else:
        jsons.suppress_warnings(fork_inst=insts[who])
    for other, inst in insts.items():
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            r = g.ok('dump', jsons.dump, [{'k': Loose((Unhappy(), Unhappy()))}], fork_inst=inst)
        g.same(r, [{'k': {'a': [{'good': 1}, {'good': 1}]}}], 'lenient dump')
        count = sum(1 for w in caught if CODE in str(w.message))
        g.check(count == (0 if other == who else 2), 'warnings issued', count)
