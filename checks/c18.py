"""C18: the serializable base class is equivalent to the plain functions."""
import json
from dataclasses import dataclass
from datetime import date
from typing import Dict, List, Optional

import jsons
from jsons import JsonSerializable
from engine.api import harness

CAMEL, SNAKE, PASCAL = jsons.KEY_TRANSFORMER_CAMELCASE, jsons.KEY_TRANSFORMER_SNAKECASE, jsons.KEY_TRANSFORMER_PASCALCASE


class Leaf:
    def __init__(self, leaf_n):
        self.leaf_n = leaf_n


def leaf_out(obj, **kwargs):
    return [obj.leaf_n]


def leaf_out2(obj, **kwargs):
    return {'leaf': obj.leaf_n}


def leaf_in(obj, cls=None, **kwargs):
    return Leaf((obj, 'one'))


def leaf_in2(obj, cls=None, **kwargs):
    return Leaf((obj, 'two'))


def person(base):
    """A class derived from base."""
    class Person(base):
        def __init__(self, my_n, opt_v=None, my_leaf: Optional[Leaf] = None):
            self.my_n, self.opt_v, self.my_leaf = my_n, opt_v, my_leaf
    return Person


def typed(base):
    @dataclass
    class Typed(base):
        my_n: int
        opt_v: Optional[int] = None
        my_leaf: Optional[Leaf] = None
    return Typed


def slotted(base):
    class Slotted(base):
        __slots__ = ('my_n', 'opt_v', 'my_leaf')

        def __init__(self, my_n: int, opt_v: Optional[int] = None, my_leaf: Optional[Leaf] = None):
            self.my_n, self.opt_v, self.my_leaf = my_n, opt_v, my_leaf
    return Slotted


def sub(base):
    class Middle(person(base)):
        @property
        def prop_n(self):
            return 5

    class Sub(Middle):
        const_n = 7
    return Sub


KINDS = {'person': person, 'typed': typed, 'slotted': slotted, 'sub': sub}


def forked(base=JsonSerializable):
    inst = base.fork()
    inst.set_serializer(leaf_out, Leaf)
    inst.set_deserializer(leaf_in, Leaf)
    return inst


def fork_of_fork():
    inst = forked().fork('named')
    inst.set_serializer(leaf_out2, Leaf)
    return inst


def registered_on_class():
    inst = JsonSerializable.fork()
    return inst.set_serializer(leaf_out, Leaf).set_deserializer(leaf_in2, Leaf)


def registered_on_fork():
    return JsonSerializable.set_serializer(leaf_out2, Leaf, fork=True).set_deserializer(leaf_in, Leaf, fork=True)


def sub_fork():
    return person(JsonSerializable).fork()


BASES = {'plain': lambda: JsonSerializable, 'fork': forked, 'fork of fork': fork_of_fork, 'on class': registered_on_class,
         'on fork': registered_on_fork, 'fork of sub': sub_fork}

DUMP_OPTIONS = ((), ('case',), ('nulls',), ('strict', 'nulls'), ('attr', 'case'), ('verbose',), ('privates', 'props'),
                ('class vars', 'nulls', 'case'))


def dump_options(opts):
    kw = {}
    if 'case' in opts:
        kw['key_transformer'] = CAMEL
    if 'nulls' in opts:
        kw['strip_nulls'] = True
    if 'strict' in opts:
        kw['strict'] = True
    if 'attr' in opts:
        kw['strip_attr'] = ('opt_v',)
    if 'verbose' in opts:
        kw['verbose'] = jsons.Verbosity.WITH_CLASS_INFO
    if 'privates' in opts:
        kw['strip_privates'] = True
    if 'props' in opts:
        kw['strip_properties'] = True
    if 'class vars' in opts:
        kw['strip_class_variables'] = True
    return kw


def setup(g):
    base, kind = g.param
    cls = g.native(lambda: KINDS[kind](BASES[base]()))
    return cls


GRID = [('fork', k) for k in KINDS] + [(b, 'person') for b in BASES if b != 'fork'] + [('on fork', 'typed'), ('on class', 'sub')]


def draw(g, cls, small=False):
    n = g.choice('n', (-12, 5)[:g.b(1, 2)]) if small else g.int('n')
    m = (7 if small else g.int('m')) if g.flag('opt') else None
    return cls(n, m, Leaf(g.choice('leaf', (1, 'x')[:g.b(1, 2)])) if g.flag('with leaf') else None)


def attempt(g, a, b, what):
    """Two calls have the same outcome."""
    g.check(a.ok == b.ok, what + ': differs in success', a.exc, b.exc)
    if a.ok:
        g.same(a.value, b.value, what)
    else:
        g.check(a.exc.__class__ is b.exc.__class__, what + ': another error', a.exc, b.exc)
        g.check(str(a.exc) == str(b.exc), what + ': another message', a.exc, b.exc)


@harness('instances with any ints, None and an object with its own serializer; bases with and without forks and '
         'registrations; 8 combinations of options', params=GRID)
def dump(g):
    cls = setup(g)
    x = draw(g, cls)
    g.same(g.ok('json', lambda: x.json), g.ok('plain dump', jsons.dump, x, fork_inst=cls), 'json')
    kw = dump_options(g.choice('options', DUMP_OPTIONS))
    attempt(g, g.run(x.dump, **kw), g.run(jsons.dump, x, fork_inst=cls, **kw), 'dump')


@harness('as dump for given ints, as text and bytes, with options for json and encodings', params=GRID)
def dump_text(g):
    cls = setup(g)
    x = draw(g, cls, small=True)
    g.same(str(x), g.ok('plain dumps', jsons.dumps, x, fork_inst=cls), 'str')
    kw = dump_options(g.choice('options', DUMP_OPTIONS[:g.b(5, 8)]))
    jd = g.choice('jdkwargs', (None, {'sort_keys': True, 'indent': 1}))
    if jd:
        kw['jdkwargs'] = jd
    attempt(g, g.run(x.dumps, **kw), g.run(jsons.dumps, x, fork_inst=cls, **kw), 'dumps')
    if g.flag('encoding'):
        kw['encoding'] = 'utf-16'
    attempt(g, g.run(x.dumpb, **kw), g.run(jsons.dumpb, x, fork_inst=cls, **kw), 'dumpb')


LOAD_OPTIONS = ((), ('case',), ('strict',), ('getters',), ('strict', 'case', 'getters'))


def load_options(opts):
    kw = {}
    if 'case' in opts:
        kw['key_transformer'] = SNAKE
    if 'strict' in opts:
        kw['strict'] = True
    if 'getters' in opts:
        kw['attr_getters'] = {'opt_v': lambda: 31}
    return kw


def draw_json(g, key, leaf='my_leaf', small=False):
    js = {}
    what = g.choice('what', ('n', 'n and more', 'other', 'wrong', 'null', 'leaf'))
    n = g.choice('n', (-12, 5)[:g.b(1, 2)]) if small else g.int('n')
    if what in ('n', 'n and more', 'leaf'):
        js[key] = n
    if what == 'n and more':
        js['opt_v'] = None
    if what == 'leaf':
        js[leaf] = {'leaf_n': 2}
    if what == 'other':
        js['other'] = n
    if what == 'wrong':
        js[key] = ['x']
    return None if what == 'null' else js


def keys(opts):
    return ('myN', 'myLeaf') if 'case' in opts else ('my_n', 'my_leaf')


@harness('JSON objects with any ints, with wrong, missing and further keys, null; bases with and without forks and '
         'registrations; 5 combinations of options', params=GRID)
def load(g):
    cls = setup(g)
    opts = g.choice('options', LOAD_OPTIONS)
    js = draw_json(g, *keys(opts))
    kw = load_options(opts)
    plain = g.run(jsons.load, js, cls, fork_inst=cls, **kw)
    if plain.ok and js is not None:
        g.check(plain.value.__class__ is cls, 'class of the instance', plain.value)
    attempt(g, g.run(cls.load, js, **kw), plain, 'load')
    attempt(g, g.run(cls.from_json, js, **kw), plain, 'from_json')


@harness('as load for given ints, from text and bytes; text that is no JSON; encodings', params=GRID)
def load_text(g):
    cls = setup(g)
    opts = g.choice('options', LOAD_OPTIONS[:g.b(3, 5)])
    js = draw_json(g, *keys(opts), small=True)
    kw = load_options(opts)
    text = json.dumps(js) if g.flag('json') else '{"my_n": '
    attempt(g, g.run(cls.loads, text, **kw), g.run(jsons.loads, text, cls, fork_inst=cls, **kw), 'loads')
    data = text.encode()
    if g.flag('encoding'):
        kw['encoding'] = 'utf-16'
        if g.flag('encoded'):
            data = text.encode('utf-16')
    attempt(g, g.run(cls.loadb, data, **kw), g.run(jsons.loadb, data, cls, fork_inst=cls, **kw), 'loadb')


# -- bound options -----------------------------------------------------------------------------------

BOUND_DUMP = {'case': ('key_transformer', CAMEL), 'nulls': ('strip_nulls', True), 'attr': ('strip_attr', 'my_leaf'),
              'pascal': ('key_transformer', PASCAL)}


GETTERS = ({'opt_v': lambda: 41}, {'opt_v': lambda: 42}, {'opt_v': lambda: 43})
BOUND_LOAD = {'case': ('key_transformer', SNAKE), 'getters': ('attr_getters', GETTERS[0]), 'strict': ('strict', True)}


class Config:
    """What is expected of a class: the options bound to it and the (de)serializers registered with it."""

    def __init__(self, dump, load, reg):
        self.dump, self.load, self.reg = dump, load, reg

    def copy(self, fork):
        """A class that is only derived (no fork) shares the (de)serializers of its base."""
        return Config(dict(self.dump), dict(self.load), dict(self.reg) if fork else self.reg)

    ser = property(lambda self: self.reg['ser'])
    de = property(lambda self: self.reg['de'])


def no_config():
    return Config({}, {}, {'ser': None, 'de': None})


STEPS = (('dump', 'case'), ('dump', 'nulls'), ('dump', 'pascal'), ('load', 'case'), ('load', 'getters'), ('load', 'strict'),
         ('ser', leaf_out), ('ser', leaf_out2), ('de', leaf_in), ('de', leaf_in2), ('fork', None), ('sub', None))


def step(g, cls, config, what, arg, fork):
    """The class after a step, and what is expected of it."""
    new = config.copy(fork and what != 'sub')
    if what == 'dump':
        key, val = BOUND_DUMP[arg]
        new.dump[key] = val
        return cls.with_dump(fork=fork, **{key: val}), new
    if what == 'load':
        key, val = BOUND_LOAD[arg]
        new.load[key] = val
        return cls.with_load(fork=fork, **{key: val}), new
    if what == 'ser':
        new.reg['ser'] = arg
        return cls.set_serializer(arg, Leaf, fork=fork), new
    if what == 'de':
        new.reg['de'] = arg
        return cls.set_deserializer(arg, Leaf, fork=fork), new
    if what == 'fork':
        return cls.fork(), new
    return g.native(lambda: person(cls)), new


def expect_dump(config, n, given):
    """The dump of a person with n, None and a Leaf(2)."""
    opts = dict(given)
    opts.update(config.dump)
    leaf = {None: {'leaf_n': 2}, leaf_out: [2], leaf_out2: {'leaf': 2}}[config.ser]
    r = {'my_n': n}
    if not opts.get('strip_nulls'):
        r['opt_v'] = None
    r['my_leaf'] = leaf
    names = {CAMEL: {'my_n': 'myN', 'opt_v': 'optV', 'my_leaf': 'myLeaf', 'leaf_n': 'leafN'},
             PASCAL: {'my_n': 'MyN', 'opt_v': 'OptV', 'my_leaf': 'MyLeaf', 'leaf_n': 'LeafN'},
             }.get(opts.get('key_transformer'), {})
    if config.ser is None:
        r['my_leaf'] = dict([(names.get(k, k), v) for k, v in leaf.items()])
    return dict([(names.get(k, k), v) for k, v in r.items()])


def verify(g, cls, config, what, n):
    """Dumping and loading through the class does what is expected."""
    person_cls = g.native(lambda: person(cls))
    given = {'strip_nulls': False, 'key_transformer': PASCAL} if g.param[0] == 'given' else {}
    x = person_cls(n, None, Leaf(2))
    if not given:
        g.same(g.ok('json', lambda: x.json), expect_dump(config, n, given), what + ': json')
    g.same(g.ok('dump', x.dump, **given), expect_dump(config, n, given), what + ': dump')
    given = {'attr_getters': GETTERS[2], 'strict': False} if g.param[0] == 'given' else {}
    opts = dict(given)
    opts.update(config.load)
    js = {'myN' if opts.get('key_transformer') else 'my_n': n, 'my_leaf': [8]}
    if opts.get('key_transformer'):
        js['myLeaf'] = js.pop('my_leaf')
    getters = opts.get('attr_getters')
    want_opt = getters['opt_v']() if getters else None
    for name in ('load', 'from_json'):
        out = g.run(getattr(person_cls, name), js, **given)
        if config.de is None:
            # Without a deserializer a list is no Leaf.
            g.check(not out.ok and isinstance(out.exc, jsons.JsonsError), what + ': deserializer of another class', out.value)
            continue
        g.check(out.ok, what + ': ' + name + ' failed', out.exc)
        y = out.value
        g.check(y.__class__ is person_cls, what + ': class', y)
        g.same(y.my_n, n, what + ': ' + name)
        g.same(y.opt_v, want_opt, what + ': getters')
        g.same(y.my_leaf.leaf_n, ([8], 'one' if config.de is leaf_in else 'two'), what + ': deserializer')
    if config.de is not None:
        out = g.run(person_cls.load, dict(js, more=1), **given)
        g.check(out.ok == (not opts.get('strict', False)), what + ': strict', out.exc)


@harness('chains of 2 (thorough: 3) steps: with_dump, with_load, set_serializer, set_deserializer (each with or without a '
         'fork), fork and derivation; with and without other options in the call; any int',
         params=[(c, k) for c in ('plain', 'given') for k in range(len(STEPS))], outside='binding options to a class after its subclass got its own')
def chain(g):
    cls = JsonSerializable.fork()
    config = no_config()
    n = g.int('n')
    made = [(cls, config)]
    for k in range(g.b(2, 3)):
        what, arg = g.choice('step %d' % k, STEPS) if k else STEPS[g.param[1]]
        fork = what in ('fork', 'sub') or g.flag('fork %d' % k)
        new, config = step(g, cls, config, what, arg, fork)
        if what in ('fork', 'sub') or fork:
            g.check(new is not cls and issubclass(new, cls), 'no fork of the class')
            made.append((new, config))
        else:
            g.check(new is cls, 'another class')
            made[-1] = (cls, config)
        cls = new
    for k in range(len(made)):
        verify(g, made[k][0], made[k][1], 'class %d' % k, n)
    x = g.native(lambda: person(JsonSerializable))(n, None, Leaf(2))
    g.same(g.ok('json', lambda: x.json), {'my_n': n, 'opt_v': None, 'my_leaf': {'leaf_n': 2}}, 'JsonSerializable is changed')


@harness('as chain for two forks of the same class: options and registrations of one do not affect the other; any int',
         params=[('plain', 0), ('given', 0)])
def siblings(g):
    base = JsonSerializable.fork()
    n = g.int('n')
    made = [(base, no_config())]
    for k in range(2):
        what, arg = g.choice('step %d' % k, STEPS[:-2])
        made.append(step(g, base, made[0][1], what, arg, True))
    for k in range(3):
        verify(g, made[k][0], made[k][1], 'class %d' % k, n)


@harness('a class with bound options whose attributes are instances of a class with others: the outer options count; any int')
def nested(g):
    outer = JsonSerializable.with_dump(fork=True, strip_nulls=True).with_load(key_transformer=SNAKE)
    inner = JsonSerializable.with_dump(fork=True, key_transformer=CAMEL)
    out_cls, in_cls = g.native(lambda: (person(outer), person(inner)))
    n = g.int('n')
    x = out_cls(n, in_cls(n))
    g.same(g.ok('json', lambda: x.json), jsons.dump(x, fork_inst=out_cls, strip_nulls=True), 'json')
    xs = [x]
    g.same(g.ok('dump', jsons.dump, xs, fork_inst=out_cls), [jsons.dump(x, fork_inst=out_cls)], 'plain dump of a list')


@harness('a class with bound options and its subclass with an own constructor; suppressed warnings of the class; any int')
def warnings_of_fork(g):
    """The configuration used is that of the class, so its warning settings and validators count."""
    base = JsonSerializable.fork()
    limit = g.int('limit')
    cls = g.native(lambda: person(base))
    jsons.set_validator(lambda obj: obj.leaf_n[0] > limit, Leaf, fork_inst=base)
    base.set_deserializer(leaf_in, Leaf)
    n = g.int('n')
    out = g.run(cls.from_json, {'my_n': 1, 'my_leaf': n})
    if n > limit:
        g.check(out.ok, 'an accepted value is refused', out.exc)
        g.same(out.value.my_leaf.leaf_n, (n, 'one'), 'load')
    else:
        g.check(not out.ok and isinstance(out.exc, jsons.JsonsError), 'the validator of the class is not used', out.exc)
