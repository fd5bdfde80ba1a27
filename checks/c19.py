"""C19: decorated functions see exactly loaded or dumped arguments and results."""
import functools
import inspect
import json
from datetime import date, datetime, timezone
from typing import Any, Dict, List, Optional, Tuple, Union

import jsons
from jsons.decorators import dumped, loaded
from jsons.exceptions import InvalidDecorationError
from engine.api import harness


class Item:
    def __init__(self, my_n: int, opt: Optional[int] = None):
        self.my_n, self.opt = my_n, opt

    def __eq__(self, other):
        return self.__class__ is other.__class__ and (self.my_n == other.my_n) and self.opt == other.opt


class SubItem(Item):
    def __init__(self, my_n: int, opt: Optional[int] = None, more=1):
        Item.__init__(self, my_n, opt)
        self.more = more


SEEN = []


def ret():
    return SEEN[0][0]


# Each function notes what it is called with and returns what the harness put into RESULT.
RESULT = [None]


def note(**kwargs):
    SEEN.append(kwargs)
    return RESULT[0]


def plain(a: Item, b: List[Item], c: Optional[Item] = 'default') -> Item:
    return note(a=a, b=b, c=c)


def only(a: Item, /, b: Item, *, c: Item, d: date = 'default'):
    return note(a=a, b=b, c=c, d=d)


def variable(a: Item, *rest: Item, k: Optional[Item] = 'default', **more: Item) -> List[Item]:
    return note(a=a, rest=rest, k=k, more=more)


def untyped(a, b=None, *rest, **more):
    return note(a=a, b=b, rest=rest, more=more)


def mixed(a: Dict[str, Item], b: 'Item', cls: Item = None, self: Any = None) -> None:
    return note(a=a, b=b, cls=cls, self=self)


def named(a: 'Item', b: 'List[Item]', *rest: 'Item', k: 'Optional[Item]' = 'default') -> 'Dict[str, Item]':
    return note(a=a, b=b, rest=rest, k=k)


def named_none(a: 'Any', b: 'Item' = None) -> 'None':
    return note(a=a, b=b)


POS, BOTH, KEY, REST, MORE = range(5)

# Function: name, annotation, kind and whether it may be left out, per parameter; the annotation of the result.
FUNCTIONS = {
    'plain': (plain, [('a', Item, BOTH, False), ('b', List[Item], BOTH, False), ('c', Optional[Item], BOTH, True)], Item),
    'only': (only, [('a', Item, POS, False), ('b', Item, BOTH, False), ('c', Item, KEY, False), ('d', date, KEY, True)], None),
    'variable': (variable, [('a', Item, BOTH, False), ('rest', Item, REST, True), ('k', Optional[Item], KEY, True),
                            ('more', Item, MORE, True)], List[Item]),
    'untyped': (untyped, [('a', None, BOTH, False), ('b', None, BOTH, True), ('rest', None, REST, True),
                          ('more', None, MORE, True)], None),
    'named': (named, [('a', Item, BOTH, False), ('b', List[Item], BOTH, False), ('rest', Item, REST, True),
                      ('k', Optional[Item], KEY, True)], Dict[str, Item]),
    'named none': (named_none, [('a', Any, BOTH, False), ('b', Item, BOTH, True)], None),
    'mixed': (mixed, [('a', Dict[str, Item], BOTH, False), ('b', Item, BOTH, False), ('cls', Item, BOTH, True),
                      ('self', Any, BOTH, True)], None),
}


def json_for(g, t, name, key='my_n'):
    """A JSON value for type t with any int."""
    n = g.int(name)
    if t is date:
        return '2020-02-03'
    if t in (Item, Optional[Item], Any, None):
        return {key: n}
    if t == List[Item]:
        return [{key: n}, {key: 1, 'opt': 2}]
    return {'k': {key: n}}


def object_for(g, t, name):
    n = g.int(name)
    if t is date:
        return date(2020, 2, 3)
    if t in (Item, Optional[Item], Any, None):
        return Item(n) if name != 'b' else SubItem(n)
    if t == List[Item]:
        return [Item(n), SubItem(1, 2)]
    return {'k': Item(n)}


def call(g, spec, draw):
    """Arguments for a function, each passed by position or by keyword; what it is expected to see is spec'd per argument."""
    args, kwargs, passed = [], {}, {}
    by_position = True
    for name, t, kind, optional in spec:
        if optional and g.flag('without ' + name):
            by_position = by_position and kind in (KEY, MORE)
            continue
        if kind == REST:
            if by_position:
                vals = [draw(t, name + '%d' % k) for k in range(2)]
                args += vals
                passed[name] = (t, vals)
            continue
        if kind == MORE:
            kwargs['other'] = draw(t, name)
            passed[name] = (t, kwargs['other'])
            continue
        v = draw(t, name)
        passed[name] = (t, v)
        if by_position and kind in (POS, BOTH) and (kind == POS or g.flag('position ' + name)):
            args.append(v)
        else:
            by_position = False
            kwargs[name] = v
    return args, kwargs, passed


def expected(spec, passed, mapping):
    """What the function sees: passed arguments mapped, the others untouched."""
    r = {}
    for name, t, kind, optional in spec:
        if name not in passed:
            r[name] = {REST: (), MORE: {}}.get(kind, 'default' if name in ('c', 'd', 'k') else None)
        elif kind == REST:
            r[name] = tuple([mapping(v, passed[name][0]) for v in passed[name][1]])
        elif kind == MORE:
            r[name] = {'other': mapping(passed[name][1], passed[name][0])}
        else:
            r[name] = mapping(passed[name][1], passed[name][0])
    return r


def seen_by(g, f, args, kwargs):
    del SEEN[:]
    r = g.ok('call', lambda: f(*args, **kwargs))
    g.check(len(SEEN) == 1, 'the function is not called once')
    return r, SEEN[0]


def load_options(g):
    inst = jsons.fork()
    jsons.set_deserializer(lambda obj, cls=None, **kw: cls(obj['my_n'], 99), Item, fork_inst=inst)
    return [({}, 'my_n'), ({'key_transformer': jsons.KEY_TRANSFORMER_SNAKECASE}, 'myN'), ({'strict': True}, 'my_n'),
            ({'fork_inst': inst}, 'my_n'), ({'attr_getters': {'opt': lambda: 5}}, 'my_n')]


@harness('five functions with every kind of parameter; each argument left out (if it can be), passed by position or by '
         'keyword; values with any ints; five sets of options; parts switched off', params=tuple(FUNCTIONS))
def load_args(g):
    f, spec, result = FUNCTIONS[g.param]
    which = g.choice('options', tuple(range(5))[:g.b(4, 5)])
    kw, key = load_options(g)[which]
    args, kwargs, passed = call(g, spec, lambda t, name: json_for(g, t, name, key))
    RESULT[0] = json_for(g, result, 'result', key)
    on = g.choice('on', ((True, True), (True, False), (False, True))[:g.b(2, 3)])
    wrapped = loaded(parameters=on[0], returnvalue=on[1], **kw)(f)
    r, seen = seen_by(g, wrapped, args, kwargs)

    def mapping(v, t):
        return jsons.load(v, t, **kw) if on[0] else v

    want = expected(spec, passed, mapping)
    g.check(set(seen) == set(want), 'parameters')
    for name in want:
        g.same(seen[name], want[name], 'argument')
        if not on[0] and name in passed and not isinstance(want[name], (tuple, dict)):
            g.check(seen[name] is want[name], 'an argument is replaced')
    g.same(r, jsons.load(RESULT[0], result, **kw) if on[1] else RESULT[0], 'result')
    if on[0] and g.param == 'plain' and 'attr_getters' not in kw and 'fork_inst' not in kw:
        g.check(isinstance(seen['a'], Item) and isinstance(seen['b'], list) and isinstance(seen['b'][0], Item), 'not loaded')


def dump_options():
    inst = jsons.fork()
    jsons.set_serializer(lambda obj, **kw: [obj.my_n], Item, fork_inst=inst)
    return [{}, {'key_transformer': jsons.KEY_TRANSFORMER_CAMELCASE}, {'strip_nulls': True}, {'fork_inst': inst},
            {'strict': True}]


@harness('as load_args, for dumping objects with any ints', params=tuple(FUNCTIONS))
def dump_args(g):
    f, spec, result = FUNCTIONS[g.param]
    kw = dump_options()[g.choice('options', tuple(range(5))[:g.b(4, 5)])]
    args, kwargs, passed = call(g, spec, lambda t, name: object_for(g, t, name))
    RESULT[0] = object_for(g, result, 'result')
    on = g.choice('on', ((True, True), (True, False), (False, True))[:g.b(2, 3)])
    r, seen = seen_by(g, dumped(parameters=on[0], returnvalue=on[1], **kw)(f), args, kwargs)

    def mapping(v, t):
        return jsons.dump(v, t, **kw) if on[0] else v

    want = expected(spec, passed, mapping)
    for name in want:
        g.same(seen[name], want[name], 'argument')
    g.same(r, jsons.dump(RESULT[0], result, **kw) if on[1] else RESULT[0], 'result')


# -- methods -----------------------------------------------------------------------------------------

class Meths:
    """An object that must never be mapped."""

    def __init__(self):
        self.secret = 5

    @loaded()
    def meth(self, a: Item, *rest: Item, **more: Item) -> Item:
        return note(me=self, a=a, rest=rest, more=more)

    @loaded()
    def __private(self, a: Item, *rest: Item, **more: Item) -> Item:
        return note(me=self, a=a, rest=rest, more=more)

    @classmethod
    @loaded()
    def classmeth(cls, a: Item, *rest: Item, **more: Item) -> Item:
        return note(me=cls, a=a, rest=rest, more=more)

    @staticmethod
    @loaded()
    def static(a: Item, *rest: Item, **more: Item) -> Item:
        return note(me=None, a=a, rest=rest, more=more)

    @loaded()
    async def amethod(self, a: Item, *rest: Item, **more: Item) -> Item:
        return note(me=self, a=a, rest=rest, more=more)

    @loaded()
    def __call__(self, a: Item, *rest: Item, **more: Item) -> Item:
        return note(me=self, a=a, rest=rest, more=more)

    private = __private


class DumpMeths:
    def __init__(self):
        self.secret = 5

    @dumped()
    def meth(self, a: Item, *rest: Item, **more: Item) -> Item:
        return note(me=self, a=a, rest=rest, more=more)

    @dumped()
    def __private(self, a: Item, *rest: Item, **more: Item) -> Item:
        return note(me=self, a=a, rest=rest, more=more)

    @classmethod
    @dumped()
    def classmeth(cls, a: Item, *rest: Item, **more: Item) -> Item:
        return note(me=cls, a=a, rest=rest, more=more)

    @staticmethod
    @dumped()
    def static(a: Item, *rest: Item, **more: Item) -> Item:
        return note(me=None, a=a, rest=rest, more=more)

    @dumped()
    async def amethod(self, a: Item, *rest: Item, **more: Item) -> Item:
        return note(me=self, a=a, rest=rest, more=more)

    @dumped()
    def __call__(self, a: Item, *rest: Item, **more: Item) -> Item:
        return note(me=self, a=a, rest=rest, more=more)

    private = __private


class SubMeths(Meths):
    def __getattr__(self, name):
        raise AttributeError(name)


class SubDumpMeths(DumpMeths):
    pass


METHODS = ('meth', 'private', 'classmeth', 'static', 'amethod', '__call__')


def finish(coro):
    """The result of a coroutine that never waits."""
    try:
        coro.send(None)
    except StopIteration as stop:
        return stop.value
    raise AssertionError('the coroutine waits')


@harness('methods, class and static methods, methods with private names, coroutine methods and callable instances, of a '
         'class and its subclass, called on the instance or through the class; any ints',
         params=[(op, m) for op in ('load', 'dump') for m in METHODS])
def methods(g):
    op, name = g.param
    base, sub = (Meths, SubMeths) if op == 'load' else (DumpMeths, SubDumpMeths)
    cls = sub if g.flag('subclass') else base
    me = cls()
    f = getattr(me, name)
    args, kwargs = [], {}
    if name not in ('classmeth', 'static') and g.flag('through class'):
        f = getattr(cls, name)
        args = [me]
    draw, mapping = (json_for, jsons.load) if op == 'load' else (object_for, jsons.dump)
    a = draw(g, Item, 'a')
    rest, more = [], {}
    if g.flag('keyword'):
        kwargs['a'] = a
    else:
        args = args + [a]
        rest = [draw(g, Item, 'r%d' % k) for k in range(2)]
    if g.flag('more'):
        more = {'z': draw(g, Item, 'z')}
    RESULT[0] = draw(g, Item, 'result')

    def run(*args, **kwargs):
        r = f(*args, **kwargs)
        return finish(r) if name == 'amethod' else r

    r, seen = seen_by(g, run, args + rest, dict(kwargs, **more))
    want_me = {'classmeth': cls, 'static': None}.get(name, me)
    g.check(seen['me'] is want_me, 'self or cls is mapped', seen['me'])
    g.same(seen['a'], mapping(a, Item), 'argument')
    g.same(seen['rest'], tuple([mapping(x, Item) for x in rest]), 'variable arguments')
    g.same(seen['more'], dict([(k, mapping(v, Item)) for k, v in more.items()]), 'variable keywords')
    g.same(r, mapping(RESULT[0], Item), 'result')


@harness('coroutine functions; any ints; parts switched off', params=('load', 'dump'))
def coroutines(g):
    on = g.choice('on', ((True, True), (True, False), (False, True), (False, False)))
    deco, mapping, draw = ((loaded, jsons.load, json_for) if g.param == 'load' else (dumped, jsons.dump, object_for))

    async def f(a: Item, b: Optional[Item] = None) -> Item:
        return note(a=a, b=b)

    wrapped = deco(parameters=on[0], returnvalue=on[1])(f)
    g.check(inspect.iscoroutinefunction(wrapped), 'no coroutine function')
    x = draw(g, Item, 'x')
    RESULT[0] = draw(g, Item, 'result')
    args, kwargs = ([x], {}) if g.flag('position') else ([], {'a': x})
    r, seen = seen_by(g, lambda *a, **k: finish(wrapped(*a, **k)), args, kwargs)
    g.same(seen['a'], mapping(x, Item) if on[0] else x, 'argument')
    g.check(seen['b'] is None, 'an argument that is not passed')
    g.same(r, mapping(RESULT[0], Item) if on[1] else RESULT[0], 'result')
    g.check(not inspect.iscoroutinefunction(deco()(plain)), 'a function becomes a coroutine function')


@harness('each of three arguments, by position or by keyword, may be wrong; the result may be wrong; also for coroutines')
def load_errors(g):
    """A wrong argument: a jsons error and the function does not run."""
    bad = [g.flag('bad %d' % k) for k in range(3)]
    vals = [{'my_n': g.int('n%d' % k)} if not bad[k] else g.choice('wrong %d' % k, ({'opt': 1}, 5, {'my_n': 'x'})[:g.b(2, 3)])
            for k in range(3)]
    RESULT[0] = {'my_n': 1} if not g.flag('bad result') else {'opt': 1}

    async def af(a: Item, b: Item, *, c: Item) -> Item:
        return note(a=a, b=b, c=c)

    def f(a: Item, b: Item, *, c: Item) -> Item:
        return note(a=a, b=b, c=c)

    is_async = g.flag('async')
    wrapped = loaded()(af if is_async else f)
    args, kwargs = (vals[:2], {'c': vals[2]}) if g.flag('position') else ([], {'a': vals[0], 'b': vals[1], 'c': vals[2]})
    del SEEN[:]
    out = g.run(lambda: finish(wrapped(*args, **kwargs)) if is_async else wrapped(*args, **kwargs))
    if True in bad:
        g.check(not out.ok, 'a wrong argument is accepted', out.value)
        g.check(isinstance(out.exc, jsons.JsonsError), 'not a jsons error', out.exc)
        g.check(SEEN == [], 'the function runs with wrong arguments')
    elif 'opt' in RESULT[0]:
        g.check(len(SEEN) == 1, 'the function does not run once')
        g.check(not out.ok and isinstance(out.exc, jsons.JsonsError), 'a wrong result is accepted', out.value)
    else:
        g.check(out.ok, 'fails', out.exc)


ANNS = (int, Optional[int], str, bool, float, List[int], Dict[str, int], Any, object, None, Item, Optional[Item], Union[int, List[int]])


def any_value(g, name, op):
    """A value of any kind, also those that are empty or false."""
    kind = g.choice(name, ('none', 'int', 'bool', 'text', 'list', 'dict', 'float', 'item'))
    if kind == 'int':
        return g.int(name + ' n', -9, 9)  # It may become text.
    if kind == 'bool':
        return g.bool(name + ' b')
    if kind == 'list':
        return g.choice(name + ' elements', ([], [0], [None]))
    if kind == 'text':
        return g.choice(name + ' text', ('', 'x'))
    if kind == 'dict':
        return g.choice(name + ' entries', ({}, {'k': 0}, {'k': None}))
    if kind == 'item':
        return {'my_n': 0, 'opt': None} if op == 'load' else Item(0)
    return {'none': None, 'float': 0.0}[kind]


@harness('a function, coroutine or method with an argument and a result annotated with one of 13 types; any of 8 kinds of values, also None, empty and '
         'false ones, as argument or result; ints -9..9', params=[(op, t) for op in ('load', 'dump') for t in range(len(ANNS))])
def values(g):
    op, t = g.param
    t = ANNS[t]
    deco, mapping = (loaded, jsons.load) if op == 'load' else (dumped, jsons.dump)
    form = g.choice('form', ('function', 'coroutine', 'method'))
    where = g.choice('where', ('argument', 'result'))
    v = any_value(g, 'value', op)
    ns = {} if t is None else {'a': t}
    rt = {} if t is None else {'return': t}

    def f(a, b=None):
        return note(a=a, b=b)

    async def af(a, b=None):
        return note(a=a, b=b)

    class Holder:
        def m(self, a, b=None):
            return note(a=a, b=b)

    inner = {'function': f, 'coroutine': af, 'method': Holder.m}[form]
    inner.__annotations__ = ns if where == 'argument' else rt
    inner = deco()(inner)
    want = g.run(lambda: mapping(v, t)) if t is not None else g.run(lambda: mapping(v))
    RESULT[0] = v if where == 'result' else 1
    call = {'function': lambda *x, **k: inner(*x, **k), 'coroutine': lambda *x, **k: finish(inner(*x, **k)),
            'method': lambda *x, **k: inner(Holder(), *x, **k)}[form]
    del SEEN[:]
    if where == 'argument':
        out = g.run(lambda: call(a=v) if g.flag('by keyword') else call(v))
    else:
        out = g.run(lambda: call(1))
    if not want.ok:
        g.check(not out.ok and isinstance(out.exc, jsons.JsonsError), 'a wrong value is accepted', out.value, out.exc)
        g.check(len(SEEN) == (where == 'result'), 'the function runs with a wrong argument, or not at all')
        return
    g.check(out.ok, 'fails', out.exc)
    g.check(len(SEEN) == 1, 'the function is not called once')
    g.same(SEEN[0]['a'] if where == 'argument' else out.value, want.value, where)
    g.same(out.value if where == 'argument' else SEEN[0]['a'], 1, 'the other')


@harness('text and bytes: the given loader or dumper is used for arguments and results; ints given',
         params=('loads', 'loadb', 'dumps', 'dumpb', 'load', 'dump'))
def mapping_function(g):
    mapping = getattr(jsons, g.param)
    to, args = {'s': json.dumps, 'b': lambda v: json.dumps(v).encode()}.get(g.param[4:], lambda v: v), []
    n = g.choice('n', (-12, 7))

    def f(a: Item, b: List[int], *, c: Optional[Item]) -> Item:
        return note(a=a, b=b, c=c)

    if g.param[:4] == 'load':
        wrapped = loaded(loader=mapping)(f)
        vals = [to({'my_n': n}), to([n, 1]), to({'my_n': 3, 'opt': n} if g.flag('opt') else None)]
        RESULT[0] = to({'my_n': n})
    else:
        wrapped = dumped(dumper=mapping)(f)
        vals = [Item(n), [n, 1], Item(3, n) if g.flag('opt') else None]
        RESULT[0] = SubItem(n)
    r, seen = seen_by(g, wrapped, vals[:2], {'c': vals[2]}) if g.flag('position') else seen_by(
        g, wrapped, [], dict(zip('abc', vals)))
    for name, v, t in (('a', vals[0], Item), ('b', vals[1], List[int]), ('c', vals[2], Optional[Item])):
        g.same(seen[name], mapping(v, cls=t), 'argument')
    g.same(r, mapping(RESULT[0], cls=Item), 'result')


@harness('wrong mapping functions, classes and static methods to decorate')
def misuse(g):
    what = g.choice('what', ('loader', 'dumper', 'class', 'static'))
    if what in ('loader', 'dumper'):
        bad = g.choice('function', (jsons.dump, jsons.dumps, jsons.dumpb) if what == 'loader' else
                       (jsons.load, jsons.loads, jsons.loadb)) if g.flag('of the other kind') else len
        out = g.run(loaded if what == 'loader' else dumped, **{what: bad})
    else:
        deco = g.choice('decorator', (loaded, dumped))()
        out = g.run(deco, Item if what == 'class' else staticmethod(plain), )
    g.check(not out.ok, 'accepted')
    g.check(isinstance(out.exc, InvalidDecorationError), 'another error', out.exc)


@harness('a function that loads its arguments and dumps its result, in both orders, plain, as method and as coroutine; any ints',
         params=('function', 'method', 'coroutine'))
def stacked(g):
    """Decorating a decorated function takes the annotations of the function."""
    order = g.flag('order')

    def both(f):
        if order:
            return loaded(returnvalue=False)(dumped(parameters=False)(f))
        return dumped(parameters=False)(loaded(returnvalue=False)(f))

    class Holder:
        def __init__(self):
            self.secret = 5

        def meth(self, a: Item, *, b: Item) -> Item:
            return note(me=self, a=a, b=b)

    def f(a: Item, *, b: Item) -> Item:
        return note(me=None, a=a, b=b)

    async def af(a: Item, *, b: Item) -> Item:
        return note(me=None, a=a, b=b)

    Holder.meth = both(Holder.meth)
    me = Holder()
    target = me.meth if g.param == 'method' else both(f) if g.param == 'function' else both(af)
    if g.param == 'coroutine':
        g.check(inspect.iscoroutinefunction(target), 'no coroutine function')
    n = g.int('n')
    RESULT[0] = Item(n)
    del SEEN[:]
    kwargs = {'b': {'my_n': n}}
    args = [{'my_n': 3}] if g.flag('position') else []
    if not args:
        kwargs['a'] = {'my_n': 3}
    r, seen = seen_by(g, lambda *a, **k: finish(target(*a, **k)) if g.param == 'coroutine' else target(*a, **k), args, kwargs)
    g.check(seen['me'] is (me if g.param == 'method' else None), 'self is mapped')
    g.same(seen['a'], Item(3), 'argument')
    g.same(seen['b'], Item(n), 'argument')
    g.same(r, {'my_n': n, 'opt': None}, 'result')
