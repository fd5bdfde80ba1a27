"""C24: types named by string resolve to that very type, or fail cleanly."""
import builtins
import importlib
import typing
from collections import OrderedDict, deque
from datetime import date
from enum import Enum
from typing import Any, DefaultDict, Deque, Dict, FrozenSet, Generic, Iterable, List, Mapping, NamedTuple, Optional, Sequence, Set, Tuple, TypeVar, Union
from uuid import UUID

import jsons
from jsons.exceptions import UnknownClassError
from engine.api import harness

T = TypeVar('T')


class P:
    def __init__(self, n: int):
        self.n = n


class Q:
    def __init__(self, p: P, ps: Optional[List[P]] = None):
        self.p, self.ps = p, ps


class Box(Generic[T]):
    def __init__(self, item: T):
        self.item = item


class E(Enum):
    RED = 1
    BLUE = 2


class Named(NamedTuple):
    a: int
    b: str = 'x'


class Plain:
    pass


class Other:
    pass


HERE = P.__module__
LEAVES = {
    'int': int, 'str': str, 'bool': bool, 'float': float, 'bytes': bytes, 'object': object, 'NoneType': type(None), 'dict': dict,
    'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset, 'datetime.date': date, 'uuid.UUID': UUID, 'typing.Any': Any,
    'collections.deque': deque, 'collections.OrderedDict': OrderedDict, 'builtins.int': int, 'decimal.Decimal': None,
    'typing.List': List, 'typing.Dict': Dict, 'typing.Tuple': Tuple, 'enum.Enum': Enum, HERE + '.P': P, HERE + '.Q': Q,
    HERE + '.Box': Box, HERE + '.E': E, HERE + '.Named': Named, 'jsons.JsonSerializable': jsons.JsonSerializable,
}
LEAVES['decimal.Decimal'] = __import__('decimal').Decimal
PARTS = ('int', 'str', 'datetime.date', HERE + '.P', HERE + '.E', 'NoneType')
GENERICS = {
    'typing.List[%s]': lambda a: List[a], 'list[%s]': lambda a: list[a], 'typing.Set[%s]': lambda a: Set[a],
    'typing.Optional[%s]': lambda a: Optional[a], 'typing.Union[%s, str]': lambda a: Union[a, str],
    'typing.Union[%s,bool,NoneType]': lambda a: Union[a, bool, None], 'typing.Dict[str, %s]': lambda a: Dict[str, a],
    'dict[str,%s]': lambda a: dict[str, a], 'typing.Tuple[%s, ...]': lambda a: Tuple[a, ...], 'typing.Tuple[%s]': lambda a: Tuple[a],
    'typing.Tuple[int, %s]': lambda a: Tuple[int, a], 'typing.Deque[%s]': lambda a: Deque[a],
    'typing.Sequence[%s]': lambda a: Sequence[a], 'typing.Iterable[%s]': lambda a: Iterable[a],
    'typing.DefaultDict[str, %s]': lambda a: DefaultDict[str, a], 'typing.Mapping[str, %s]': lambda a: Mapping[str, a],
    HERE + '.Box[%s]': lambda a: Box[a], 'typing.FrozenSet[%s]': lambda a: FrozenSet[a],
}
DEEP = {
    'typing.List[typing.List[%s]]': lambda a: List[List[a]], 'typing.Dict[str, typing.List[%s]]': lambda a: Dict[str, List[a]],
    'typing.Dict[str, typing.Dict[str, %s]]': lambda a: Dict[str, Dict[str, a]],
    'typing.Tuple[typing.Dict[str, %s], typing.List[int]]': lambda a: Tuple[Dict[str, a], List[int]],
    'typing.Union[typing.List[%s], typing.Dict[str, int]]': lambda a: Union[List[a], Dict[str, int]],
    'typing.Optional[typing.Tuple[%s, typing.Tuple[()]]]': lambda a: Optional[Tuple[a, Tuple[()]]],
    'typing.List[typing.Optional[typing.Dict[str, typing.Tuple[%s, ...]]]]': lambda a: List[Optional[Dict[str, Tuple[a, ...]]]],
    'typing.Tuple[()]': lambda a: Tuple[()], 'list[list[list[%s]]]': lambda a: list[list[list[a]]],
}


def _name(cls):
    return getattr(cls, '__name__', str(cls))


def fresh(g, cls=None):
    return g.native(jsons.fork)


def jsonlike(g, name, depth=1, concrete=False):
    """A JSON value."""
    kinds = ['int', 'str', 'none', 'bool', 'date', 'number'] + (['list', 'dict', 'object', 'pair'] if depth else [])
    kind = g.choice(name + ' kind', kinds)
    if kind == 'int':
        return g.choice(name, (7, -12)) if concrete else g.int(name, -9, 9)
    if kind == 'str':
        return g.choice(name + ' text', ('', 'RED', '12', 'true'))
    if kind == 'none':
        return None
    if kind == 'bool':
        return g.flag(name) if concrete else g.bool(name)
    if kind == 'date':
        return '2001-02-03'
    if kind == 'number':
        return 1.5
    if kind == 'list':
        return [jsonlike(g, name + '0', depth - 1, concrete)] if g.flag(name + ' one') else []
    if kind == 'pair':
        return [1, jsonlike(g, name + '1', depth - 1, concrete)]
    if kind == 'object':
        return {'n': jsonlike(g, name + 'n', depth - 1, concrete), 'item': 3, 'p': {'n': 2}, 'a': 1}
    return {'k': jsonlike(g, name + 'k', depth - 1, concrete)} if g.flag(name + ' one') else {}


def outcome(g, fn, *a, **kw):
    r = g.run(fn, *a, **kw)
    return (True, type(r.value), r.value) if r.ok else (False, type(r.exc), None)


def agree(g, name, cls):
    val = jsonlike(g, 'v', 1, 'str' in name)  # Concrete where it becomes text.
    kw = {'strict': True} if g.flag('strict') else {}
    # A dict that names itself text is read as a date over and over before it becomes text.
    text = 'str' in name and name.startswith(('str', 'typing.Union', 'typing.Optional'))
    by = g.choice('by', ('load', 'loads', 'meta') if isinstance(val, dict) and cls not in (Any, object) and not text else ('load', 'loads'))
    want = outcome(g, jsons.load, val, cls, fork_inst=fresh(g), **kw)
    if by == 'load':
        got = outcome(g, jsons.load, val, name, fork_inst=fresh(g), **kw)
    elif by == 'loads':
        # The name is passed on as it is.
        text = '[]' if isinstance(val, list) else '{}'
        want = outcome(g, jsons.loads, text, cls, fork_inst=fresh(g), **kw)
        got = outcome(g, jsons.loads, text, name, fork_inst=fresh(g), **kw)
    else:
        val = dict(val)
        named = dict(val)
        named['-meta'] = {'classes': {'/': name}}
        want = outcome(g, jsons.load, dict(named), cls, fork_inst=fresh(g), **kw)
        got = outcome(g, jsons.load, named, fork_inst=fresh(g), **kw)
    g.check(got[0] == want[0], 'loading by name and by class do not agree on success', want[1], got[1])
    g.check(got[1] is want[1], 'loading by name and by class give different types', want[1], got[1])
    if want[0]:
        g.same(got[2], want[2], 'loading by name')


@harness('names of importable, builtin and typing classes; JSON values nested to a depth of 1 (ints from -9 to 9); strictly or not; '
         'load, loads, and the name in meta information', params=sorted(LEAVES))
def classes(g):
    agree(g, g.param, LEAVES[g.param])


@harness('names of generic types (%d forms) with an argument of six classes; as classes' % len(GENERICS),
         params=[(f, a) for f in sorted(GENERICS) for a in range(0, len(PARTS), 3)])
def generics(g):
    form, a = g.param
    part = g.choice('part', PARTS[a:a + 3])
    agree(g, form % part, g.native(lambda: GENERICS[form](LEAVES[part])))


@harness('names of nested generic types; as generics', params=sorted(DEEP))
def nested_generics(g):
    form = g.param
    part = g.choice('part', ('int', HERE + '.P'))
    agree(g, form % part if '%' in form else form, g.native(lambda: DEEP[form](LEAVES[part])))


UNKNOWN = ('nope', 'no.such.Class', 'os.nope', HERE + '.Nope', 'int.x', '.', '..x', 'x.', '', ' ', 'a b', '[', ']', '[]', 'x[', ']x[', 'é',
           'x[int]', 'typing.List[nope]', 'list[nope]', 'typing.Dict[str, a.b.C]', 'typing.List[]', 'int[str]', 'list[int', 'list[int]]',
           'typing.Nope[int]', HERE + '.P[int]', HERE + '.E[int]', 'typing.List[typing.List[nope]]', 'typing.Union[int, nope]',
           'typing.Tuple[int, typing.Dict[str, nope]]', 'None', 'len', 'print', 'NotImplemented', 'True', 'os', 'jsons', 'Int', 'INT',
           'int ', ' int', '\x00', 'a\x00.b', '\ud800', '/tmp/x.y', 'a.' * 400 + 'b', 'x' * 5000, 'typing.Any[int]', 'os.environ[PATH]')


@harness('%d names that cannot be resolved, as the class and in meta information at the root and at an attribute; any int' % len(UNKNOWN),
         params=range(0, len(UNKNOWN), 8))
def unknown(g):
    name = g.choice('name', UNKNOWN[g.param:g.param + 8])
    how = g.choice('how', ('class', 'loads', 'root', 'attribute', 'list'))
    f = fresh(g)
    val = {'n': g.int('n')}
    if how == 'class':
        r = g.run(jsons.load, val, name, fork_inst=f, strict=g.flag('strict'))
    elif how == 'loads':
        val = {}
        r = g.run(jsons.loads, '{}', name, fork_inst=f)
    elif how == 'root':
        val['-meta'] = {'classes': {'/': name}}
        r = g.run(jsons.load, val, fork_inst=f)
    elif how == 'list':
        val['-meta'] = {'classes': {'/': name}}
        r = g.run(jsons.load, [val], List[P], fork_inst=f)
        if not r.ok:
            r.exc = r.exc.__cause__  # What failed is told by an error about the element.
    else:
        g.assume(name != '')  # No name at all.
        val = {'p': val, '-meta': {'classes': {'/': HERE + '.Q', '/p': name}}}
        r = g.run(jsons.load, val, fork_inst=f)
    g.check((not r.ok) and isinstance(r.exc, UnknownClassError), 'a name that cannot be resolved is not an UnknownClassError',
            r.exc or r.value)
    g.check(r.exc.target_name in name, 'the error does not carry the name', r.exc.target_name)
    if '[' not in name:
        g.check(r.exc.target_name == name, 'the error does not carry the whole name', r.exc.target_name)
    g.check(r.exc.target is None, 'the error has a target')


# Builtin classes with names up to six characters.
BUILTIN = dict([(n, c) for n, c in vars(builtins).items() if isinstance(c, type) and len(n) <= 6])


def resolvable(name):
    """Whether a name is that of something that can be imported."""
    if name.endswith(']'):
        try:
            eval(''.join([' ' if c.isspace() else c for c in name]).strip(), {'typing': typing})
            return True
        except Exception:
            return False
    module, _, attr = name.rpartition('.')
    try:
        getattr(importlib.import_module(module), attr)
        return True
    except Exception:
        return False


def name_outcome(g, name, val, f):
    how = g.choice('how', ('class', 'meta'))
    if how == 'class':
        return g.run(jsons.load, val, name, fork_inst=f)
    return g.run(jsons.load, {'n': val, '-meta': {'classes': {'/': name}}}, fork_inst=f)


def arbitrary(g, name):
    val = [[1]]
    r = g.run(jsons.load, val, name, fork_inst=fresh(g))
    known = None
    for n in BUILTIN:
        if name == n:
            known = n
    if known is not None:
        want = g.run(jsons.load, val, BUILTIN[known], fork_inst=fresh(g))
        g.check(r.ok == want.ok, 'loading by the name of a builtin class and by the class do not agree')
        if r.ok:
            g.check(type(r.value) is type(want.value), 'loading by the name of a builtin class gives another type')
        else:
            g.check(type(r.exc) is type(want.exc), 'loading by name fails with another error')
        return
    if not r.ok and isinstance(r.exc, UnknownClassError):
        g.check(r.exc.target_name in name, 'the error does not carry the name')
        if '[' not in name:
            g.check(r.exc.target_name == name, 'the error does not carry the whole name')
    else:
        g.check(g.native(resolvable, g.concrete(name)), 'a name that cannot be resolved is not an UnknownClassError', name)


@harness('any text up to 4 characters as the name of a class', params=range(5), timeout=(200, 1500))
def any_name(g):
    n = g.param
    arbitrary(g, g.str('name', n, n))


PLACES = ('list[%s]', 'typing.Dict[str, %s]', 'jsons.%s', '%s.P', '%s[int]', 'list[%s', '[%s]')


@harness('any text up to 3 characters as the argument of a generic type, or after a module',
         params=[(a, n) for a in PLACES for n in range(4)],
         timeout=(200, 1500))
def any_part(g):
    form, n = g.param
    part = g.str('name', n, n)
    before, after = form.split('%s')
    arbitrary(g, before + part + after)


@harness('any text of 5 characters as the name of a class', tiers=('thorough',), timeout=(200, 1500))
def any_longer_name(g):
    arbitrary(g, g.str('name', 5, 5))


@harness('any text of 4 characters as in any_part', params=PLACES, tiers=('thorough',), timeout=(200, 1500))
def any_longer_part(g):
    before, after = g.param.split('%s')
    arbitrary(g, before + g.str('name', 4, 4) + after)


ANNOUNCED = ('Plain', 'plain.Nope', 'a b', 'len', 'license', 'x[y]', 'Box[int]', 'list[nope]', '.x', 'x.', 'None', 'é', '...', '()', 'int.x',
             'typing.Nope', HERE + '.Nope', '[', ']', '-', '1', 'jsons', 'True', 'P')


class Local:
    def __init__(self, n: int = 0):
        self.n = n


class Local2(Local):
    pass


def announced_as(g, name, cls, f):
    val = {'n': g.int('n', 1, 9)}
    where = g.choice('where', ('class', 'generic', 'meta', 'attribute', 'loads'))
    if where == 'class':
        r = g.run(jsons.load, val, name, fork_inst=f)
    elif where == 'loads':
        val = {'n': 0}
        r = g.run(jsons.loads, '{}', name, fork_inst=f)
    elif where == 'generic':
        g.assume(('[' not in name) & (']' not in name) & (name not in ('...', '()')))
        r = g.run(jsons.load, [val], 'typing.List[' + name + ']', fork_inst=f)
        if r.ok:
            r.value = r.value[0]
    elif where == 'meta':
        val['-meta'] = {'classes': {'/': name}}
        r = g.run(jsons.load, val, fork_inst=f)
    else:
        r = g.run(jsons.load, {'p': val, '-meta': {'classes': {'/': HERE + '.Q', '/p': name}}}, fork_inst=f)
        if r.ok:
            r.value = r.value.p
    if cls is None:
        g.check((not r.ok) and isinstance(r.exc, UnknownClassError), 'a name that was not announced is not an UnknownClassError', name)
        return
    g.check(r.ok, 'an announced name is not resolved', r.exc)
    g.check(type(r.value) is cls, 'a name resolves to another class than was announced', type(r.value), cls)
    g.check(r.value.n == val['n'], 'the object is loaded wrongly', r.value.n)


@harness('%d announced names: any kind of text that is no importable or builtin class; announced to one of two configurations, '
         'loaded in either, as the class, in generics, in meta information, as part of an attribute' % len(ANNOUNCED),
         params=range(0, len(ANNOUNCED), 6))
def announced(g):
    name = g.choice('name', ANNOUNCED[g.param:g.param + 6])
    forks = [None, fresh(g)]
    to = g.choice('to', (0, 1))
    at = g.choice('at', (0, 1))
    kw = {} if to == 0 else {'fork_inst': forks[1]}
    g.native(lambda: jsons.announce_class(Local, name, **kw))
    f = forks[at] or jsons.fork.__defaults__[0]
    announced_as(g, name, Local if to == at else None, f)


@harness('histories of four operations: announce one of two classes by one of two names to one of two configurations, or fork a '
         'configuration anew; then load by either name in each', timeout=(150, 1500), params=['P', 'a.b'])
def history(g):
    names = (g.param, 'my class')
    holder = jsons.fork.__defaults__[0]
    forks = [holder, fresh(g)]
    known = [{}, {}]
    for k in range(g.b(3, 4)):
        op = g.choice('op %d' % k, ('announce', 'fork'))
        i = g.choice('config %d' % k, (0, 1))
        if op == 'fork':
            g.assume(len(forks) == 2)
            forks.append(g.native(jsons.fork, forks[i]))
            known.append(dict(known[i]))
            continue
        if len(forks) == 3 and g.flag('new %d' % k):
            i = 2
        name = g.choice('name %d' % k, names)
        cls = g.choice('class %d' % k, (Local, Local2))
        g.native(lambda: jsons.announce_class(cls, name, fork_inst=forks[i]))
        known[i][name] = cls
    for i, f in enumerate(forks):
        for name in names:
            r = g.run(jsons.load, {'n': 3}, name, fork_inst=f)
            cls = known[i].get(name)
            if cls is None:
                g.check((not r.ok) and isinstance(r.exc, UnknownClassError), 'a name that was not announced is resolved')
            else:
                g.check(r.ok, 'an announced name is not resolved')
                g.check(type(r.value) is cls, 'a name resolves to another class than was announced last')


@harness('any name up to 3 characters where names "ab", "x.y", "len" and "a]" have been announced')
def any_announced(g):
    f = fresh(g)
    mine = ('ab', 'x.y', 'len', 'a]')
    for n in mine:
        g.native(jsons.announce_class, Local, n, f)
    n = g.choice('length', (0, 1, 2, 3))
    name = g.str('name', n, n)
    r = g.run(jsons.load, {'n': 3}, name, fork_inst=f)
    hit = False
    for m in mine:
        if name == m:
            hit = True
    if hit:
        g.check(r.ok, 'an announced name is not resolved')
        g.check(type(r.value) is Local, 'an announced name resolves to another class')
    else:
        g.check(not (r.ok and type(r.value) is Local), 'a name that was not announced resolves to a class that was')


@harness('verbose dumps of classes that cannot be imported: they load where they were announced or dumped, and fail elsewhere; any int')
def local_classes(g):
    class Inner:
        def __init__(self, n: int):
            self.n = n

    class Outer:
        def __init__(self, inner: Inner, m: int):
            self.inner, self.m = inner, m

    f = fresh(g)
    elsewhere = fresh(g)
    n, m = g.int('n'), g.int('m')
    js = g.ok('dump', jsons.dump, Outer(Inner(n), m), verbose=jsons.Verbosity.WITH_CLASS_INFO, fork_inst=f)
    r = g.run(jsons.load, js, fork_inst=elsewhere)
    g.check((not r.ok) and isinstance(r.exc, UnknownClassError), 'a name that was not announced is resolved')
    g.check(r.exc.target_name == HERE + '.Outer', 'the error carries another name')
    where = g.choice('where', ('same', 'announced', 'half'))
    if where != 'same':
        g.native(jsons.announce_class, Outer, None, elsewhere)
        if where == 'announced':
            g.native(jsons.announce_class, Inner, None, elsewhere)
    r = g.run(jsons.load, js, fork_inst=f if where == 'same' else elsewhere)
    if where == 'half':
        g.check((not r.ok) and isinstance(r.exc, UnknownClassError), 'a name that was not announced is resolved')
        g.check(r.exc.target_name == HERE + '.Inner', 'the error carries another name')
        return
    g.check(r.ok, 'the dump of a known class cannot be loaded', r.exc)
    g.check(type(r.value) is Outer, 'the dump is loaded as another class')
    g.check(type(r.value.inner) is Inner, 'the attribute is loaded as another class')
    g.check((r.value.m == m) & (r.value.inner.n == n), 'the object is loaded wrongly')
