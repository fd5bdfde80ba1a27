"""C05: objects are constructed from required, defaulted, optional and extra keys."""
import dataclasses
import typing
from typing import Any, Dict, List, NamedTuple, Optional, Union

import attr
import jsons
from checks.shapes import Plain, Slotted
from engine.api import harness


class Token:
    """A value that can be told from any other."""

    def __init__(self, name):
        self.name = name


MISSING = Token('missing')
TYPES = {'untyped': None, 'int': int, 'optional': Optional[int], 'any': Any, 'list': List[int], 'nothing': type(None), 'union': Union[str, None],
         'object': object}
NULLABLE = ('untyped', 'optional', 'any', 'nothing', 'union', 'object')


def typed_value(g, name, ann):
    """A JSON value of the annotated type and the loaded value."""
    if ann == 'nothing':
        return None, None
    if ann == 'list':
        v = [g.int(name + '.v')] if name != 'a' or g.flag(name + ' has elements') else []
        return v, v
    if ann == 'union':
        v = g.choice(name + ' text', ('z', ''))
        return v, v
    v = g.int(name + '.v')
    return v, v


class Param:
    """A constructor parameter and what is given for it."""

    def __init__(self, g, name, ann, default, state, kwonly=False):
        self.name, self.ann, self.default, self.state, self.kwonly = name, ann, default, state, kwonly
        self.present = state in ('present', 'both', 'null')
        self.getter = state in ('getter', 'both')
        if state == 'null':
            self.json = self.value = None
        elif self.present:
            self.json, self.value = typed_value(g, name, ann)
        self.got = g.choice('got by ' + name, (Token('got ' + name), None, 0)) if self.getter and not self.present and name == 'a' else Token('got ' + name)
        self.dflt = g.choice('default of ' + name, (Token('default ' + name), None, '')) if default and state == 'absent' and name == 'a' else \
            Token('default ' + name)

    def expected(self):
        """The value the constructor must be called with, or MISSING."""
        if self.present:
            return self.value
        if self.getter:
            return self.got
        if self.default:
            return self.dflt
        if self.ann in NULLABLE:
            return None
        return MISSING


def function_class(params, var=''):
    """A class with the given constructor parameters, which records what it is called with."""
    parts, ns, star = ['self'], {'TYPES': TYPES}, False
    for p in params:
        if p.kwonly and not star:
            parts.append('*')
            star = True
        text = p.name
        if TYPES[p.ann] is not None or p.ann == 'nothing':
            text += ': TYPES["%s"]' % p.ann
        if p.default:
            ns['dflt_' + p.name] = p.dflt
            text += ' = dflt_' + p.name
        parts.append(text)
    if var:
        parts.append(var)
    body = ''.join('\n        self.%s = %s' % (p.name, p.name) for p in params)
    src = 'class Made:\n    def __init__(%s):\n        self.calls = getattr(self, "calls", 0) + 1%s\n' % (', '.join(parts), body)
    exec(src, ns)
    return ns['Made']


def made_dataclass(params):
    fields = []
    for p in params:
        t = TYPES[p.ann] if p.ann not in ('untyped', 'nothing') else (Any if p.ann == 'untyped' else type(None))
        fields.append((p.name, t, dataclasses.field(default=p.dflt, kw_only=p.kwonly) if p.default else dataclasses.field(kw_only=p.kwonly)))
    return dataclasses.make_dataclass('Made', fields)


def made_attrs(params):
    fields = {}
    for p in params:
        kw = {'default': p.dflt} if p.default else {}
        fields[p.name] = attr.ib(type=None if p.ann == 'untyped' else TYPES[p.ann], kw_only=p.kwonly, **kw)
    return attr.make_class('Made', fields)


def inherited(params):
    base = function_class(params)
    return type('Made', (base,), {})


def same_value(g, a, b, msg):
    if isinstance(b, Token):
        g.check(a is b, msg, a, b)
    else:
        g.same(a, b, msg)


def check_outcome(g, out, params, extras, strict, slots=False):
    missing = [p.name for p in params if p.expected() is MISSING]
    rejected = [p.name for p in params if p.state == 'null' and p.ann not in NULLABLE]
    unexpected = list(extras) if strict else []
    if rejected:
        g.check(not out.ok and isinstance(out.exc, jsons.JsonsError), 'None for a parameter that does not admit it', out.value, out.exc)
        return
    if missing or unexpected:
        g.check(not out.ok, 'loaded in spite of missing or unexpected keys', out.value, missing, unexpected)
        e = out.exc
        if isinstance(e, jsons.UnfulfilledArgumentError):
            g.check(e.argument in missing, 'argument named by the error', e.argument, missing)
        elif isinstance(e, jsons.exceptions.SignatureMismatchError):
            g.check(e.argument in unexpected, 'argument named by the error', e.argument, unexpected)
        else:
            g.fail('no error for unfulfilled or unexpected arguments', type(e), e)
        return
    g.check(out.ok, 'load fails', out.exc)
    for p in params:
        same_value(g, getattr(out.value, p.name, MISSING), p.expected(), 'value of a constructor parameter')
    for k, v in extras.items():
        same_value(g, getattr(out.value, k, MISSING), v, 'attribute for a key that is no parameter')


STATES = ('present', 'absent', 'getter', 'both', 'null')
CONFIGS = [(ann, default, state) for ann in TYPES for default in (False, True) for state in STATES
           if not (state == 'null' and default)]
MAKERS = {'function': function_class, 'dataclass': made_dataclass, 'attrs': made_attrs, 'inherited': inherited}


def arrange(params):
    """Python wants parameters with defaults behind: the rest becomes keyword-only."""
    seen = False
    for p in params:
        if seen and not p.default:
            p.kwonly = True
        seen = seen or p.default or p.kwonly
        p.kwonly = p.kwonly or any(q.kwonly for q in params[:params.index(p)])
    return params


def load_made(g, cls, params, extras, strict, extra_getters=(), **kw):
    obj = {}
    for k, v in extras.items():
        if k < 'w':
            obj[k] = v
    for p in params:
        if p.present:
            obj[p.name] = p.json
    for k, v in extras.items():
        if not k < 'w':
            obj[k] = v
    getters = {p.name: (lambda p=p: p.got) for p in params if p.getter}
    for k in extra_getters:
        getters[k] = lambda: Token('unwanted')
    if getters or g.flag('empty getters'):
        kw['attr_getters'] = getters
    return g.run(jsons.load, obj, cls, strict=strict, **kw)


@harness('two parameters: one of %d kinds, one of 6 kinds, 4 kinds of classes, up to 2 extra keys, strict or not; all int values' % len(CONFIGS),
         params=list(range(0, len(CONFIGS), 3)))
def parameters(g):
    first = g.choice('first', CONFIGS[g.param:g.param + 3])
    second = g.choice('second', (('int', False, 'present'), ('int', False, 'absent'), ('int', True, 'absent'), ('optional', False, 'getter'),
                                 ('untyped', False, 'absent'), ('optional', True, 'null'))[:g.b(3, 6)] if first[2] != 'absent' else
                      (('int', False, 'present'), ('optional', False, 'absent'), ('int', True, 'getter'), ('int', False, 'absent')))
    params = [Param(g, 'a', *first), Param(g, 'b', *second)]
    if g.flag('swapped'):
        params.reverse()
    arrange(params)
    cls = g.native(MAKERS[g.choice('maker', tuple(MAKERS))], params)
    extras = {}
    for k in g.choice('extras', ((), ('x',), ('_c', 'x'))[:g.b(2, 3)]):
        extras[k] = g.int('extra ' + k)
    strict = g.flag('strict')
    out = load_made(g, cls, params, extras, strict, ('x',) if 'x' in extras and g.flag('getter x') else ())
    check_outcome(g, out, params, extras, strict)


@harness('three parameters and variable ones (*args, **kwargs, both), each present, absent, with getter or default')
def variable(g):
    kinds = (('int', False, 'present'), ('int', True, 'absent'), ('optional', False, 'absent'), ('int', False, 'absent'), ('int', False, 'getter'))
    params = [Param(g, n, *g.choice(n, kinds)) for n in g.choice('names', (('a',), ('a', 'b'), ('a', 'b', 'c')))]
    arrange(params)
    var = g.choice('var', ('**rest', '*rest', '*more, **rest'))
    if var.startswith('*') and not var.startswith('**') and any(p.kwonly for p in params):
        return
    cls = g.native(function_class, params, var)
    extras = {'x': g.int('x')} if g.flag('extra') else {}
    strict = g.flag('strict')
    out = load_made(g, cls, params, extras, strict)
    check_outcome(g, out, params, extras, strict)


# -- extra keys ---------------------------------------------------------------------------------

class Extras:
    x: int
    p: Plain
    ps: List[Plain]
    o: Optional[Plain]

    def __init__(self, a: int):
        self.a = a


@harness('keys that are no parameter: annotated in the class or not, any subset and order')
def extra_keys(g):
    obj, want = {}, {}
    for k in g.choice('order', (('x', 'p', 'a', 'ps', 'o', 'free', 'li', 'di'), ('di', 'o', 'free', 'a', 'x', 'li', 'ps', 'p'))):
        if k == 'a' or g.flag('has ' + k):
            v = g.int(k, 0, 9) if k in ('p', 'ps', 'o') else g.int(k)
            obj[k] = {'p': lambda: {'a': v, 'b': 'p'}, 'ps': lambda: [{'a': v, 'b': 'q'}], 'o': lambda: None, 'li': lambda: [v, 'z'],
                      'di': lambda: {'k': v}}.get(k, lambda: v)()
            want[k] = {'p': lambda: Plain(v, 'p'), 'ps': lambda: [Plain(v, 'q')], 'o': lambda: None, 'li': lambda: [v, 'z'],
                       'di': lambda: {'k': v}}.get(k, lambda: v)()
    strict = g.flag('strict')
    out = g.run(jsons.load, obj, Extras, strict=strict)
    if strict and len(want) > 1:
        g.check(not out.ok and isinstance(out.exc, jsons.exceptions.SignatureMismatchError), 'strict load accepts keys that are no parameter', out.value)
        g.check(out.exc.argument in want and out.exc.argument != 'a', 'argument named by the error', out.exc.argument)
        return
    g.check(out.ok, 'load fails', out.exc)
    g.check(sorted(vars(out.value)) == sorted(want), 'attributes of the instance', vars(out.value), want)
    for k, v in want.items():
        same_value(g, getattr(out.value, k), v, 'attribute ' + k)


class Guarded:
    """A property without setter, one with setter, and slots in the base class."""

    def __init__(self, a: int):
        self.a = a
        self._w = None

    @property
    def read_only(self):
        return self.a

    @property
    def writable(self):
        return self._w

    @writable.setter
    def writable(self, value):
        self._w = value


@harness('keys of properties with and without setter and of slots')
def special_keys(g):
    if g.flag('slots'):
        obj = {'a': g.int('a'), 'b': g.opt('b', g.bool)}
        if g.flag('extra'):
            obj['zz'] = 1
        r = g.ok('load', jsons.load, obj, Slotted)
        g.check((r.a == obj['a']) & (not hasattr(r, 'zz')), 'slots', r.a)
        g.same(r.b, obj['b'], 'slot')
        return
    obj = {'a': g.int('a')}
    for k in g.subset('keys', ('read_only', 'writable')):
        obj[k] = g.int(k)
    r = g.ok('load', jsons.load, obj, Guarded)
    g.check(r.a == obj['a'], 'parameter')
    g.check(r.read_only == obj['a'], 'a property without setter is not touched')
    if 'writable' in obj:
        g.check(r.writable == obj['writable'], 'a property with setter is set')
    else:
        g.check(r.writable is None, 'a property with setter is left alone')


# -- at depth, and with key transformers -------------------------------------------------------------

class Inner:
    def __init__(self, my_a: int, my_b: Optional[int], my_c: int = 7):
        self.my_a, self.my_b, self.my_c = my_a, my_b, my_c


class Outer:
    def __init__(self, my_inner: Inner, my_list: List[Inner], my_n: int = 3):
        self.my_inner, self.my_list, self.my_n = my_inner, my_list, my_n


SPELL = {None: lambda k: k, jsons.KEY_TRANSFORMER_SNAKECASE: lambda k: k[:2] + k[3].upper() + k[4:]}


def inner(g, n, spell, want):
    """A JSON object for Inner with any subset of its keys."""
    obj = {}
    w = {}
    for k, d in (('my_a', MISSING), ('my_b', None), ('my_c', 7)):
        if g.flag('%s has %s' % (n, k)):
            obj[spell(k)] = w[k] = g.int('%s.%s' % (n, k))
        else:
            w[k] = d
    if g.flag(n + ' extra'):
        obj[spell('my_x')] = w['my_x'] = g.int(n + '.x')
    want.append(w)
    return obj


@harness('objects of objects and lists of objects, any keys missing or extra at each, with and without key transformer')
def nested(g):
    kt = g.choice('kt', tuple(SPELL))
    spell = SPELL[kt]
    want = []
    obj = {spell('my_inner'): inner(g, 'i', spell, want), spell('my_list'): [inner(g, 'l', spell, want)]}
    if g.flag('n'):
        obj[spell('my_n')] = g.int('n.v')
    strict = g.flag('strict')
    kw = {'key_transformer': kt} if kt else {}
    if strict:
        kw['strict'] = True
    out = g.run(jsons.load, obj, Outer, **kw)
    missing = any(w['my_a'] is MISSING for w in want)
    extra = strict and any('my_x' in w for w in want)
    if missing or extra:
        g.check(not out.ok and isinstance(out.exc, jsons.JsonsError), 'load of an incomplete or overfull object', out.value, obj)
        e = out.exc
        while e is not None and not hasattr(e, 'argument'):
            e = e.__cause__
        g.check(e is not None, 'no error for the argument', out.exc)
        g.check(missing and e.argument == 'my_a' or extra and e.argument == 'my_x', 'argument named by the error', e.argument)
        return
    g.check(out.ok, 'load fails', out.exc, obj)
    r = out.value
    g.check(r.my_n == obj[spell('my_n')] if spell('my_n') in obj else r.my_n == 3, 'defaulted parameter', r.my_n)
    for x, w in zip([r.my_inner] + r.my_list, want):
        g.check(x.__class__ is Inner, 'class of a part', x)
        for k, v in w.items():
            g.same(getattr(x, k, MISSING), v, 'attribute of a part')


# -- named tuples -----------------------------------------------------------------------------------

class Named(NamedTuple):
    a: int
    b: Optional[int]
    c: int = 5
    d: Optional[Plain] = Plain(1, 'd')
    e: List[int] = None
    f: Any = 4


@harness('named tuples from dicts and lists with any fields missing')
def named(g):
    values = {'a': lambda: g.int('a'), 'b': lambda: g.opt('b', g.int), 'c': lambda: g.int('c'), 'd': lambda: None, 'e': lambda: [g.int('e')],
              'f': lambda: g.bool('f')}
    if g.flag('list'):
        present = Named._fields[:g.len('n', 6)]
        obj = [values[k]() for k in present]
        given = dict(zip(present, obj))
    else:
        present = g.subset('keys', Named._fields)
        obj = given = {k: values[k]() for k in present}
    out = g.run(jsons.load, obj, Named, strict=g.flag('strict'))
    if 'a' not in given:
        g.check(not out.ok and isinstance(out.exc, jsons.UnfulfilledArgumentError), 'missing field', out.value)
        g.check(out.exc.argument == 'a', 'argument named by the error', out.exc.argument)
        return
    g.check(out.ok, 'load fails', out.exc)
    g.check(out.value.__class__ is Named, 'class', out.value)
    for k in Named._fields:
        got = getattr(out.value, k)
        if k in given:
            g.same(got, given[k], 'given field')
        elif k == 'b':
            g.check(got is None, 'optional field', got)
        else:
            g.check(got is Named._field_defaults[k], 'defaulted field', got)


# -- getters ------------------------------------------------------------------------------------------

@harness('getters for the attributes of a top-level object and of list elements; every subset present')
def getters(g):
    a, b = Token('a'), Token('b')
    calls = []

    def get_a():
        calls.append('a')
        return a

    def get_b():
        calls.append('b')
        return b
    given = {}
    for k in g.subset('getters', ('my_a', 'my_b', 'my_c')):
        given[k] = get_a if k == 'my_a' else get_b
    frozen = dict(given)
    w = []
    obj = inner(g, 'o', lambda k: k, w)
    want = w[0]
    where = g.choice('where', ('top', 'list'))
    if where == 'top':
        out = g.run(jsons.load, obj, Inner, attr_getters=given)
    else:
        out = g.run(jsons.load, [obj], List[Inner], attr_getters=given)
    g.check(given == frozen, 'the given getters are changed', given)
    for k in ('my_a', 'my_b', 'my_c'):
        if k not in obj and k in given:
            want[k] = a if k == 'my_a' else b
    if want['my_a'] is MISSING:
        g.check(not out.ok and isinstance(out.exc, jsons.JsonsError), 'missing argument', out.value)
        return
    g.check(out.ok, 'load fails', out.exc)
    r = out.value if where == 'top' else out.value[0]
    for k, v in want.items():
        same_value(g, getattr(r, k, MISSING), v, 'attribute')
    if where == 'top':
        n_a = 1 if want['my_a'] is a else 0
        g.check(calls.count('a') == n_a, 'a getter is called for a present key or more than once', calls)
