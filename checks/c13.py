"""C13: key transformers are total, idempotent and apply to every key at every depth."""
from collections import defaultdict
from dataclasses import dataclass
from typing import Any, DefaultDict, Dict, List, Mapping, NamedTuple, Optional, Tuple, Union

import jsons
from checks.spec import KINDS, Opts, pattern_tree
from engine.api import harness

KT = {'camel': jsons.KEY_TRANSFORMER_CAMELCASE, 'snake': jsons.KEY_TRANSFORMER_SNAKECASE,
      'pascal': jsons.KEY_TRANSFORMER_PASCALCASE, 'lisp': jsons.KEY_TRANSFORMER_LISPCASE}
STYLES = tuple(KT)
ASCII = [(32, 126)]
FEW = [(45, 45), (65, 66), (95, 95), (97, 98)]


def idempotent(g, style, s):
    once = g.ok('transformer', KT[style], s)
    g.check(isinstance(once, str), 'not a string', once)
    twice = g.ok('transformer', KT[style], once)
    g.check(twice == once, 'not idempotent', s, once, twice)
    return once


@harness('every string of up to 1 (thorough: 2) code points of any kind, bare and after and before others',
         params=[(style, around) for style in STYLES for around in (('', ''), ('a_', 'B'), ('A', '-c'), ('_', '_'))],
         timeout=(200, 1500))
def any_string(g):
    style, (before, after) = g.param
    idempotent(g, style, before + g.str('s', g.b(1, 2)) + after)


@harness('every string of up to 3 (thorough: 4) printable ASCII characters', params=STYLES, timeout=(120, 1500))
def ascii_string(g):
    s = g.str('s', g.b(3, 4), chars=ASCII)
    r = idempotent(g, g.param, s)
    # Nothing but separators comes or goes.
    if g.param != 'snake' and g.param != 'lisp':
        g.check('_' not in r and '-' not in r, 'a separator is left', r)
    else:
        g.check(('-' if g.param == 'snake' else '_') not in r, 'a separator of another style is left', r)


@harness('every string of up to 5 (thorough: 6) characters of a, b, A, B, - and _', params=STYLES, timeout=(200, 1500))
def separators(g):
    """No letter is lost or changed but in case; their order is kept."""
    s = g.str('s', g.b(5, 6), chars=FEW)
    r = idempotent(g, g.param, s)
    g.check(letters(r) == letters(s), 'letters are lost or changed', s, r)


def letters(s):
    return s.replace('_', '').replace('-', '').lower()


def word(g, name, lo, hi):
    return [g.int('%s.%d' % (name, k), 97, 122) for k in range(g.len(name + '.len', hi, lo))]


def text(cps):
    return ''.join([chr(c) for c in cps])


def spell(style, words):
    if style == 'snake':
        return '_'.join([text(w) for w in words])
    if style == 'lisp':
        return '-'.join([text(w) for w in words])
    caps = [text([w[0] - 32]) + text(w[1:]) for w in words]
    if style == 'camel':
        caps[0] = text(words[0])
    return ''.join(caps)


@harness('every name of up to 3 words of 2 to 3 letters each (thorough: up to 4 words, 4 letters)',
         params=[a + '>' + b for a in STYLES for b in STYLES], timeout=(120, 1500))
def names(g):
    """From each style to each other one."""
    source, target = g.param.split('>')
    words = [word(g, 'w%d' % k, 2, g.b(3, 4)) for k in range(g.len('words', g.b(3, 4), 1))]
    s = spell(source, words)
    r = g.ok('transformer', KT[target], s)
    g.check(r == spell(target, words), 'not the conventional spelling', s, r)
    back = g.ok('transformer', KT[source], r)
    g.check(back == s, 'does not convert back', s, r, back)


# -- applied to every key, once ----------------------------------------------------------------------

def mark(key):
    return key + '!'


def unmark(key):
    assert key.endswith('!'), 'a key that is not marked'
    return key[:-1]


@harness('an object tree of depth 2 (thorough: 3) of every kind of object and container; any ints or None at the leaves',
         params=KINDS)
def dumped(g):
    """A transformer that is not idempotent shows whether it is applied exactly once."""
    kinds = (g.param,) + tuple(g.choice('kind %d' % k, KINDS) for k in range(1, g.b(2, 3)))
    node = pattern_tree(g, 't', kinds)
    o = Opts(nulls=g.flag('nulls'), transform=mark)
    r = g.ok('dump', jsons.dump, node.v, key_transformer=mark, **o.kwargs())
    g.same(r, node.dump(o), 'dump')
    plain = g.ok('dump', jsons.dump, node.v, key_transformer=None, **o.kwargs())
    g.same(plain, node.dump(Opts(nulls=o.nulls)), 'dump without transformer')


def _marked(g, name, depth, fn):
    """A nesting of dicts and lists with keys transformed by fn, and what it is without."""
    kind = g.choice(name, ('leaf', 'dict', 'list', 'two') if depth else ('leaf', 'text'))
    if kind == 'leaf':
        v = g.int(name + '.v')
        return v, v
    if kind == 'text':
        v = g.choice(name + '.v', ('', 'text', 'my_key'))
        return v, v
    a, b = _marked(g, name + '.0', depth - 1, fn)
    if kind == 'list':
        return [a], [b]
    if kind == 'dict':
        return {fn('my_key'): a}, {'my_key': b}
    n = g.int(name + '.n')
    return {fn('k'): a, fn(''): n, 3: n, None: a}, {'k': b, '': n, 3: n, None: b}


@harness('nested dicts and lists of depth 3 with string and other keys and any ints',
         params=('dump', 'load', 'load dict type', 'dump strict', 'dump list'))
def nested(g):
    wrapped, bare = _marked(g, 't', 3, mark)
    if g.param == 'dump':
        r = g.ok('dump', jsons.dump, bare, key_transformer=mark)
        g.same(r, wrapped, 'dump')
    elif g.param == 'dump strict':
        r = g.ok('dump', jsons.dump, [bare], List[Any], strict=True, key_transformer=mark)
        g.same(r, [wrapped], 'dump')
    elif g.param == 'dump list':
        r = g.ok('dump', jsons.dump, {'x': [bare]}, key_transformer=mark)
        g.same(r, {'x!': [wrapped]}, 'dump')
    elif g.param == 'load':
        r = g.ok('load', jsons.load, wrapped, key_transformer=unmark)
        g.same(r, bare, 'load')
    else:
        g.assume(isinstance(bare, dict))
        strict = g.flag('strict')
        r = g.ok('load', jsons.load, wrapped, dict if strict else None, strict=strict, key_transformer=unmark)
        g.same(r, bare, 'load')


class In:
    def __init__(self, my_val: int, other_val: Optional[int] = None):
        self.my_val, self.other_val = my_val, other_val


class Out:
    def __init__(self, one_in: In, more_in: List[In], by_name: Dict[str, In], opt_in: Optional[In] = None):
        self.one_in, self.more_in, self.by_name, self.opt_in = one_in, more_in, by_name, opt_in


class Loose:
    def __init__(self, some_attr):
        self.some_attr = some_attr


class Rest:
    late_attr: int
    late_in: In

    def __init__(self):
        pass


@dataclass
class Data:
    first_val: int
    in_tuple: Tuple[In, ...]
    in_union: Union[int, In]


class Named(NamedTuple):
    first_field: int
    second_field: In


class Slotted:
    __slots__ = ('my_slot', 'your_slot')

    def __init__(self, my_slot: int, your_slot: In):
        self.my_slot, self.your_slot = my_slot, your_slot


def m_in(g, n, o=False):
    v = g.int(n)
    return {'my_val': v, 'other_val': None}, In(v)


def m_out(g, n):
    (a, x), (b, y), (c, z) = m_in(g, n + '0'), m_in(g, n + '1'), m_in(g, n + '2')
    few = g.flag(n + 'few')
    return ({'one_in': a, 'more_in': [b] if few else [b, c], 'by_name': {'my_key': c}, 'opt_in': None if few else a},
            Out(x, [y] if few else [y, z], {'my_key': z}, None if few else x))


def m_loose(g, n):
    v = g.int(n)
    some = g.choice(n + 'shape', (0, 1, 2))
    x = (v, [v, {'in_list': v}], {'a_key': {'b_key': [v]}})[some]
    return {'some_attr': x}, Loose(x)


def m_rest(g, n):
    a, x = m_in(g, n + '0')
    r = Rest()
    r.late_attr, r.late_in = g.int(n), x
    return {'late_attr': r.late_attr, 'late_in': a}, r


def m_data(g, n):
    (a, x), (b, y) = m_in(g, n + '0'), m_in(g, n + '1')
    v = g.int(n)
    u = g.flag(n + 'u')
    return {'first_val': v, 'in_tuple': [a, b], 'in_union': v if u else b}, Data(v, (x, y), v if u else y)


def m_named(g, n):
    a, x = m_in(g, n + '0')
    v = g.int(n)
    return {'first_field': v, 'second_field': a}, Named(v, x)


def m_slots(g, n):
    a, x = m_in(g, n + '0')
    v = g.int(n)
    return {'my_slot': v, 'your_slot': a}, Slotted(v, x)


MODELS = {'in': (In, m_in), 'out': (Out, m_out), 'loose': (Loose, m_loose), 'rest': (Rest, m_rest),
          'data': (Data, m_data), 'named': (Named, m_named), 'slots': (Slotted, m_slots)}


def keyed(js, fn):
    if isinstance(js, dict):
        return {fn(k): keyed(v, fn) for k, v in js.items()}
    if isinstance(js, list):
        return [keyed(v, fn) for v in js]
    return js


WRAPS = {
    'top': (lambda c: c, lambda j: j, lambda o: o),
    'list': (lambda c: List[c], lambda j: [j, j], lambda o: [o, o]),
    'dict': (lambda c: Dict[str, c], lambda j: {'a_k': j}, lambda o: {'a_k': o}),
    'tuple': (lambda c: Tuple[c, int], lambda j: [j, 1], lambda o: (o, 1)),
    'mapping': (lambda c: Mapping[str, c], lambda j: {'a_k': j}, lambda o: {'a_k': o}),
    'deep': (lambda c: Dict[str, List[Dict[str, c]]], lambda j: {'a_k': [{'b_k': j}]}, lambda o: {'a_k': [{'b_k': o}]}),
    'optional': (lambda c: Optional[c], lambda j: j, lambda o: o),
}


@harness('objects of every kind, inside each kind of container, any ints; marked keys',
         params=[m + '/' + w for m in MODELS for w in WRAPS])
def loaded(g):
    """With a transformer that works only if it is applied exactly once to each key."""
    model, wrap = g.param.split('/')
    cls, make = MODELS[model]
    js, obj = make(g, 'o')
    wcls, wjs, wobj = WRAPS[wrap]
    r = g.ok('load', jsons.load, keyed(wjs(js), mark), wcls(cls), key_transformer=unmark)
    g.same(r, wobj(obj), 'load')


@harness('objects of every kind; dumped with one style and loaded with snake case, any ints', params=tuple(MODELS))
def inverse(g):
    cls, make = MODELS[g.param]
    js, obj = make(g, 'o')
    style = g.choice('style', STYLES)
    inside = g.flag('inside')
    strict = g.flag('strict') if g.param != 'rest' else False
    d = g.ok('dump', jsons.dump, {'in_dict': obj} if inside else obj, key_transformer=KT[style])
    g.same(d, keyed({'in_dict': js} if inside else js, spelled(style)), 'dump')
    r = g.ok('load', jsons.load, d, Dict[str, cls] if inside else cls, key_transformer=KT['snake'], strict=strict)
    g.same(r, {'in_dict': obj} if inside else obj, 'load')


def spelled(style):
    return lambda k: spell(style, [[ord(c) for c in w] for w in k.split('_')]) if len(k) > 3 else KT[style](k)


@harness('a dict of up to 2 string keys of up to 2 characters (distinct, also transformed) with any ints',
         params=STYLES)
def entries(g):
    """No entry is lost unless its key is no longer unique."""
    keys = g.choice('keys', (('a', 'b'), ('_a', 'b'), ('', 'a'), ('_', 'A'), ('a_b', 'ab'), ('A-b', 'c'), ('x y', '9'),
                             ('-', 'x'), ('__a', 'b_'), ('é_à', 'ß')))
    kt = KT[g.param]
    g.assume(kt(keys[0]) != kt(keys[1]))
    v = {k: g.int('v%d' % i) for i, k in enumerate(keys)}
    want = {kt(k): x for k, x in v.items()}
    g.same(g.ok('dump', jsons.dump, v, key_transformer=kt), want, 'dump')
    g.same(g.ok('dump', jsons.dump, v, Dict[str, int], strict=True, key_transformer=kt), want, 'strict dump')
    g.same(g.ok('load', jsons.load, v, key_transformer=kt), want, 'load')
    g.same(g.ok('load', jsons.load, v, Dict[str, int], key_transformer=kt), want, 'typed load')
    g.same(g.ok('load', jsons.load, v, DefaultDict[str, int], key_transformer=kt), defaultdict(int, want), 'defaultdict load')


@harness('text whose keys are marked, loaded from text or bytes, and dumped to text or bytes; any ints of a few')
def as_text(g):
    import json
    v = g.choice('v', (0, -5, 12))
    js, obj = {'my_val': v, 'other_val': None}, In(v)
    s = g.ok('dumps', jsons.dumps, [obj], key_transformer=mark)
    g.same(json.loads(s), keyed([js], mark), 'dumps')
    b = g.ok('dumpb', jsons.dumpb, [obj], key_transformer=mark)
    g.same(json.loads(b.decode()), keyed([js], mark), 'dumpb')
    g.same(g.ok('loads', jsons.loads, s, List[In], key_transformer=unmark), [obj], 'loads')
    g.same(g.ok('loadb', jsons.loadb, b, List[In], key_transformer=unmark), [obj], 'loadb')
    g.same(g.ok('transform', jsons.transform, obj, In, key_transformer=None), obj, 'transform')
