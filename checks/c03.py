"""C03: the text and bytes functions are exactly json around dump and load."""
import json
from datetime import date, datetime
from decimal import Decimal
from typing import Dict, List, Optional

import jsons
from checks.shapes import DC, NT, Holder, KwOnly, Plain, node, plain, s_int, s_list
from checks.spec import bare, kid, leaf, Leaf
from engine.api import harness


def same_outcome(g, out, ref, msg):
    """Both calls gave equal values or raised the same kind of error."""
    g.check(out.ok == ref.ok, msg + ': only one of both fails', out.value, out.exc, ref.value, ref.exc)
    if ref.ok:
        g.same(out.value, ref.value, msg)
    else:
        g.check(type(out.exc) is type(ref.exc), msg + ': different errors', out.exc, ref.exc)


# -- dumping ----------------------------------------------------------------------------------

VALUES = {
    'int': lambda g: g.int('x', -99, 99),
    'str': lambda g: g.str('x', g.b(2, 3), chars=[(32, 126), (8, 13), (0x7f, 0x7ff), (0x20ac, 0x20ac)][:g.b(2, 4)]),
    'bool': lambda g: g.bool('x'),
    'none': lambda g: None,
    'float': lambda g: g.choice('x', (0.0, -0.5, 1e300, 1e-7)),
    'list': lambda g: [g.int('x0', -9, 9), g.str('x1', 1, chars=[(32, 126)]), None, []],
    'dict': lambda g: {k: g.int('x' + k, 0, 9) for k in g.subset('keys', ('b', 'a', 'é'))},
    'numkeys': lambda g: {k: g.int('x%s' % k, 0, 9) for k in (2, 1, True, None, 1.5)[:3]},
    'object': lambda g: Plain(g.int('x', 0, 99), g.str('y', 1, chars=[(32, 126)])),
    'nested': lambda g: Holder(Plain(1, 'é'), [Plain(g.int('x', 0, 99), '"')], None),
    'kid': lambda g: kid(Leaf(g.int('x', 0, 9)), Leaf(None), Leaf(None), Leaf(1), Leaf(2)).v,
    'date': lambda g: [date(2020, 1, 1), Decimal('1.5'), {1: (1, 2)}],
    'ntuple': lambda g: NT(g.int('x', 0, 9), None),
}

JD = ({}, dict(indent=2), dict(sort_keys=True), dict(separators=(',', ':')), dict(ensure_ascii=False),
      dict(indent=1, sort_keys=True, ensure_ascii=False), None)
OPTS = ({}, dict(strip_nulls=True), dict(key_transformer=jsons.KEY_TRANSFORMER_CAMELCASE), dict(strip_privates=True, strip_nulls=True),
        dict(verbose=jsons.Verbosity.WITH_CLASS_INFO))


def class_args(g, x):
    """The class of the value or nothing, given by keyword or by position."""
    how = g.choice('cls', ('none', 'keyword', 'position'))
    if how == 'none':
        return (), {}
    return ((x.__class__,), {}) if how == 'position' else ((), {'cls': x.__class__})


@harness('values of %d kinds, %d sets of json options, %d sets of dump options, with and without class' % (len(VALUES), len(JD), len(OPTS)),
         params=list(VALUES))
def dumps(g):
    x = VALUES[g.param](g)
    few = g.tier == 'quick' and g.param in ('str', 'kid')
    jd, opts = g.choice('jd', JD[3:6] if few else JD), g.choice('opts', OPTS[:2] if few else OPTS)
    args, kw = class_args(g, x)
    ref = g.ok('dump', jsons.dump, x, *args, **kw, **opts)
    if args or g.flag('jd by position'):
        out = g.ok('dumps', jsons.dumps, x, jd, *args, **kw, **opts)
    else:
        out = g.ok('dumps', jsons.dumps, x, jdkwargs=jd, **kw, **opts)
    g.check(out.__class__ is str, 'type of the text', out)
    g.check(out == json.dumps(ref, **(jd or {})), 'dumped text', out, ref)


ENC = (None, 'utf-8', 'utf-16', 'latin-1', 'utf-8-sig')


BYTES = {
    'int': lambda g: g.int('x', -1, 9),
    'str': lambda g: g.choice('s', ('', 'a"', 'é\n')),
    'bool': lambda g: g.bool('x'),
    'none': lambda g: None,
    'list': lambda g: ['é', g.bool('b')],
    'dict': lambda g: {'é': g.choice('x', (None, 1)), 'a b': 2},
    'numkeys': lambda g: {2: None, True: 'é', g.choice('k', (1.5, None)): 2},
    'object': lambda g: Plain(g.int('x', 0, 9), 'é'),
    'nested': lambda g: Holder(Plain(1, 'é'), [Plain(g.choice('x', (0, 7)), '"')], None),
    'kid': lambda g: kid(Leaf('é'), Leaf(None), Leaf(None), Leaf(1), Leaf(2)).v,
    'date': lambda g: [date(2020, 1, 1), Decimal('1.5'), {1: (1, 2)}],
    'ntuple': lambda g: NT(g.choice('x', (0, 7)), None),
}


@harness('values of %d kinds to bytes in %d encodings' % (len(BYTES), len(ENC)), params=list(BYTES), timeout=(150, 1500))
def dumpb(g):
    x = BYTES[g.param](g)
    jd, opts = g.choice('jd', (None, dict(ensure_ascii=False, indent=1))), g.choice('opts', OPTS[:g.b(2, 3)])
    enc = g.choice('enc', ENC)
    args, kw = class_args(g, x)
    ref = g.ok('dump', jsons.dump, x, *args, **kw, **opts)
    if args:
        out = g.ok('dumpb', jsons.dumpb, x, enc or 'utf-8', jd, *args, **opts)
    elif enc is None:
        out = g.ok('dumpb', jsons.dumpb, x, jdkwargs=jd, **kw, **opts)
    elif g.flag('by position'):
        out = g.ok('dumpb', jsons.dumpb, x, enc, jd, **kw, **opts)
    else:
        out = g.ok('dumpb', jsons.dumpb, x, encoding=enc, jdkwargs=jd, **kw, **opts)
    g.check(isinstance(out, bytes), 'type of the bytes', out)
    g.check(out == json.dumps(ref, **(jd or {})).encode(enc or 'utf-8'), 'dumped bytes', out, ref)


@harness('all strings of up to 2 characters of any kind (3 in thorough) dumped to UTF-8')
def dumpb_text(g):
    s = g.str('s', g.b(2, 3))
    out = g.ok('dumpb', jsons.dumpb, s, jdkwargs=dict(ensure_ascii=False))
    g.check(out == json.dumps(s, ensure_ascii=False).encode('utf-8'), 'dumped bytes', out)


# -- loading ----------------------------------------------------------------------------------

TEMPLATES = ('%s', '[%s]', '{"a": %s}', '"%s"', '[1, %s', '{"a": 1, "b": "x"%s}', '%s[1]')
TARGETS = (None, int, str, List[int], Dict[str, int], Plain, Optional[datetime], 'builtins.list')


def check_load(g, out, source, text, cls, jd, opts):
    ref = g.run(json.loads, text, **(jd or {}))
    if ref.ok:
        same_outcome(g, out, g.run(jsons.load, ref.value, cls, **opts), 'load of the decoded JSON')
        return
    g.check(isinstance(ref.exc, json.JSONDecodeError), 'unexpected json error', ref.exc)
    g.check(not out.ok, 'invalid JSON is loaded', out.value)
    g.check(isinstance(out.exc, jsons.DecodeError), 'no decode error for invalid JSON', out.exc)
    g.check(out.exc.source == source, 'source of the error', out.exc.source)
    g.check(out.exc.pos == ref.exc.pos, 'position of the error', out.exc.pos, ref.exc.pos)
    g.check(out.exc.doc == text, 'document of the error', out.exc.doc)
    g.check(out.exc.target is cls, 'target of the error', out.exc.target)


@harness('all texts of up to 2 characters (3 in thorough) of any kind in %d templates, %d targets' % (len(TEMPLATES), len(TARGETS)),
         params=list(range(len(TEMPLATES))), timeout=(150, 1500))
def loads(g):
    s = g.str('s', g.b(2, 3))
    t = TEMPLATES[g.param].split('%s')
    text = t[0] + s + t[1]
    cls = g.choice('cls', TARGETS[:g.b(5, 8)])
    strict = g.flag('strict')
    out = g.run(jsons.loads, text, cls, strict=strict)
    check_load(g, out, text, text, cls, None, dict(strict=strict))


TEXTS = ('1', '1.5', 'null', '"x"', '[1, 2]', '["1", 2.0]', '{"a": 1, "b": "x"}', '{"a": 1}', '{"A": 1, "B": "y"}', '{"a": 1, "b": "x", "c": 2}',
         '{"a": NaN}', '', '{', '[1,]', '{"a": 1} x', '"\t"', '{"x": 3}', '{"a": {"a": 1, "b": "z"}}', '{"a":1,"a":2}', '"2020-01-01T00:00:00Z"')
JL = (None, {}, dict(parse_int=lambda s: int(s) + 1), dict(parse_float=lambda s: 7), dict(object_pairs_hook=dict), dict(strict=False),
      dict(object_hook=lambda d: dict(d, b='hook')), dict(parse_constant=lambda s: 0))
LOPTS = ({}, dict(strict=True), dict(key_transformer=lambda k: k.lower()), dict(attr_getters={'b': lambda: 'got', 'a': lambda: 9}),
         dict(strict=True, key_transformer=jsons.KEY_TRANSFORMER_SNAKECASE))
TYPES = (None, int, str, List[int], Dict[str, float], Plain, DC, KwOnly, Optional[int], datetime)


@harness('%d texts, %d sets of json options, %d sets of load options, %d targets, by position or keyword' % (
    len(TEXTS), len(JL), len(LOPTS), len(TYPES)), params=list(range(len(TYPES))), timeout=(150, 1500))
def loads_options(g):
    text, jd, opts, cls = g.choice('text', TEXTS), g.choice('jd', JL[:g.b(4, 8)]), g.choice('opts', LOPTS[:g.b(4, 5)]), TYPES[g.param]
    if g.tier == 'thorough' and g.flag('by keyword'):
        out = g.run(jsons.loads, text, cls=cls, jdkwargs=jd, **opts)
    else:
        out = g.run(jsons.loads, text, cls, jd, **opts)
    check_load(g, out, text, text, cls, jd, opts)


@harness('%d texts in 4 encodings, all kinds of options' % len(TEXTS), params=list(range(len(TYPES))), timeout=(150, 1500))
def loadb_options(g):
    text, cls = g.choice('text', TEXTS), TYPES[g.param]
    jd, opts = g.choice('jd', JL[:g.b(2, 8)]), g.choice('opts', LOPTS[:g.b(3, 5)])
    enc = g.choice('enc', (None, 'utf-8', 'utf-16', 'utf-32-le')[:g.b(3, 4)])
    data = text.encode(enc or 'utf-8')
    if enc is None:
        out = g.run(jsons.loadb, data, cls, jdkwargs=jd, **opts)
    elif g.flag('by keyword'):
        out = g.run(jsons.loadb, data, cls=cls, encoding=enc, jdkwargs=jd, **opts)
    else:
        out = g.run(jsons.loadb, data, cls, enc, jd, **opts)
    check_load(g, out, text, text, cls, jd, opts)


@harness('all byte strings of up to 2 bytes (4 in thorough)', timeout=(120, 2400))
def loadb(g):
    data = bytes([g.int('b%d' % k, 0, 255) for k in range(g.len('n', g.b(2, 4)))])
    out = g.run(jsons.loadb, data)
    text = g.run(data.decode, 'utf-8')
    if text.ok:
        check_load(g, out, text.value, text.value, None, None, {})
    else:
        g.check(not out.ok and isinstance(out.exc, jsons.DecodeError), 'no decode error for bytes that are no text', out.value, out.exc)
        g.check(out.exc.source == data, 'source of the error', out.exc.source)
        g.check(out.exc.target is None, 'target of the error', out.exc.target)


@harness('arguments of %d kinds other than bytes' % 8)
def loadb_others(g):
    kind = g.choice('kind', ('str', 'int', 'none', 'bytearray', 'memoryview', 'list', 'dict', 'object'))
    x = {'str': '1', 'int': 1, 'none': None, 'bytearray': bytearray(b'1'), 'memoryview': memoryview(b'1'), 'list': [1], 'dict': {},
         'object': Plain(1, 'b')}[kind]
    cls = g.choice('cls', (None, int, Plain))
    err = g.raises(jsons.DeserializationError, 'loading no bytes', jsons.loadb, x, cls)
    g.check(err.source is x and err.target is cls, 'source and target of the error', err.source, err.target)


# -- options reach dump and load unchanged --------------------------------------------------------

class Probe:
    pass


class OwnOption:
    """An option of a custom (de)serializer."""


@harness('a custom option of any kind of value given to each of the four functions, with and without a fork')
def own_options(g):
    seen = []
    fork = jsons.fork() if g.flag('fork') else None

    def serializer(obj, my_option=None, **kw):
        seen.append((my_option, kw.get('other')))
        return 'probe'

    def deserializer(obj, cls, my_option=None, **kw):
        seen.append((my_option, kw.get('other')))
        return Probe()

    kw = {'fork_inst': fork} if fork else {}
    jsons.set_serializer(serializer, Probe, **kw)
    jsons.set_deserializer(deserializer, Probe, **kw)
    value = g.choice('value', (None, 5, 'utf-8', OwnOption(), [1], False))
    kw['my_option'] = value
    if g.flag('other'):
        kw['other'] = 'o'
    f = g.choice('f', ('dumps', 'dumpb', 'loads', 'loadb'))
    nested = g.flag('nested')
    if f == 'dumps':
        out = g.ok(f, jsons.dumps, [Probe()] if nested else Probe(), **kw)
        g.check(out == ('["probe"]' if nested else '"probe"'), 'dumped with the custom serializer', out)
    elif f == 'dumpb':
        out = g.ok(f, jsons.dumpb, [Probe()] if nested else Probe(), **kw)
        g.check(out == (b'["probe"]' if nested else b'"probe"'), 'dumped with the custom serializer', out)
    else:
        text = '[1]' if nested else '1'
        out = g.ok(f, getattr(jsons, f), text if f == 'loads' else text.encode(), List[Probe] if nested else Probe, **kw)
        g.check(isinstance(out[0] if nested else out, Probe), 'loaded with the custom deserializer', out)
    g.check(len(seen) == 1, 'the custom function is called once', seen)
    g.check(seen[0][0] is value and seen[0][1] == kw.get('other'), 'options reach the custom function', seen)
