"""C01: structured values survive a dump followed by a load."""
import collections
from collections import deque
from typing import Deque, Dict, FrozenSet, Iterable, List, Mapping, Optional, Sequence, Set, Tuple

import jsons
from checks.shapes import *
from engine.api import harness


def roundtrip(g, shape):
    x = shape.build(g, 'x')
    dumped = g.ok('dump', jsons.dump, x)
    y = g.ok('load', jsons.load, dumped, shape.cls)
    g.same(y, x, 'round trip')


@harness('all ints', per_path=(60, 300))
def prim_int(g):
    roundtrip(g, s_int())


@harness('all strings of any characters: up to 4 (quick), 8 (thorough)')
def prim_str(g):
    roundtrip(g, s_str(g.b(4, 8)))


@harness('all finite floats, both bools, None', params=[s_float(), s_bool(), s_none()])
def prim_other(g):
    roundtrip(g, g.param)


@harness('lists, tuples, sets, deques up to 2-4 elements, dicts of any subset of 3 keys, all element values '
         '(hashed elements: -1..2)', params=CONTAINERS_ALL, outside='dict keys other than the listed ones')
def containers(g):
    roundtrip(g, g.param)


@harness('objects of every class kind with all field values, nested lists up to 2, chains up to 3 deep',
         params=OBJECTS_ALL)
def objects(g):
    roundtrip(g, g.param)


def untyped(g, n, depth):
    kinds = ('none', 'bool', 'int', 'float', 'str') + (('list', 'dict') if depth else ())
    k = g.choice(n + '.kind', kinds)
    if k == 'none':
        return None
    if k == 'bool':
        return g.bool(n)
    if k == 'int':
        return g.int(n)
    if k == 'float':
        return g.float(n)
    if k == 'str':
        return g.str(n, 1)
    if k == 'list':
        return g.list(n, 2, lambda m: untyped(g, m, depth - 1))
    return {key: untyped(g, '%s[%d]' % (n, i), depth - 1) for i, key in enumerate(('', 'k')) if g.flag('%s?%d' % (n, i))}


@harness('all JSON values of depth up to 1 (quick) or 2 (thorough), lists up to 2, 2 keys, strings up to 1', timeout=(200, 2400))
def untyped_value(g):
    x = untyped(g, 'x', g.b(1, 2))
    y = g.ok('load', jsons.load, g.ok('dump', jsons.dump, x))
    g.same(y, x, 'untyped round trip')
