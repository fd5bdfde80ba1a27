"""Objects together with an independent statement of what their dump must be.

A node holds a live value and knows the expected dump under given options; the expectation is written
from the documentation and never asks jsons."""
import typing
from collections import deque
from dataclasses import dataclass, field
from typing import ClassVar, Dict, List, NamedTuple, Optional, Tuple

import attr

DROP = object()


class Opts:
    def __init__(self, nulls=False, privates=False, properties=False, classvars=False, named=(), transform=None):
        self.nulls, self.privates, self.properties, self.classvars = nulls, privates, properties, classvars
        self.named = (named,) if isinstance(named, str) else tuple(named or ())
        self.transform = transform or (lambda k: k)

    def kwargs(self, named=None):
        kw = {}
        if self.nulls:
            kw['strip_nulls'] = True
        if self.privates:
            kw['strip_privates'] = True
        if self.properties:
            kw['strip_properties'] = True
        if self.classvars:
            kw['strip_class_variables'] = True
        if self.named:
            kw['strip_attr'] = self.named if named is None else named
        return kw


class Leaf:
    def __init__(self, v):
        self.v = v

    def dump(self, o):
        return self.v


class Seq:
    def __init__(self, cls, items):
        self.v = cls([i.v for i in items])
        self.items = items

    def dump(self, o):
        return [i.dump(o) for i in self.items]


class Map:
    def __init__(self, items):
        self.v = {k: i.v for k, i in items.items()}
        self.items = items

    def dump(self, o):
        r = {}
        for k, i in self.items.items():
            d = i.dump(o)
            if o.nulls and d is None:
                continue
            r[o.transform(k)] = d
        return r


class Fields(Map):
    """A named tuple: its fields are entries, no attributes of an object."""

    def __init__(self, v, items):
        self.v, self.items = v, items


PUBLIC, PROPERTY, CLASSVAR = 'public', 'property', 'classvar'


class Obj:
    """attrs: (name, kind, node), or (name, kind, node, dumped name)."""

    def __init__(self, v, attrs):
        self.v, self.attrs = v, attrs

    def dump(self, o):
        r = {}
        for a in self.attrs:
            name, kind, node = a[:3]
            if o.privates and name.startswith('_'):
                continue
            if o.properties and kind is PROPERTY:
                continue
            if o.classvars and kind is CLASSVAR:
                continue
            if name in o.named:
                continue
            d = node.dump(o)
            if o.nulls and d is None:
                continue
            r[o.transform(a[3] if len(a) > 3 else name)] = d
        return r


# -- classes with attributes of every kind ---------------------------------------------------------

class Parent:
    par_cv = 'p'
    _par_cv = 8
    over = 1

    def __init__(self):
        self.par_v = None

    @property
    def par_prop(self):
        return self.par_v

    def method(self):
        return 1

    @staticmethod
    def static():
        return 1

    @classmethod
    def klass(cls):
        return 1


class Kid(Parent):
    cv = 3
    _cv = None
    cv_none = None
    shadowed = 5

    def __init__(self):
        super().__init__()
        self.v = None
        self._v = None
        self.shadowed = None
        self.my_attr = None

    @property
    def prop(self):
        return self.v

    @property
    def _prop(self):
        return self._v

    @property
    def over(self):
        return 2

    class Inner:
        pass


def kid(v, _v, par_v, shadowed, my_attr):
    o = Kid()
    o.v, o._v, o.par_v, o.shadowed, o.my_attr = v.v, _v.v, par_v.v, shadowed.v, my_attr.v
    return Obj(o, [('par_cv', CLASSVAR, Leaf('p')), ('_par_cv', CLASSVAR, Leaf(8)), ('over', PROPERTY, Leaf(2)),
                   ('par_v', PUBLIC, par_v), ('par_prop', PROPERTY, par_v), ('cv', CLASSVAR, Leaf(3)),
                   ('_cv', CLASSVAR, Leaf(None)), ('cv_none', CLASSVAR, Leaf(None)), ('v', PUBLIC, v),
                   ('_v', PUBLIC, _v), ('shadowed', PUBLIC, shadowed), ('my_attr', PUBLIC, my_attr),
                   ('prop', PROPERTY, v), ('_prop', PROPERTY, _v)])


class Slots:
    __slots__ = ('a', '_b', 'my_c')
    cv = 4

    @property
    def prop(self):
        return self.a


class SlotsKid(Slots):
    __slots__ = ('d',)


def slots(a, b, c, d=None):
    o = Slots() if d is None else SlotsKid()
    o.a, o._b, o.my_c = a.v, b.v, c.v
    attrs = [('a', PUBLIC, a), ('_b', PUBLIC, b), ('my_c', PUBLIC, c), ('cv', CLASSVAR, Leaf(4)), ('prop', PROPERTY, a)]
    if d is not None:
        o.d = d.v
        attrs.append(('d', PUBLIC, d))
    return Obj(o, attrs)


@dataclass
class Data:
    x: object
    _y: object = None
    my_z: object = 3
    c: ClassVar[int] = 9

    @property
    def prop(self):
        return self.my_z


def data(x, y, z):
    return Obj(Data(x.v, y.v, z.v), [('x', PUBLIC, x), ('_y', PUBLIC, y), ('my_z', PUBLIC, z), ('c', CLASSVAR, Leaf(9)),
                                     ('prop', PROPERTY, z)])


@attr.s(auto_attribs=True)
class Attrs:
    a: object
    _b: object = None
    c: ClassVar[int] = 5


def attrs_(a, b, privates=False):
    return Obj(Attrs(a.v, b.v), [('a', PUBLIC, a), ('_b', PUBLIC, b, 'b'), ('c', CLASSVAR, Leaf(5))])


class Fld(NamedTuple):
    f: object
    my_g: object


def fld(f, g_):
    return Fields(Fld(f.v, g_.v), {'f': f, 'my_g': g_})


class Bare:
    """Attributes set from the outside."""


def bare(**kw):
    o = Bare()
    for k, n in kw.items():
        setattr(o, k, n.v)
    return Obj(o, [(k, PUBLIC, n) for k, n in kw.items()])


def leaf(g, name):
    """None or a number, the solver's choice."""
    return Leaf(None if g.flag(name + '.none') else g.int(name))


KINDS = ('kid', 'slots', 'slotskid', 'data', 'attrs', 'fld', 'bare', 'dict', 'list', 'tuple', 'deque')


def make(g, name, kind, inner, lf=leaf):
    """A node of the given kind; ``inner(name)`` builds the values inside."""
    if kind == 'kid':
        return kid(inner(name + '.v'), lf(g, name + '._v'), Leaf(None), Leaf(1), inner(name + '.my'))
    if kind == 'slots':
        return slots(inner(name + '.a'), lf(g, name + '._b'), inner(name + '.c'))
    if kind == 'slotskid':
        return slots(inner(name + '.a'), Leaf(None), lf(g, name + '.c'), inner(name + '.d'))
    if kind == 'data':
        return data(inner(name + '.x'), lf(g, name + '._y'), inner(name + '.z'))
    if kind == 'attrs':
        return attrs_(inner(name + '.a'), inner(name + '._b'))
    if kind == 'fld':
        return fld(inner(name + '.f'), inner(name + '.g'))
    if kind == 'bare':
        return bare(my_key=inner(name + '.k'), _p=lf(g, name + '.p'), q=lf(g, name + '.q'))
    if kind == 'dict':
        return Map({'my_key': inner(name + '.k'), '_p': inner(name + '.p'), 'v': Leaf(None)})
    return Seq({'list': list, 'tuple': tuple, 'deque': deque}[kind], [inner(name + '.0'), lf(g, name + '.1')])


def tree(g, name, kinds):
    """One value of kinds[0] holding values of kinds[1] and so on; leaves are None or numbers."""
    if not kinds:
        return leaf(g, name)
    return make(g, name, kinds[0], lambda n: tree(g, n, kinds[1:]))


def pattern_tree(g, name, kinds):
    """Like tree, but all leaves are numbers, or every second one (either half) is None."""
    nulls = g.choice(name + '.nulls', (None, 0, 1))
    count = [0]

    def lf(g_, n):
        count[0] += 1
        return Leaf(None if nulls is not None and count[0] % 2 == nulls else g.int(n))

    def build(n, ks):
        if not ks:
            return lf(g, n)
        return make(g, n, ks[0], lambda m: build(m, ks[1:]), lf)
    return build(name, kinds)
