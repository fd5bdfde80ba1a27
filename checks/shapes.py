"""Types of many kinds and, for each, a builder that draws a value of the type.

A shape is (name, type, build, size): ``build(g, name)`` draws a value whose leaves are symbolic and
whose structure (lengths, presence, choices) is decided by the solver as well."""
import collections
import typing
from collections import deque, namedtuple
from dataclasses import dataclass, field
from typing import (Any, Deque, Dict, FrozenSet, Iterable, List, Mapping, NamedTuple, NewType, Optional, Sequence, Set,
                    Tuple, Union)

import attr

ASCII = [(32, 126)]
LETTERS = [(97, 99)]


# -- classes ----------------------------------------------------------------------------------

class Plain:
    def __init__(self, a: int, b: str):
        self.a = a
        self.b = b


class PlainDef:
    def __init__(self, a: int, b: str = 'dflt', c: Optional[int] = None, d: bool = True):
        self.a = a
        self.b = b
        self.c = c
        self.d = d


class KwOnly:
    def __init__(self, *, a: int, b: Optional[str] = None):
        self.a = a
        self.b = b


class Base:
    def __init__(self, a: int):
        self.a = a


class Derived(Base):
    def __init__(self, a: int, b: bool):
        super().__init__(a)
        self.b = b


class Inherits(Base):
    """No constructor of its own."""


class Holder:
    def __init__(self, p: Plain, q: List[Plain], r: Optional[Plain] = None):
        self.p = p
        self.q = q
        self.r = r


class Slotted:
    __slots__ = ('a', 'b')

    def __init__(self, a: int, b: Optional[bool]):
        self.a = a
        self.b = b


class SlottedChild(Slotted):
    __slots__ = ('c',)

    def __init__(self, a: int, b: Optional[bool], c: int):
        super().__init__(a, b)
        self.c = c


class Annotated:
    """Attributes that are annotated in the class and assigned after construction."""
    x: int
    y: List[int]
    p: Plain

    def __init__(self, a: int):
        self.a = a


class Loose:
    """Nothing is annotated."""

    def __init__(self, a, b=3):
        self.a = a
        self.b = b


class Node:
    def __init__(self, v: int, nxt: Optional['Node'] = None):
        self.v = v
        self.nxt = nxt


class Tree:
    def __init__(self, v: bool, kids: List['Tree']):
        self.v = v
        self.kids = kids


@dataclass
class DC:
    x: int
    y: str = 'd'
    z: Optional[int] = None
    w: List[int] = field(default_factory=list)


@dataclass
class DCChild(DC):
    v: bool = False


@dataclass(frozen=True)
class DCFrozen:
    x: int
    t: Tuple[int, bool]


@dataclass
class DCNest:
    d: DC
    m: Dict[str, DCFrozen]
    o: Optional[DCChild] = None


@dataclass
class DCNoInit:
    x: int
    y: int = field(init=False, default=4)


@attr.s(auto_attribs=True)
class AT:
    a: int
    b: Optional[str] = None


@attr.s(auto_attribs=True)
class ATPriv:
    a: int
    _b: int


@attr.s(auto_attribs=True, slots=True)
class ATSlots:
    a: int
    p: Plain


class NT(NamedTuple):
    a: int
    b: Optional[str]
    c: int = 7


class NTNest(NamedTuple):
    n: NT
    ps: List[Plain]


NTLoose = namedtuple('NTLoose', 'a b')


class GenericBox(typing.Generic[typing.TypeVar('T')]):
    def __init__(self, v: int):
        self.v = v


Uid = NewType('Uid', int)


class WithNewType:
    def __init__(self, uid: Uid):
        self.uid = uid


class WithProp:
    """A computed property and a class variable."""
    kind = 5

    def __init__(self, a: int):
        self.a = a

    @property
    def double(self):
        return self.a + self.a


class WithPrivates:
    def __init__(self, a: int):
        self.a = a
        self._p = a + 1


class Names:
    """Attributes that are named like things of the library; the instance is not called self."""

    def __init__(this, json: int, dump: bool, load: str = 'l', fork: Optional[int] = None):
        this.json, this.dump, this.load, this.fork = json, dump, load, fork


class Containers:
    def __init__(self, li: List[int], tu: Tuple[int, str], te: Tuple[bool, ...], di: Dict[str, int], op: Optional[List[bool]]):
        self.li = li
        self.tu = tu
        self.te = te
        self.di = di
        self.op = op


# -- shape constructors --------------------------------------------------------------------------

class Shape:
    def __init__(self, name, cls, build):
        self.name, self.cls, self.build = name, cls, build

    def __repr__(self):
        return self.name


def s_int():
    return Shape('int', int, lambda g, n: g.int(n))


def s_small(lo, hi):
    """Few values: for places where a value is hashed."""
    return Shape('int[%d..%d]' % (lo, hi), int, lambda g, n: g.choice(n, range(lo, hi + 1)))


def s_bool():
    return Shape('bool', bool, lambda g, n: g.bool(n))


def s_str(k=1, chars=None):
    return Shape('str', str, lambda g, n: g.str(n, g.b(k, k + 1), 0, chars))


def s_letters():
    return Shape('letters', str, lambda g, n: g.choice(n, ('', 'a', 'b c')))


def s_float():
    return Shape('float', float, lambda g, n: g.float(n))


def s_none():
    return Shape('None', type(None), lambda g, n: None)


def s_opt(s):
    return Shape('Optional[%s]' % s.name, Optional[s.cls], lambda g, n: g.opt(n, lambda m: s.build(g, m + '!')))


def s_list(s, hi=2, cls=None):
    return Shape('List[%s]' % s.name, cls or List[s.cls], lambda g, n: g.list(n, g.b(hi, hi + 1), lambda m: s.build(g, m)))


def s_tuple(*ss, **kw):
    return Shape('Tuple[%s]' % ','.join(s.name for s in ss), kw.get('cls') or Tuple[tuple(s.cls for s in ss)],
                 lambda g, n: tuple([s.build(g, '%s.%d' % (n, k)) for k, s in enumerate(ss)]))


def s_tuple_e(s, hi=2):
    return Shape('Tuple[%s,...]' % s.name, Tuple[s.cls, ...],
                 lambda g, n: tuple(g.list(n, g.b(hi, hi + 1), lambda m: s.build(g, m))))


def s_coll(name, cls, make, s, hi=2):
    return Shape('%s[%s]' % (name, s.name), cls[s.cls] if s else cls,
                 lambda g, n: make(g.list(n, g.b(hi, hi + 1), lambda m: s.build(g, m))))


def s_dict(s, keys=('', 'k', 'a b'), kcls=str, cls=None):
    def build(g, n):
        return {k: s.build(g, '%s[%s]' % (n, i)) for i, k in enumerate(keys) if g.flag('%s?%d' % (n, i))}
    return Shape('Dict[%s,%s]' % (kcls.__name__, s.name), cls or Dict[kcls, s.cls], build)


def s_obj(cls, after=None, **fields):
    def build(g, n):
        kw = {}
        for f, s in fields.items():
            kw[f] = s.build(g, n + '.' + f)
        obj = cls(**kw)
        if after:
            for f, s in after.items():
                setattr(obj, f, s.build(g, n + '.' + f))
        return obj
    return Shape(cls.__name__ + '(%s)' % ','.join(map(repr, list(fields.values()) + list((after or {}).values()))),
                 cls, build)


def s_defaulted(cls, required, optional):
    """Optional arguments may be left out."""
    def build(g, n):
        kw = {f: s.build(g, n + '.' + f) for f, s in required.items()}
        for f, s in optional.items():
            if g.flag(n + '?' + f):
                kw[f] = s.build(g, n + '.' + f)
        return cls(**kw)
    return Shape(cls.__name__ + '(+defaults)', cls, build)


def plain(sb=None):
    return s_obj(Plain, a=s_int(), b=sb or s_str())


def node(depth):
    def build(g, n, d):
        if d == 0 or g.flag('%s.last%d' % (n, d)):
            return Node(g.int('%s.v%d' % (n, d)))
        return Node(g.int('%s.v%d' % (n, d)), build(g, n, d - 1))
    return Shape('Node^%d' % depth, Node, lambda g, n: build(g, n, depth))


def tree(depth, width):
    def build(g, n, d):
        kids = [] if d == 0 else [build(g, '%s.%d' % (n, k), d - 1) for k in range(g.len(n + '.w', width))]
        return Tree(g.bool(n + '.v'), kids)
    return Shape('Tree^%d*%d' % (depth, width), Tree, lambda g, n: build(g, n, depth))


# -- shapes of every kind ---------------------------------------------------------------------------

SMALL = s_small(-1, 2)
CONTAINERS_ALL = [
    s_list(s_int(), 4), s_list(s_str(2), 2), s_list(s_float(), 3), s_list(s_opt(s_bool()), 3),
    s_list(s_list(s_int(), 2), 2), s_list(s_dict(s_int()), 2), s_list(s_int(), 3, list), s_list(s_bool(), 2, list[bool]),
    s_tuple(s_int(), s_str(), s_bool()), s_tuple(s_tuple(s_int(), s_bool()), s_list(s_int())), s_tuple_e(s_int(), 4),
    s_tuple_e(s_str(1), 2), s_tuple(cls=Tuple[()]), s_tuple(s_int(), s_opt(s_float()), cls=tuple),
    s_tuple_e(s_tuple(s_int(), s_opt(s_int())), 2), s_tuple(s_int(), s_int(), cls=tuple[int, int]),
    s_coll('Set', Set, set, SMALL, 3), s_coll('FrozenSet', FrozenSet, frozenset, s_letters(), 2),
    s_coll('set', set, set, s_small(0, 2), 2), s_coll('Set', Set, set, s_tuple(SMALL, s_small(0, 1)), 2),
    s_coll('Deque', Deque, deque, s_int(), 3), s_coll('deque', deque, deque, s_str(1), 2),
    s_coll('Sequence', Sequence, list, s_int(), 3), s_coll('Iterable', Iterable, list, s_bool(), 2),
    s_dict(s_int()), s_dict(s_str(2)), s_dict(s_list(s_opt(s_int()), 2), ('k', 'l')), s_dict(s_int(), (0, -1, 10 ** 20), int),
    s_dict(s_bool(), cls=dict), s_dict(s_int(), cls=Mapping[str, int]), s_dict(s_int(), cls=dict[str, int]),
    s_dict(s_dict(s_float(), ('i',)), ('k', 'l')), s_opt(s_int()), s_opt(s_list(s_str(), 2)), s_opt(s_opt(s_str())),
    s_dict(s_none(), ('n',), cls=Dict[str, Optional[int]]),
]

OBJECTS_ALL = [
    plain(s_str(2)), s_defaulted(PlainDef, dict(a=s_int()), dict(b=s_str(), c=s_opt(s_int()), d=s_bool())),
    s_obj(KwOnly, a=s_int(), b=s_opt(s_str())), s_obj(Derived, a=s_int(), b=s_bool()), s_obj(Inherits, a=s_int()),
    s_obj(Holder, p=plain(), q=s_list(plain(s_letters()), 2), r=s_opt(plain(s_letters()))),
    s_obj(Slotted, a=s_int(), b=s_opt(s_bool())), s_obj(SlottedChild, a=s_int(), b=s_opt(s_bool()), c=s_int()),
    s_obj(Annotated, a=s_int(), after=dict(x=s_int(), y=s_list(s_int()), p=plain(s_letters()))),
    s_obj(Loose, a=s_int(), b=s_opt(s_str())), s_obj(Loose, a=s_str(2), after=dict(extra=s_float(), more=s_list(s_str(1)))),
    s_obj(Loose, a=s_dict(s_opt(s_bool()), ('k', '')), b=s_list(s_int())),
    node(3), tree(2, 2),
    s_defaulted(DC, dict(x=s_int()), dict(y=s_str(), z=s_opt(s_int()), w=s_list(s_int()))),
    s_obj(DCChild, x=s_int(), y=s_letters(), z=s_opt(s_int()), w=s_list(s_int(), 1), v=s_bool()),
    s_obj(DCFrozen, x=s_int(), t=s_tuple(s_int(), s_bool())),
    s_obj(DCNest, d=s_obj(DC, x=s_int(), y=s_str()), m=s_dict(s_obj(DCFrozen, x=s_int(), t=s_tuple(s_int(), s_bool())), ('k', 'l')),
          o=s_opt(s_obj(DCChild, x=s_int(), v=s_bool()))),
    s_obj(DCNoInit, x=s_int(), after=dict(y=s_int())),
    s_obj(AT, a=s_int(), b=s_opt(s_str())), s_obj(ATPriv, a=s_int(), b=s_int()),
    s_obj(ATSlots, a=s_int(), p=plain()),
    s_obj(NT, a=s_int(), b=s_opt(s_str()), c=s_int()), s_obj(NTNest, n=s_obj(NT, a=s_int(), b=s_opt(s_letters()), c=s_int()),
                                                             ps=s_list(plain(s_letters()), 1)),
    s_obj(NTLoose, a=s_int(), b=s_opt(s_str())), s_obj(WithNewType, uid=s_int()), s_obj(WithProp, a=s_int()),
    s_obj(Names, json=s_int(), dump=s_bool(), load=s_str(), fork=s_opt(s_int())), s_obj(WithPrivates, a=s_int()), s_obj(GenericBox, v=s_int()),
    s_obj(Containers, li=s_list(s_int()), tu=s_tuple(s_int(), s_str()), te=s_tuple_e(s_bool()), di=s_dict(s_int(), ('k', '')),
          op=s_opt(s_list(s_bool(), 1))),
    s_list(plain(), 2), s_dict(s_obj(NT, a=s_int(), b=s_opt(s_letters()), c=s_int()), ('k', 'l')), s_opt(plain()),
    s_tuple(plain(), s_obj(Slotted, a=s_int(), b=s_opt(s_bool()))), s_tuple_e(s_obj(AT, a=s_int()), 2),
    s_coll('Deque', Deque, deque, plain(s_letters()), 2), s_list(s_opt(node(1)), 2),
]
