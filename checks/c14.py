"""C14: strip options remove exactly the designated entries at every depth."""
import jsons
from checks.spec import *
from engine.api import harness

NAMED = (None, 'v', ('a', '_v'), ['my_key', 'x', '_b'], 'nothing', ('cv', 'prop', 'over'))


def options(g):
    named = g.choice('named', NAMED)
    return Opts(g.flag('nulls'), g.flag('privates'), g.flag('properties'), g.flag('classvars'), named), named


def check(g, node, o, named, cls=None):
    out = g.ok('dump', jsons.dump, node.v, cls, **o.kwargs(named))
    g.same(out, node.dump(o), 'stripped dump')


@harness('one object of each kind, every combination of the strip options with 6 values of strip_attr, None or '
         'any number for its attributes', params=KINDS)
def single(g):
    o, named = options(g)
    check(g, tree(g, 'x', (g.param,)), o, named)


@harness('every kind holding every kind (thorough: holding every kind again), every combination of strip options with '
         '3 values of strip_attr, numbers everywhere or None at every second place', params=KINDS, timeout=(200, 1700))
def nested(g):
    inner = g.choice('inner', ('slots', 'attrs', 'bare', 'dict', 'fld', 'list') if g.tier == 'quick' else KINDS)
    named = g.choice('named', (None, 'my_key', ('a', '_b', 'x')))
    o = Opts(g.flag('nulls'), g.flag('privates'), g.flag('properties'), g.flag('classvars'), named)
    kinds = (g.param, inner)
    if g.tier == 'thorough':
        kinds += (g.choice('innermost', ('slots', 'bare', 'dict', 'list', 'attrs')),)
    check(g, pattern_tree(g, 'x', kinds), o, named)


@harness('lists of up to 3 objects and dicts of up to 3 entries, None or numbers inside, nulls stripped')
def lengths(g):
    kind = g.choice('kind', ('list', 'dict', 'tuple'))
    n = g.len('n', 3)
    items = [bare(a=leaf(g, 'a%d' % k), b=leaf(g, 'b%d' % k)) for k in range(n)]
    node = Map({'k%d' % k: i for k, i in enumerate(items)}) if kind == 'dict' else Seq({'list': list, 'tuple': tuple}[kind], items)
    check(g, node, Opts(nulls=True), None)


@harness('strict dumps of classes with every kind of attribute', params=('slots', 'slotskid', 'data', 'attrs', 'kid'))
def strict(g):
    """In strict mode the attributes that the class declares are stripped in the same way."""
    named = g.choice('named', (None, 'a', ('x', 'v', '_b')))
    o = Opts(g.flag('nulls'), g.flag('privates'), g.flag('properties'), g.flag('classvars'), named)
    node = pattern_tree(g, 'x', (g.param,))
    if g.param == 'kid':
        declared = ('par_cv', '_par_cv', 'over', 'par_prop', 'cv', '_cv', 'cv_none', 'shadowed', 'prop', '_prop')
        node = Obj(node.v, [a for a in node.attrs if a[0] in declared])
    out = g.ok('dump', jsons.dump, node.v, node.v.__class__, strict=True, **o.kwargs(named))
    g.same(out, node.dump(o), 'strictly stripped dump')
