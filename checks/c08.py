"""C08: RFC3339 text is recognised exactly and all other text stays text."""
from datetime import datetime, timedelta, timezone
from typing import Dict, List, Optional, Tuple

import jsons
from jsons.exceptions import JsonsError
from engine.api import harness


def digit(c):
    return (48 <= c) & (c <= 57)


def number(cs):
    n = 0
    for c in cs:
        n = n * 10 + (c - 48)
    return n


def all_of(conds):
    r = True
    for c in conds:
        r = c & r
    return r


def any_of(conds):
    r = False
    for c in conds:
        r = c | r
    return r


def timestamp(c):
    """Is the list of code points a timestamp of a datetime that exists?  (condition, all the same but with
    letters in lower case or a leap second, which RFC3339 leaves open)"""
    if len(c) < 20:
        return False, False
    conds = [digit(c[k]) for k in (0, 1, 2, 3, 5, 6, 8, 9, 11, 12, 14, 15, 17, 18)]
    conds += [c[4] == 45, c[7] == 45, c[13] == 58, c[16] == 58]
    y, mo, d = number(c[0:4]), number(c[5:7]), number(c[8:10])
    h, mi, s = number(c[11:13]), number(c[14:16]), number(c[17:19])
    leap = (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0))
    conds += [1 <= y, 1 <= mo, mo <= 12, 1 <= d, h <= 23, mi <= 59]
    conds += [(d <= 28) | ((d <= 30) & (mo != 2)) | ((d == 29) & (mo == 2) & leap)
              | ((d == 31) & ((mo == 1) | (mo == 3) | (mo == 5) | (mo == 7) | (mo == 8) | (mo == 10) | (mo == 12)))]
    loose, ends = [], []
    for n, zulu in ((1, True), (6, False)):
        tail = c[19:len(c) - n]
        if len(c) < 19 + n or len(tail) == 1:
            continue
        frac = all_of([tail[0] == 46] + [digit(x) for x in tail[1:]]) if tail else True
        z = c[len(c) - n:]
        if zulu:
            ends.append(frac & (z[0] == 90))
            loose.append(frac & ((z[0] == 90) | (z[0] == 122)))
        else:
            off = ((z[0] == 43) | (z[0] == 45)) & digit(z[1]) & digit(z[2]) & (z[3] == 58) & digit(z[4]) & digit(z[5]) \
                & (number(z[1:3]) <= 23) & (number(z[4:6]) <= 59)
            ends.append(frac & off)
            loose.append(frac & off)
    common = all_of(conds)
    exact = common & (c[10] == 84) & (s <= 59) & any_of(ends)
    open_ = common & ((c[10] == 84) | (c[10] == 116)) & (s <= 60) & any_of(loose)
    return exact, open_


def check_fields(g, dt, c, msg):
    """dt has the fields of the timestamp c."""
    g.check(dt.__class__ is datetime, msg + ': type', dt)
    want = [(dt.year, c[0:4]), (dt.month, c[5:7]), (dt.day, c[8:10]), (dt.hour, c[11:13]), (dt.minute, c[14:16]),
            (dt.second, c[17:19])]
    g.check(all_of([a == number(b) for a, b in want]), msg + ': fields', dt)
    zulu = c[-1] == 90
    end = len(c) - 1 if zulu else len(c) - 6
    micro = (c[20:end] + [48] * 6)[:6] if end > 19 else []
    g.check(dt.microsecond == number(micro), msg + ': fraction', dt)
    off = dt.utcoffset()
    g.check(off is not None, msg + ': no offset', dt)
    if zulu:
        g.check(off == timedelta(0), msg + ': offset of Z', dt)
    else:
        n = number(c[-5:-3]) * 60 + number(c[-2:])
        g.check(off == timedelta(minutes=n if c[-6] == 43 else -n), msg + ': offset', dt)


def recognise(g):
    s = g.str('s', g.param, g.param)
    c = [ord(x) for x in s]
    exact, open_ = timestamp(c)
    out = g.run(jsons.load, s, datetime)
    if out.ok:
        # Nothing but a timestamp loads.
        g.check(open_, 'text that is no timestamp was loaded', s, out.value)
        g.assume(exact)
        check_fields(g, out.value, c, 'typed load')
    else:
        g.check(isinstance(out.exc, JsonsError), 'failure is no jsons error', out.exc)
        g.check(not exact, 'a timestamp was refused', s, out.exc)
    back = g.ok('load without type', jsons.load, s)
    if out.ok:
        g.same(back, out.value, 'untyped load of a timestamp')
    else:
        g.same(back, s, 'untyped load of text')
    if not (len(c) and 48 <= c[0] and c[0] <= 57):
        return
    # Text that starts like a timestamp, inside untyped containers.
    if len(c) % 3 == 0:
        inner = g.ok('load untyped list', jsons.load, [s, 1], list)[0]
    elif len(c) % 3 == 1:
        inner = g.ok('load untyped dict', jsons.load, {'k': [s]})['k'][0]
    else:
        inner = g.ok('load untyped element', jsons.load, [s])[0]
    if out.ok and len(c) % 3 != 0:
        g.check(inner.__class__ is datetime or inner == s, 'element', inner)
    elif not out.ok:
        g.same(inner, s, 'untyped element')


@harness('all strings of the given length, every code point (not surrogates)',
         params=[0, 1, 2, 3, 10, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29], tiers=('quick',))
def recognise_quick(g):
    recognise(g)


@harness('all strings of the given length, every code point (not surrogates)', params=list(range(0, 41)),
         tiers=('thorough',))
def recognise_deep(g):
    recognise(g)


class Texts:
    def __init__(self, s: str, o: Optional[str], many: List[str], named: Dict[str, str]):
        self.s, self.o, self.many, self.named = s, o, many, named


class Defaulted:
    def __init__(self, s: str = 'x'):
        self.s = s


WHERE = ('top', 'list', 'tuple', 'tuple_e', 'dict', 'optional', 'attribute', 'default', 'nested')


@harness('all strings of lengths 0, 1, 19, 20, 21 and 25 (every code point), in every position where a str can be declared',
         params=WHERE)
def str_stays(g):
    n = g.choice('n', (0, 1, 19, 20, 21, 25))
    s = g.str('s', n, n)
    where = g.param
    if where == 'top':
        back = g.ok('load', jsons.load, s, str)
    elif where == 'list':
        back = g.ok('load', jsons.load, ['', s], List[str])[1]
    elif where == 'tuple':
        back = g.ok('load', jsons.load, [1, s], Tuple[int, str])[1]
    elif where == 'tuple_e':
        back = g.ok('load', jsons.load, [s], Tuple[str, ...])[0]
    elif where == 'dict':
        back = g.ok('load', jsons.load, {'k': s}, Dict[str, str])['k']
    elif where == 'optional':
        back = g.ok('load', jsons.load, s, Optional[str])
    elif where == 'attribute':
        t = g.ok('load', jsons.load, {'s': s, 'o': s, 'many': [s], 'named': {'a': s}}, Texts)
        g.same(t.o, s, 'optional attribute')
        g.same(t.many, [s], 'list attribute')
        g.same(t.named, {'a': s}, 'dict attribute')
        back = t.s
    elif where == 'default':
        back = g.ok('load', jsons.load, {'s': s}, Defaulted).s
    else:
        back = g.ok('load', jsons.load, [{'k': [s]}], List[Dict[str, List[str]]])[0]['k'][0]
    g.same(back, s, 'a string loaded as str')


@harness('all RFC3339-like strings of length 20 and 25 next to arbitrary ones, in untyped lists and dicts',
         params=[(n, shape) for n in (20, 25) for shape in ('list', 'dict', 'deep')])
def untyped_container(g):
    """Every element is treated as it is treated alone."""
    n, shape = g.param
    s = g.str('s', n, n)
    other = g.str('t', 1, 1)
    alone = g.ok('load', jsons.load, s)
    if shape == 'list':
        a, b = g.ok('load list', jsons.load, [other, s])
    elif shape == 'dict':
        r = g.ok('load dict', jsons.load, {'a': other, 'b': s})
        a, b = r['a'], r['b']
    else:
        a, b = g.ok('load deep', jsons.load, [{'k': [other, {'x': s}]}])[0]['k']
        b = b['x']
    g.same(a, other, 'short text')
    g.check(diff_ok(b, alone, s), 'text in a container', b, alone)


def diff_ok(b, alone, s):
    """Loaded like the string alone, or left as it is."""
    from engine.api import diff
    return not diff(b, alone) or not diff(b, s)
