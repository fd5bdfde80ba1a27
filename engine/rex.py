"""Regular expressions and strptime over symbolic text of known length.

A backtracking matcher over the parse tree of the standard library's own regex parser.  Each test
'is this code point in this class' is one solver decision; everything else is Python's regex
semantics (alternatives left to right, greedy and lazy repeats)."""
import re
import re._parser as P
import re._constants as K

import crosshair.libimpl.relib as R
import z3
from crosshair.core import realize
from crosshair.libimpl.builtinslib import AnySymbolicStr, LazyIntSymbolicStr, SymbolicInt
from crosshair.statespace import context_statespace
from crosshair.tracers import NoTracing, ResumedTracing
from crosshair.util import CrossHairValue, UnexploredPath


def cps_of(s):
    """The code points of a str or symbolic str as a list (called without tracing)."""
    if isinstance(s, str):
        return [ord(c) for c in s]
    if isinstance(s, LazyIntSymbolicStr) and type(s._codepoints) in (list, tuple):
        return list(s._codepoints)
    with ResumedTracing():
        return [ord(c) for c in s]


def text(cps):
    if all(type(c) is int for c in cps):
        return ''.join(map(chr, cps))
    return LazyIntSymbolicStr(list(cps))


def mask_expr(v, mask):
    """z3 condition: the code point expression v lies in the CharMask."""
    parts = []
    for p in mask.parts:
        if isinstance(p, int):
            parts.append(v == p)
        else:
            lo, hi = p
            if lo == 0 and hi >= 0x110000:
                return z3.BoolVal(True)
            parts.append(z3.And(v >= lo, v < hi))
    return z3.Or(*parts) if parts else z3.BoolVal(False)


def decide(cond):
    """One solver decision on a z3 condition (called without tracing)."""
    cond = z3.simplify(cond)
    if z3.is_true(cond):
        return True
    if z3.is_false(cond):
        return False
    return context_statespace().choose_possible(cond)


def in_mask(c, mask):
    if type(c) is int:
        return _concrete_in(c, mask)
    if isinstance(c, SymbolicInt):
        return decide(mask_expr(c.var, mask))
    return _concrete_in(realize(c), mask)


def _concrete_in(c, mask):
    for p in mask.parts:
        if isinstance(p, int):
            if p == c:
                return True
        elif p[0] <= c < p[1]:
            return True
    return False



_case_masks = {}


def ignorecase_mask(cp):
    """All characters that match the character cp when case is ignored."""
    if cp not in _case_masks:
        pat = re.compile(re.escape(chr(cp)), re.IGNORECASE)
        _case_masks[cp] = R.CharMask(sorted({ord(c) for c in pat.findall(R.caseable_chars() + chr(cp))}))
    return _case_masks[cp]


R.unicode_ignorecase_mask = ignorecase_mask
_masks = {}


def char_mask(node, flags):
    key = (repr(node), flags)
    if key not in _masks:
        _masks[key] = R.single_char_mask(node, flags)
    return _masks[key]


def match_nodes(nodes, k, s, i, groups, flags, cont):
    """Match nodes[k:] of the tree at position i; cont(i, groups) -> result or None."""
    if k == len(nodes):
        return cont(i, groups)
    op, arg = nodes[k]

    def rest(j, gr):
        return match_nodes(nodes, k + 1, s, j, gr, flags, cont)

    mask = char_mask(nodes[k], flags) if op in (K.LITERAL, K.NOT_LITERAL, K.IN, K.ANY) else None
    if mask is not None:
        if i < len(s) and in_mask(s[i], mask):
            return rest(i + 1, groups)
        return None
    if op is K.SUBPATTERN:
        num, add, rem, sub = arg
        fl = (flags | add) & ~rem

        def close(j, gr):
            if num is not None:
                gr = dict(gr)
                gr[num] = (i, j)
            return match_nodes(nodes, k + 1, s, j, gr, flags, cont)
        return match_nodes(sub, 0, s, i, groups, fl, close)
    if op is K.BRANCH:
        for alt in arg[1]:
            r = match_nodes(alt, 0, s, i, groups, flags, rest)
            if r is not None:
                return r
        return None
    if op in (K.MAX_REPEAT, K.MIN_REPEAT):
        lo, hi, sub = arg
        greedy = op is K.MAX_REPEAT

        def loop(n, j, gr):
            def again(j2, gr2):
                if j2 == j and n >= lo:
                    return None
                return loop(n + 1, j2, gr2)
            can = hi is K.MAXREPEAT or n < hi
            if n < lo:
                return match_nodes(sub, 0, s, j, gr, flags, again)
            if greedy:
                if can:
                    r = match_nodes(sub, 0, s, j, gr, flags, again)
                    if r is not None:
                        return r
                return rest(j, gr)
            r = rest(j, gr)
            if r is None and can:
                r = match_nodes(sub, 0, s, j, gr, flags, again)
            return r
        return loop(0, i, groups)
    if op is K.AT:
        if arg in (K.AT_BEGINNING, K.AT_BEGINNING_STRING) and not flags & re.MULTILINE:
            return rest(i, groups) if i == 0 else None
        if arg is K.AT_END and not flags & re.MULTILINE:
            if i == len(s) or (i == len(s) - 1 and in_mask(s[i], R.CharMask([10]))):
                return rest(i, groups)
            return None
        if arg is K.AT_END_STRING:
            return rest(i, groups) if i == len(s) else None
        if arg in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
            word = R.single_char_mask((K.CATEGORY, K.CATEGORY_WORD), flags)
            a = i > 0 and in_mask(s[i - 1], word)
            b = i < len(s) and in_mask(s[i], word)
            return rest(i, groups) if (a != b) == (arg is K.AT_BOUNDARY) else None
    if op in (K.ASSERT, K.ASSERT_NOT):
        direction, sub = arg
        if direction > 0:
            r = match_nodes(sub, 0, s, i, groups, flags, lambda j, gr: (j, gr))
        else:
            lo, hi = sub.getwidth()
            if lo != hi:
                raise UnexploredPath('regex lookbehind')
            r = match_nodes(sub, 0, s, i - lo, groups, flags, lambda j, gr: (j, gr)) if i >= lo else None
        if op is K.ASSERT_NOT:
            return rest(i, groups) if r is None else None
        return rest(i, r[1]) if r is not None else None
    if op is K.GROUPREF:
        if arg not in groups:
            return None
        a, b = groups[arg]
        for x in s[a:b]:
            if i >= len(s) or not same_char(s[i], x):
                return None
            i += 1
        return rest(i, groups)
    if op is K.ATOMIC_GROUP:
        r = match_nodes(arg, 0, s, i, groups, flags, lambda j, gr: (j, gr))
        return rest(*r) if r is not None else None
    if op is K.POSSESSIVE_REPEAT:
        r = match_nodes([(K.MAX_REPEAT, arg)], 0, s, i, groups, flags, lambda j, gr: (j, gr))
        return rest(*r) if r is not None else None
    raise UnexploredPath('regex operation %s' % op)


def same_char(a, b):
    if type(a) is int and type(b) is int:
        return a == b
    ea = a.var if isinstance(a, SymbolicInt) else z3.IntVal(realize(a))
    eb = b.var if isinstance(b, SymbolicInt) else z3.IntVal(realize(b))
    return decide(ea == eb)


class Match:
    def __init__(self, pat, string, cps, groups, pos, endpos):
        self.re, self.string, self._cps, self._groups = pat, string, cps, groups
        self.pos, self.endpos = pos, endpos
        last = [g for g in groups if g]
        self.lastindex = max(last) if last else None
        self.lastgroup = None
        for n, k in pat.groupindex.items():
            if k == self.lastindex:
                self.lastgroup = n

    def _num(self, g):
        if isinstance(g, str) or isinstance(g, AnySymbolicStr):
            g = self.re.groupindex.get(realize(g), -1)
        g = realize(g)
        if not 0 <= g <= self.re.groups:
            raise IndexError('no such group')
        return g

    def span(self, g=0):
        with NoTracing():
            return self._groups.get(self._num(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _text(self, g, default=None):
        sp = self._groups.get(g)
        return default if sp is None else text(self._cps[sp[0]:sp[1]])

    def group(self, *gs):
        with NoTracing():
            if not gs:
                return self._text(0)
            r = tuple(self._text(self._num(g)) for g in gs)
            return r[0] if len(r) == 1 else r

    def __getitem__(self, g):
        return self.group(g)

    def groups(self, default=None):
        with NoTracing():
            return tuple(self._text(k, default) for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        with NoTracing():
            return {n: self._text(k, default) for n, k in self.re.groupindex.items()}

    def expand(self, template):
        with NoTracing():
            return expand(self, template)

    def __bool__(self):
        return True


_trees = {}


def tree_of(pat):
    key = (pat.pattern, pat.flags)
    if key not in _trees:
        _trees[key] = P.parse(pat.pattern, pat.flags)
    return _trees[key]


def match_at(pat, s, i, full, advance=False):
    def done(j, gr):
        if full and j != len(s) or advance and j == i:
            return None
        return j, gr
    tree = tree_of(pat)
    r = match_nodes(tree, 0, s, i, {}, pat.flags, done)
    if r is None:
        return None
    gr = dict(r[1])
    gr[0] = (i, r[0])
    return gr


def expand(m, template):
    out = []
    for part in template_parts(m.re, template):
        if isinstance(part, int):
            sp = m._groups.get(part)
            if sp is not None:
                out.extend(m._cps[sp[0]:sp[1]])
        else:
            out.extend(ord(c) for c in part)
    return text(out)


def template_parts(pat, template):
    return P.parse_template(realize(template), pat)


def _symbolic(x):
    return isinstance(x, CrossHairValue)


def _bounds(cps, pos, endpos):
    pos = max(0, min(realize(pos), len(cps)))
    endpos = len(cps) if endpos is None else max(0, min(realize(endpos), len(cps)))
    return pos, endpos


def _scan(pat, string, pos, endpos, mode):
    cps = cps_of(string)
    pos, endpos = _bounds(cps, pos, endpos)
    cps = cps[:endpos]
    for i in ([pos] if mode != 'search' else range(pos, len(cps) + 1)):
        gr = match_at(pat, cps, i, mode == 'full')
        if gr is not None:
            return Match(pat, string, cps, gr, pos, endpos)
    return None


def _mk(mode, real):
    def fn(self, string, pos=0, endpos=None):
        with NoTracing():
            if not _symbolic(string):
                return real(self, string, realize(pos)) if endpos is None else \
                    real(self, string, realize(pos), realize(endpos))
            if not isinstance(string, AnySymbolicStr):
                raise TypeError('expected string or bytes-like object')
            if isinstance(self.pattern, bytes):
                raise TypeError('cannot use a bytes pattern on a string-like object')
            return _scan(self, string, pos, endpos, mode)
    return fn


def _iter(pat, string, pos=0, endpos=None):
    cps = cps_of(string)
    pos, endpos = _bounds(cps, pos, endpos)
    cps = cps[:endpos]
    i = pos
    advance = False
    while i <= len(cps):
        gr = match_at(pat, cps, i, False, advance)
        advance = False
        if gr is None:
            i += 1
            continue
        a, b = gr[0]
        yield Match(pat, string, cps, gr, pos, endpos)
        i = b
        advance = a == b


def _finditer(self, string, pos=0, endpos=None):
    with NoTracing():
        if not _symbolic(string):
            return iter(list(re.Pattern.finditer(self, string, realize(pos), *([] if endpos is None else [endpos]))))
        return iter(list(_iter(self, string, pos, endpos)))


def _findall(self, string, pos=0, endpos=None):
    with NoTracing():
        if not _symbolic(string):
            return re.Pattern.findall(self, string, realize(pos), *([] if endpos is None else [endpos]))
        res = []
        for m in _iter(self, string, pos, endpos):
            if self.groups == 0:
                res.append(m._text(0))
            elif self.groups == 1:
                res.append(m._text(1, ''))
            else:
                res.append(tuple(m._text(k, '') for k in range(1, self.groups + 1)))
        return res


def _subn(self, repl, string, count=0):
    with NoTracing():
        count = realize(count)
        call = callable(repl)
        if not _symbolic(string):
            if not call:
                return re.Pattern.subn(self, realize(repl), string, count)
            ms = list(re.Pattern.finditer(self, string))
            cps = [ord(c) for c in string]
        else:
            ms = None
            cps = cps_of(string)
        out, at, n = [], 0, 0
        for m in (ms if ms is not None else _iter(self, string)):
            a, b = m.span()
            out.extend(cps[at:a])
            if call:
                with ResumedTracing():
                    r = repl(m)
                out.extend(cps_of(r))
            else:
                out.extend(cps_of(expand(m, repl)))
            at = b
            n += 1
            if count and n == count:
                break
        out.extend(cps[at:])
        return text(out), n


def _sub(self, repl, string, count=0):
    return _subn(self, repl, string, count)[0]


def _split(self, string, maxsplit=0):
    with NoTracing():
        maxsplit = realize(maxsplit)
        if not _symbolic(string):
            return re.Pattern.split(self, string, maxsplit)
        cps = cps_of(string)
        res, at, n = [], 0, 0
        for m in _iter(self, string):
            a, b = m.span()
            res.append(text(cps[at:a]))
            res.extend(m._text(k) for k in range(1, self.groups + 1))
            at = b
            n += 1
            if maxsplit and n == maxsplit:
                break
        res.append(text(cps[at:]))
        return res


# -- decimal digits -------------------------------------------------------------------------------

_digit_starts = None


def digit_starts():
    """Code points of the zeros of every decimal digit block."""
    global _digit_starts
    if _digit_starts is None:
        import unicodedata
        _digit_starts = [c for c in range(0x110000) if unicodedata.decimal(chr(c), None) == 0]
        for c in _digit_starts:
            assert [unicodedata.decimal(chr(c + k), None) for k in range(10)] == list(range(10))
    return _digit_starts


_ascii_only = [False]


def all_ascii(cps):
    """Decide whether all characters are ASCII (most code has established that already)."""
    return decide(z3.And(*[expr(c) < 128 for c in cps])) if cps else True


def is_digit(c):
    """z3 condition: c (z3 expression) is a Unicode decimal digit."""
    if _ascii_only[0]:
        return z3.And(c >= 48, c <= 57)
    return z3.Or(*[z3.And(c >= s, c <= s + 9) for s in digit_starts()])


def digit_val(c, ascii_only=False):
    r = c - 48
    if not ascii_only and not _ascii_only[0]:
        for s in digit_starts()[1:]:
            r = z3.If(z3.And(c >= s, c <= s + 9), c - s, r)
    return r


def expr(c):
    return c.var if isinstance(c, SymbolicInt) else z3.IntVal(realize(c))


# -- strptime ---------------------------------------------------------------------------------------

def _between(c, lo, hi):
    return z3.And(c >= ord(lo), c <= ord(hi))


def _alts(directive):
    """Alternatives of a directive: (number of characters, condition on them, value), in regex order.
    Alternatives of the regex with the same number of characters exclude each other here."""
    d = is_digit
    v = digit_val

    def two(cond):
        return (2, cond, lambda c: 10 * v(c[0]) + v(c[1]))

    def one(cond):
        return (1, cond, lambda c: v(c[0]))
    if directive == 'Y':
        return [(4, lambda c: z3.And(*[d(x) for x in c]),
                 lambda c: 1000 * v(c[0]) + 100 * v(c[1]) + 10 * v(c[2]) + v(c[3]))]
    if directive == 'm':
        return [two(lambda c: z3.Or(z3.And(c[0] == 49, _between(c[1], '0', '2')),
                                    z3.And(c[0] == 48, _between(c[1], '1', '9')))),
                one(lambda c: _between(c[0], '1', '9'))]
    if directive == 'd':
        return [two(lambda c: z3.Or(z3.And(c[0] == 51, _between(c[1], '0', '1')),
                                    z3.And(_between(c[0], '1', '2'), d(c[1])),
                                    z3.And(c[0] == 48, _between(c[1], '1', '9')))),
                one(lambda c: _between(c[0], '1', '9')),
                (2, lambda c: z3.And(c[0] == 32, _between(c[1], '1', '9')), lambda c: v(c[1]))]
    if directive == 'H':
        return [two(lambda c: z3.Or(z3.And(c[0] == 50, _between(c[1], '0', '3')),
                                    z3.And(_between(c[0], '0', '1'), d(c[1])))),
                one(lambda c: d(c[0]))]
    if directive == 'M':
        return [two(lambda c: z3.And(_between(c[0], '0', '5'), d(c[1]))), one(lambda c: d(c[0]))]
    if directive == 'S':
        return [two(lambda c: z3.Or(z3.And(c[0] == 54, _between(c[1], '0', '1')),
                                    z3.And(_between(c[0], '0', '5'), d(c[1])))),
                one(lambda c: d(c[0]))]
    if directive == 'f':
        def many(n):
            return (n, lambda c: z3.And(*[_between(x, '0', '9') for x in c]),
                    lambda c: sum((c[k] - 48) * 10 ** (5 - k) for k in range(n)))
        return [many(n) for n in range(6, 0, -1)]
    return None


def strptime_fields(cps, fmt):
    """Fields read from the text, None if it does not match, NotImplemented for other directives."""
    items = []
    i = 0
    while i < len(fmt):
        if fmt[i] == '%':
            if _alts(fmt[i + 1:i + 2]) is None or ('d', fmt[i + 1]) in items:
                return NotImplemented
            items.append(('d', fmt[i + 1]))
            i += 2
        else:
            if fmt[i].isspace():
                return NotImplemented
            items.append(('c', fmt[i]))
            i += 1

    def go(k, i, vals):
        if k == len(items):
            return i, vals
        kind, x = items[k]
        if kind == 'c':
            if i < len(cps) and in_mask(cps[i], ignorecase_mask(ord(x))):
                return go(k + 1, i + 1, vals)
            return None
        for n, cond, val in _alts(x):
            if i + n > len(cps):
                continue
            c = [expr(y) for y in cps[i:i + n]]
            if decide(cond(c)):
                r = go(k + 1, i + n, dict(vals, **{x: z3.simplify(val(c))}))
                if r is not None:
                    return r
        return None

    _ascii_only[0] = all_ascii(cps)
    try:
        r = go(0, 0, {})
    finally:
        _ascii_only[0] = False
    if r is None or r[0] != len(cps):
        return None
    res = {}
    for k, e in r[1].items():
        res[k] = e.as_long() if z3.is_int_value(e) else SymbolicInt(e, int)
    return res


def install(patch):
    for name, mode in (('match', 'match'), ('fullmatch', 'full'), ('search', 'search')):
        patch(getattr(re.Pattern, name), _mk(mode, getattr(re.Pattern, name)))
    patch(re.Pattern.sub, _sub)
    patch(re.Pattern.subn, _subn)
    patch(re.Pattern.split, _split)
    patch(re.Pattern.findall, _findall)
    patch(re.Pattern.finditer, _finditer)
