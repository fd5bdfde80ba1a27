"""Differential test of the engine's models:  python3-vt -m engine.test_models [N] [SEED]

Symbolic inputs are pinned to concrete values (the solver knows the value, the code does not), the
modelled function runs on them as in a harness, and its outcome (value and type, or type of
exception) is compared with the real function's.  This is a test of the trusted base, no check."""
import os
import random
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from engine import symx, api, values  # noqa
from engine import models, rex  # noqa
import z3  # noqa
from crosshair.core import deep_realize, ExceptionFilter, PathOutcome, explore_loop  # noqa
from crosshair.options import DEFAULT_OPTIONS, AnalysisOptionSet  # noqa
from crosshair.statespace import CallAnalysis, RootNode, VerificationStatus  # noqa
from crosshair.tracers import NoTracing, ResumedTracing  # noqa

import datetime as dt  # noqa
import importlib  # noqa
import json  # noqa
import re  # noqa
from decimal import Decimal  # noqa
from uuid import UUID  # noqa


class Pinned(symx.SymG):
    def __init__(self, space, vals):
        super().__init__(space, 'quick', None)
        self.vals = vals

    def sym(self, k):
        v = self.vals[k]
        name = 'v%d' % k
        if type(v) is bool:
            x = self.bool(name)
            self._pin(x.var == v)
        elif type(v) is int:
            x = self.int(name)
            self._pin(x.var == v)
        elif type(v) is float:
            x = self.float(name, finite=False)
            self._pin(x.var == z3.FPVal(v, z3.Float64()) if v == v else z3.fpIsNaN(x.var))
        elif type(v) is str:
            x = self.str(name, len(v), len(v))
            for c, e in zip(v, self.draws[name][1]):
                self._pin(e == ord(c))
        else:
            x = v
        return x

    def _pin(self, e):
        with NoTracing():
            self.space.add(e)


def outcome(fn, args):
    try:
        return ('ok', fn(*args))
    except Exception as err:
        return ('raised', type(err).__name__)


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'raised':
        return a[1] == b[1]
    return type(a[1]) is type(b[1]) and (a[1] == b[1] or (a[1] != a[1] and b[1] != b[1])) and repr(a[1]) == repr(b[1])


def symbolic(fn, args):
    res = []

    def run_path(space):
        state.restore()
        models.reset()
        g = Pinned(space, args)
        with ExceptionFilter() as ef, ResumedTracing():
            xs = [g.sym(k) for k in range(len(args))]
            o = outcome(fn, xs)
            with NoTracing():
                res.append(deep_realize(o))
        if ef.user_exc:
            res.append(('escaped', repr(ef.user_exc[0])))
        elif ef.ignore:
            res.append(('ignored', ''))
        return PathOutcome(CallAnalysis(VerificationStatus.CONFIRMED), True)
    opts = DEFAULT_OPTIONS.overlay(AnalysisOptionSet(per_condition_timeout=60, per_path_timeout=30, max_iterations=50))
    explore_loop(opts, RootNode(), run_path)
    return res[-1] if res else ('none', None)


CHARS = '0123456789' * 3 + 'aZzTt-+:._ eE\n/[]' + 'AéßÉıſǅ٣²½ΣσІ\u2028\U00010400\x1c'


def text(r, n, chars=CHARS):
    return ''.join(r.choice(chars) for _ in range(r.randint(0, n)))


def number(r):
    return r.choice([r.randint(-12, 12), r.randint(-10 ** 6, 10 ** 6), r.randint(-10 ** 20, 10 ** 20)])


def date_of(r):
    return (r.choice([1, 4, 99, 100, 400, 999, 1000, 1900, 2000, 2023, 2024, 9999, r.randint(1, 9999)]), r.randint(0, 13),
            r.randint(0, 32))


def full(r):
    return date_of(r)[:1] + (r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59),
                             r.choice([0, 1, 10, 500000, 999999, r.randint(0, 999999)]))


def off(r):
    return r.choice([0, 1, -1, 59, -59, 90, -90, 1439, -1439, r.randint(-1439, 1439)])


def mutate(r, s):
    s = list(s)
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        k = r.randrange(len(s) + 1)
        s[k:k + r.choice([0, 1, 1])] = [r.choice(CHARS)] if r.random() < .8 else []
    return ''.join(s)


def stamp(r):
    y, m, d, H, M, S, us = full(r)
    s = '%04d-%02d-%02dT%02d:%02d:%02d' % (y, m, d, H, M, S)
    if r.random() < .5:
        s += '.%06d' % us
    return mutate(r, s + r.choice(['Z', '+00:00', '-02:30', '+23:59', '']))


FMT = ('%Y-%m-%dT%H:%M:%S', '%Y-%m-%d', '%H:%M:%S', '%Y-%m-%dT%H:%M:%S%z', '%Y-%m-%dT%H:%M:%S.%f%z', '%H:%M:%S.%f',
       '%Y-%m-%dT%H:%M:%SZ')
RX = (r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?(Z|[+-]\d\d:[0-5]\d)', r'(\.[0-9]+)', r'([A-Z])', r'_?([a-z0-9])', r'[-_ ]+',
      r'(.)([A-Z][a-z]+)', r'([a-z0-9])([A-Z])', r'^\s*|\s+$', r'(?i)t', r'\w+?\b', r'(a|T|1)*?[^0-9]')


def aware(y, mo, d, H, M, S, us, o):
    return dt.datetime(y, mo, d, H, M, S, us, tzinfo=dt.timezone(dt.timedelta(minutes=o)))


def with_rx(fn):
    return lambda s, k: fn(re.compile(RX[k]), s)


CASES = [
    ('str(int)', lambda x: str(x), lambda r: (number(r),)),
    ('str(bool)', lambda x: str(x), lambda r: (r.random() < .5,)),
    ('format int', lambda x: '{:02d}|{:d}|{}|{:4d}'.format(x, x, x, x), lambda r: (number(r),)),
    ('percent', lambda x, s: '%s_%d_%02d_%s' % (x, x, x, s), lambda r: (number(r), text(r, 3))),
    ('fstring', lambda x, s: f'{s}-{x:04d}-{x}-{s!s}', lambda r: (number(r), text(r, 3))),
    ('int(str)', lambda s: int(s), lambda r: (text(r, 4, '0123456789_-+ \n٣x²'),)),
    ('int(str,16)', lambda s: int(s, 16), lambda r: (text(r, 4, '0123456789abcdefABCDEFgx_-'),)),
    ('float(str)', lambda s: float(s), lambda r: (text(r, 5, '0123456789.eE+-_ infa'),)),
    ('float(int)', lambda x: float(x), lambda r: (r.randint(-2 ** 53, 2 ** 53),)),
    ('int(float)', lambda x: int(x), lambda r: (r.uniform(-1e6, 1e6),)),
    ('Decimal(str)', lambda s: Decimal(s), lambda r: (text(r, 5, '0123456789.E+-_ infaN'),)),
    ('complex', lambda a, b: (complex(a, b).real, complex(a, b).imag), lambda r: (r.uniform(-9, 9), float(r.randint(-3, 3)))),
    ('UUID(str)', lambda s: str(UUID(s)), lambda r: (mutate(r, str(UUID(int=r.getrandbits(128)))),)),
    ('UUID(int)', lambda x: str(UUID(int=x)), lambda r: (r.getrandbits(r.choice([8, 64, 127])),)),
    ('date', lambda y, m, d: dt.date(y, m, d).isoformat(), date_of),
    ('date.strftime', lambda y, m, d: dt.date(y, m, d).strftime('%Y-%m-%d'), date_of),
    ('datetime.strftime', lambda *a: dt.datetime(*a).strftime('%Y-%m-%dT%H:%M:%S.%f'), full),
    ('datetime.isoformat', lambda *a: aware(*a).isoformat(), lambda r: full(r) + (off(r),)),
    ('datetime.str', lambda *a: str(aware(*a)), lambda r: full(r) + (off(r),)),
    ('time.isoformat', lambda *a: dt.time(*a).isoformat(), lambda r: full(r)[3:]),
    ('astimezone', lambda *a: aware(*a).astimezone(dt.timezone.utc).isoformat(), lambda r: full(r) + (off(r),)),
    ('timestamp order', lambda *a: aware(*a) < dt.datetime(2000, 1, 1, tzinfo=dt.timezone.utc), lambda r: full(r) + (off(r),)),
    ('utcoffset', lambda *a: aware(*a).utcoffset().total_seconds(), lambda r: full(r) + (off(r),)),
    ('strptime', lambda s, k: dt.datetime.strptime(s, FMT[k]).isoformat(), lambda r: (stamp(r), r.randrange(len(FMT)))),
    ('strptime date', lambda s: dt.datetime.strptime(s, '%Y-%m-%d').isoformat(),
     lambda r: (mutate(r, '%04d-%02d-%02d' % date_of(r)),)),
    ('strptime time', lambda s: dt.datetime.strptime(s, '%H:%M:%S').isoformat(),
     lambda r: (mutate(r, '%02d:%02d:%02d' % full(r)[3:6]),)),
    ('timedelta', lambda d, s, u: dt.timedelta(d, s, u).total_seconds() * 1,
     lambda r: (r.randint(-90000, 90000), r.randint(-86400, 86400), r.randint(-10 ** 6, 10 ** 6))),
    ('timedelta round trip', lambda d, s, u: dt.timedelta(seconds=dt.timedelta(d, s, u).total_seconds()) == dt.timedelta(d, s, u),
     lambda r: (r.randint(-90000, 90000), r.randint(-86400, 86400), r.randint(-10 ** 6, 10 ** 6))),
    ('lower', lambda s: s.lower(), lambda r: (text(r, 4, CHARS.replace('Σ', '')),)),
    ('upper', lambda s: s.upper(), lambda r: (text(r, 4),)),
    ('title', lambda s: s.title(), lambda r: (text(r, 4, CHARS.replace('Σ', '')),)),
    ('isupper', lambda s: (s.isupper(), s.islower(), s.isdigit(), s.isalpha(), s.isspace()), lambda r: (text(r, 3),)),
    ('strip', lambda s: (s.strip('_'), s.lstrip('-'), s.split('_'), s.replace('_', '-'), s.replace('-', '')),
     lambda r: (text(r, 5, '_-aB1 '),)),
    ('find', lambda s: (s.find('a'), s.rpartition('.'), s.partition('['), s.startswith('_'), s.endswith(']'), 'a' in s),
     lambda r: (text(r, 5, 'a._[]b'),)),
    ('re.fullmatch', with_rx(lambda p, s: bool(p.fullmatch(s))), lambda r: (stamp(r), r.choice([0, 0, 0, 9, 10]))),
    ('re.search', with_rx(lambda p, s: p.search(s).group()), lambda r: (stamp(r), r.randrange(len(RX)))),
    ('re.sub', with_rx(lambda p, s: p.sub(r'_', s)), lambda r: (text(r, 6, 'aBcD12-_ .T'), r.randrange(1, len(RX)))),
    ('re.sub group', lambda s: re.sub(RX[5], r'\1_\2', s), lambda r: (text(r, 6, 'aBcD12-_ '),)),
    ('re.sub fn', lambda s: re.sub(RX[2], lambda m: '_' + m.group(1).lower(), s), lambda r: (text(r, 6, 'aBcD12-_ '),)),
    ('re.split', with_rx(lambda p, s: p.split(s)), lambda r: (text(r, 6, 'aBcD12-_ '), 4)),
    ('re.findall', with_rx(lambda p, s: p.findall(s)), lambda r: (text(r, 6, 'aBcD12-_ .'), r.randrange(1, len(RX)))),
    ('getattr', lambda s: getattr(dt, s, None) is None, lambda r: (r.choice(['date', 'datetim', 'time', '', 'x', 'UTC']),)),
    ('hasattr', lambda s: hasattr(dt, s), lambda r: (r.choice(['date', 'datetim', 'time', '', 'x', 'UTC']),)),
    ('import_module', lambda s: importlib.import_module(s).__name__,
     lambda r: (r.choice(['json', 'jso', 'os.path', 'json.decoder', '', '.x', 'x y', 'enum', 'a.b']),)),
    ('json.loads', lambda s: json.loads(s), lambda r: (text(r, 5, '0123456789.eE+-"[]{},: \\ntrulaf'),)),
    ('json.dumps', lambda s, x, b: json.dumps([s, x, b, {s: x}]), lambda r: (text(r, 3), number(r), r.random() < .5)),
    ('encode', lambda s: s.encode('utf-8').decode('utf-8'), lambda r: (text(r, 4),)),
]


def main(n=40, seed=1):
    global state
    models.install()
    state = api.State()
    r = random.Random(seed)
    bad = 0
    only = os.environ.get('ONLY')
    for name, fn, gen in CASES:
        if only and only not in name:
            continue
        wrong = limits = 0
        for _ in range(n):
            args = gen(r)
            want = outcome(fn, args)
            try:
                got = symbolic(fn, args)
            except Exception as err:
                got = ('engine', repr(err)[:200])
            if got[0] in ('engine', 'none', 'ignored') or (got[0] == 'escaped' and 'Unexplored' in got[1]):
                limits += 1
                if os.environ.get('V'):
                    print('   limit', name, args, got)
            elif not same(got, want):
                wrong += 1
                if wrong <= 4:
                    print('   WRONG', name, args, 'model:', got, 'real:', want)
        bad += wrong
        print('%-22s %d inputs, %d wrong, %d engine limits' % (name, n, wrong, limits), flush=True)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main(*map(int, sys.argv[1:])))
