"""Symbolic worker: explores one harness (one parameter) and writes the result as JSON.

usage: python3-vt -m engine.symx MODULE HARNESS PARAM_INDEX TIER SEED OUT.json
"""
import importlib
import json
import os
import random
import subprocess
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(10000)

from engine import api, values  # noqa

api.setup_path(False)
warnings.simplefilter('ignore')

from engine import models  # noqa
import z3  # noqa
from crosshair.core import deep_realize, ExceptionFilter, PathOutcome, explore_loop  # noqa
from crosshair.core import suspected_proxy_intolerance_exception  # noqa
from crosshair.libimpl.builtinslib import (LazyIntSymbolicStr, PreciseIeeeSymbolicFloat, SymbolicBool, SymbolicInt,  # noqa
                                           make_bounded_int)
from crosshair.options import DEFAULT_OPTIONS, AnalysisOptionSet  # noqa
from crosshair.statespace import CallAnalysis, NotDeterministic, RootNode, VerificationStatus  # noqa
from crosshair.tracers import NoTracing, ResumedTracing, is_tracing  # noqa
from crosshair.util import IgnoreAttempt, UnexploredPath  # noqa

STATS = {'decisions': 0, 'queries': 0, 'solver_s': 0.0, 'unknown_queries': 0}
_check = z3.Solver.check


def _counted(self, *a, **kw):
    t = time.perf_counter()
    r = _check(self, *a, **kw)
    STATS['solver_s'] += time.perf_counter() - t
    STATS['queries'] += 1
    if r == z3.unknown:
        STATS['unknown_queries'] += 1
    return r


z3.Solver.check = _counted

from crosshair.statespace import StateSpace  # noqa
_choose = StateSpace.choose_possible


def _choose_counted(self, *a, **kw):
    STATS['decisions'] += 1
    return _choose(self, *a, **kw)


StateSpace.choose_possible = _choose_counted


class SymG(api.G):
    """Symbolic mode: every draw is an SMT variable."""
    symbolic = True

    def __init__(self, space, tier, param):
        super().__init__({}, tier, param)
        self.space = space
        self.draws = {}

    def _dup(self, name):
        if name in self.draws:
            raise RuntimeError('drawn twice: ' + name)

    def int(self, name, lo=None, hi=None):
        with NoTracing():
            self._dup(name)
            v = make_bounded_int('i.' + name, lo, hi)
            self.draws[name] = ('int', v.var)
            return v

    def bool(self, name):
        with NoTracing():
            self._dup(name)
            v = SymbolicBool('b.' + name)
            self.draws[name] = ('bool', v.var)
            return v

    def float(self, name, finite=True):
        with NoTracing():
            self._dup(name)
            v = PreciseIeeeSymbolicFloat('f.' + name)
            if finite:
                self.space.add(z3.And(z3.Not(z3.fpIsNaN(v.var)), z3.Not(z3.fpIsInf(v.var))))
            self.draws[name] = ('float', v.var)
            return v

    def str(self, name, hi, lo=0, chars=None):
        n = self.len(name + '.len', hi, lo)
        with NoTracing():
            self._dup(name)
            cps = []
            for k in range(n):
                c = make_bounded_int('c.%s.%d' % (name, k), 0, 0x10ffff)
                if chars is None:
                    self.space.add(z3.Or(c.var < 0xd800, c.var > 0xdfff))
                else:
                    self.space.add(z3.Or(*[z3.And(c.var >= a, c.var <= b) for a, b in chars]))
                cps.append(c)
            self.draws[name] = ('str', [c.var for c in cps])
            return LazyIntSymbolicStr(cps)

    def digits(self, name, n, base):
        with NoTracing():
            self._dup(name)
            ds = [make_bounded_int('x.%s.%d' % (name, k), 0, base - 1).var for k in range(n)]
            total = models.horner(ds, base)
            models.know_number(total, ds, base)
            self.draws[name] = ('int', total)
            return SymbolicInt(total, int)

    def concrete(self, x):
        with NoTracing():
            return deep_realize(x)

    def native(self, fn, *args, **kwargs):
        with NoTracing():
            return fn(*args, **kwargs)

    def assume(self, cond):
        with NoTracing():
            if isinstance(cond, SymbolicBool) and self.space.is_possible(cond.var):
                self.space.add(cond.var)
                return
        if not cond:
            raise IgnoreAttempt('assume')

    def note(self, name, kind, expr):
        self.draws[name] = (kind, expr)


def model_values(g):
    """The concrete inputs of this path: evaluated in the solver's model, without forking."""
    solver = g.space.solver
    if solver.check() != z3.sat:
        return None
    m = solver.model()
    res = {}
    for name, (kind, e) in g.draws.items():
        if kind == 'int':
            res[name] = m.eval(e, model_completion=True).as_long()
        elif kind == 'bool':
            res[name] = z3.is_true(m.eval(e, model_completion=True))
        elif kind == 'float':
            res[name] = values.fp_to_float(m.eval(e, model_completion=True))
        elif kind == 'str':
            res[name] = ''.join(chr(m.eval(c, model_completion=True).as_long()) for c in e)
    return res


def intolerant(excs):
    """Did the path hit a limit of the engine (a C function that refused a symbolic value)?"""
    todo = list(excs)
    seen = set()
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        txt = ''
        try:
            txt = ' '.join(str(a) for a in e.args if type(a) is str)
        except Exception:
            pass
        if isinstance(e, Exception) and suspected_proxy_intolerance_exception(e):
            return txt
        for w in ('SymbolicInt', 'SymbolicStr', 'SymbolicFloat', 'SymbolicBool', 'SymbolicList', 'LazyInt',
                  'SimpleDict', 'ShellMutable', 'SymbolicBounded', '__hash__ method should return an integer'):
            if w in txt:
                return txt
        todo.append(e.__cause__)
        todo.append(e.__context__)
    return None


def replay(module, hname, pidx, tier, vals, timeout=120):
    """Run the harness natively on the given list of inputs; one result per input."""
    cmd = ['/opt/venv/bin/python', '-B', '-m', 'engine.replay', module, hname, str(pidx), tier]
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    try:
        p = subprocess.run(cmd, input=json.dumps([values.encode(v) for v in vals]), capture_output=True, text=True,
                           cwd=HERE, env=env, timeout=timeout)
    except subprocess.TimeoutExpired:
        return [{'status': 'timeout'}] * len(vals)
    for line in p.stdout.splitlines()[::-1]:
        if line.startswith('REPLAY '):
            return json.loads(line[7:])
    return [{'status': 'error', 'msg': (p.stdout + p.stderr)[-2000:]}] * len(vals)


def main(module, hname, pidx, tier, seed, out):
    t0 = time.time()
    ti = 0 if tier == 'quick' else 1
    import jsons  # noqa
    models.install()
    mod = importlib.import_module('checks.' + module)
    h = api.HARNESSES['checks.' + module][hname]
    param = h.params[pidx]
    if h.real_cache:
        models.enable_real_caches()
    state = api.State()
    budget = float(os.environ.get('VERIF_BUDGET', h.timeout[ti]))
    res = {'harness': hname, 'param': repr(param)[:300], 'pidx': pidx, 'bounds': h.bounds, 'outside': h.outside,
           'paths': 0, 'confirmed': 0, 'ignored': 0, 'unknown': [], 'violations': [], 'spurious': [], 'samples': [],
           'harness_errors': []}
    samples = []
    rnd = random.Random(seed)
    deadline = time.time() + budget
    trace_paths = os.environ.get('VERIF_TRACE')

    def unknown(why):
        if len(res['unknown']) < 20:
            res['unknown'].append(why[:300])
        res['n_unknown'] = res.get('n_unknown', 0) + 1
        return PathOutcome(CallAnalysis(VerificationStatus.UNKNOWN), time.time() > deadline)

    def run_path(space):
        res['paths'] += 1
        state.restore()
        models.reset()
        g = SymG(space, tier, param)
        bad = None
        done = False
        t_path = time.time()
        try:
            with ExceptionFilter() as ef, ResumedTracing():
                h.fn(g)
                done = True
        except IgnoreAttempt:
            res['ignored'] += 1
            raise
        except NotDeterministic as e:
            res['unknown'].append('nondeterministic')
            return PathOutcome(CallAnalysis(VerificationStatus.UNKNOWN), True)
        except UnexploredPath as e:
            if trace_paths:
                traceback.print_exc()
            return unknown(type(e).__name__ + ': ' + str(e)[:200])
        if ef.ignore:
            res['ignored'] += 1
            return PathOutcome(CallAnalysis())
        if ef.user_exc:
            exc, stack = ef.user_exc
            if isinstance(exc, api.Violation):
                bad = str(exc)
            else:
                bad = 'unexpected %s: %s' % (type(exc).__name__, str(exc)[:300])
                g.excs.append(exc)
            if trace_paths:
                print('PATH', res['paths'], bad, {k: v for k, v in (model_values(g) or {}).items()})
                for f in stack[-8:]:
                    print('   ', f.filename, f.lineno, f.line)
                for e in g.excs:
                    traceback.print_exception(e)
        elif trace_paths:
            print('PATH', res['paths'], 'ok %.2f' % (time.time() - t_path), model_values(g))
        if bad is None:
            res['confirmed'] += 1
            nmax = int(os.environ.get('VERIF_NSAMPLES', 12 if ti == 0 else 40))
            if len(samples) < nmax:
                v = model_values(g)
                if v is not None:
                    samples.append(v)
            elif rnd.random() < nmax / res['confirmed']:
                v = model_values(g)
                if v is not None:
                    samples[rnd.randrange(nmax)] = v
            return PathOutcome(CallAnalysis(VerificationStatus.CONFIRMED), time.time() > deadline)
        v = model_values(g)
        if v is None:
            return unknown('no model for a failing path: ' + bad)
        r = replay(module, hname, pidx, tier, [v])[0]
        if r['status'] == 'violated':
            res['violations'].append({'values': values.encode(v), 'msg': r['msg'], 'symbolic_msg': bad})
            return PathOutcome(CallAnalysis(VerificationStatus.REFUTED), True)
        why = intolerant(g.excs)
        if why is not None:
            return unknown('engine limit: ' + why)
        if len(res['spurious']) < 10:
            res['spurious'].append({'values': values.encode(v), 'symbolic_msg': bad, 'replay': r})
        return unknown('counterexample did not reproduce: ' + bad)

    opts = DEFAULT_OPTIONS.overlay(AnalysisOptionSet(
        per_condition_timeout=budget, per_path_timeout=h.per_path[ti], max_iterations=10 ** 9))
    root = RootNode()
    try:
        er = explore_loop(opts, root, run_path)
        status = er.top_analysis.verification_status if er.top_analysis else None
        res['exhausted'] = er.exhausted
    except Exception as e:
        res['harness_errors'].append(traceback.format_exc()[-3000:])
        status = None
        res['exhausted'] = False
    if res['violations']:
        res['status'] = 'refuted'
    elif res['exhausted'] and status == VerificationStatus.CONFIRMED and res['confirmed'] and not res['unknown']:
        res['status'] = 'confirmed'
    elif res['exhausted'] and not res['confirmed'] and not res['unknown']:
        res['status'] = 'vacuous'
    else:
        res['status'] = 'unknown'
    # Native replay of a sample of the passing paths: the encoding must agree with the real code.
    funcs = set()
    if samples and not res['violations']:
        rs = replay(module, hname, pidx, tier, samples)
        n_ok = 0
        for v, r in zip(samples, rs):
            funcs.update(r.get('funcs', ()))
            if r['status'] == 'ok':
                n_ok += 1
            elif r['status'] == 'violated':
                res['violations'].append({'values': values.encode(v), 'msg': r['msg'],
                                          'symbolic_msg': 'passing path fails natively'})
                res['status'] = 'refuted'
            else:
                res['harness_errors'].append('native replay of a passing path: %s' % json.dumps(r)[:1500])
        res['native_ok'] = n_ok
    if os.environ.get('VERIF_SAMPLES'):
        # For development: keep the solver's models of the passing paths.
        with open(os.path.join(os.environ['VERIF_SAMPLES'], '%s.%s.%d.json' % (module, hname, pidx)), 'w') as f:
            json.dump([values.encode(v) for v in samples], f)
    res['funcs'] = sorted(funcs)
    res['samples'] = [values.encode(v) for v in samples[:3]]
    res.update(STATS)
    res['wall_s'] = round(time.time() - t0, 2)
    with open(out, 'w') as f:
        json.dump(res, f)
    if trace_paths:
        print(json.dumps({k: v for k, v in res.items() if k not in ('samples', 'funcs')}, indent=1))


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4], int(sys.argv[5]), sys.argv[6])
