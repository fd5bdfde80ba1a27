#!/usr/bin/env python3
"""Decide one property:  python3 run.py C01 [--tier quick|thorough] [--only HARNESS] [--jobs N]
Replay a reported counterexample:  python3 run.py --replay FILE"""
import argparse
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python'
NATIVE = '/opt/venv/bin/python'


def env_for_worker(budget=None):
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', TZ='UTC')
    return env


def list_tasks(module, tier):
    code = ("import sys,json; sys.path.insert(0,%r)\nfrom engine import api\napi.setup_path(True)\n"
            "import importlib, warnings\nwarnings.simplefilter('ignore')\n"
            "importlib.import_module('checks.%s')\n"
            "r=[]\n"
            "for h in api.HARNESSES['checks.%s'].values():\n"
            "    if %r in h.slow:\n"
            "        for i in range(len(h.params)): r.append([h.name,i,h.timeout[%d]])\n"
            "print('TASKS '+json.dumps(r))" % (HERE, module, module, tier, 0 if tier == 'quick' else 1))
    p = subprocess.run([NATIVE, '-B', '-c', code], capture_output=True, text=True, env=env_for_worker(), timeout=120)
    for line in p.stdout.splitlines():
        if line.startswith('TASKS '):
            return json.loads(line[6:])
    sys.stderr.write(p.stdout + p.stderr)
    print('ERROR: the checks could not be imported')
    sys.exit(2)


def limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def run_findings(prop):
    """Print a KNOWN-FINDING line for each listed, unrepaired finding that still fails."""
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        entries = json.load(f)['findings']
    todo = [e for e in entries if e['property'] == prop and e['status'] == 'known']
    for e in todo:
        p = subprocess.run([NATIVE, '-B', '-c', e['demo']], capture_output=True, text=True, timeout=120,
                           env=dict(env_for_worker(), PYTHONPATH=os.environ.get('VERIF_REPO', '/repo')))
        if p.returncode != 0:
            print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    return len(todo)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    if args.replay:
        with open(args.replay) as f:
            r = json.load(f)
        p = subprocess.run([NATIVE, '-B', '-m', 'engine.replay', r['module'], r['harness'], str(r['pidx']), r['tier']],
                           input=json.dumps([r['values']]), text=True, capture_output=True, cwd=HERE,
                           env=env_for_worker())
        print(p.stdout[-3000:], p.stderr[-2000:])
        return 1 if '"violated"' in p.stdout else 0
    prop, tier = args.property, args.tier
    module = prop.lower()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    tasks = list_tasks(module, tier)
    if args.only:
        tasks = [t for t in tasks if t[0] == args.only or args.only in '%s.%d' % (t[0], t[1])]
    tasks.sort(key=lambda t: -t[2])
    total = 780 if tier == 'quick' else 6 * 3600
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    running, results, queue = [], [], list(tasks)
    stop = False

    def kill(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()

    try:
        while (queue or running) and not stop:
            while queue and len(running) < args.jobs:
                name, i, budget = queue.pop(0)
                out = os.path.join(tmp, '%s.%d.json' % (name, i))
                log = open(out + '.log', 'w')
                p = subprocess.Popen([VT, '-B', '-m', 'engine.symx', module, name, str(i), tier, str(seed), out],
                                     cwd=HERE, env=env_for_worker(), stdout=log, stderr=log, preexec_fn=limits)
                running.append((p, name, i, out, time.time(), budget))
            time.sleep(0.02)
            for r in list(running):
                p, name, i, out, started, budget = r
                over = time.time() - started > budget * 1.5 + 60 or time.time() - t0 > total
                if p.poll() is None and not over:
                    continue
                if p.poll() is None:
                    kill(p)
                running.remove(r)
                if os.path.exists(out):
                    with open(out) as f:
                        res = json.load(f)
                else:
                    with open(out + '.log') as f:
                        log = f.read()[-1500:]
                    res = {'harness': name, 'pidx': i, 'status': 'killed' if over or p.returncode < 0 else 'crashed',
                           'log': log, 'wall_s': round(time.time() - started, 1)}
                results.append(res)
                if args.v:
                    print('%-34s %-10s paths=%-6s queries=%-7s solver=%.1fs wall=%.1fs %s' % (
                        '%s.%d' % (name, i), res['status'], res.get('paths'), res.get('queries'),
                        res.get('solver_s', 0), res['wall_s'],
                        (res.get('unknown') or res.get('harness_errors') or [''])[0][:200]
                        + (res.get('log', '') if res['status'] == 'crashed' else '')), flush=True)
                if res.get('violations') and not args.keep_going:
                    stop = True
    finally:
        for r in running:
            kill(r[0])
        shutil.rmtree(tmp, ignore_errors=True)

    code = 0
    edir = os.path.join(HERE, 'evidence')
    rdir = os.path.join(edir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    nviol = 0
    for res in results:
        for k, v in enumerate(res.get('violations', [])):
            path = os.path.join(rdir, '%s-%s-%d-%d.json' % (prop, res['harness'], res['pidx'], k))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'module': module, 'harness': res['harness'], 'pidx': res['pidx'],
                           'tier': tier, 'values': v['values'], 'msg': v['msg']}, f, indent=1)
            nviol += 1
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  %s.%d: %s' % (res['harness'], res['pidx'], v['msg'][:1000]))
            print('  input: %s' % json.dumps(v['values'])[:800])
            code = 1
    bad = [r for r in results if r.get('harness_errors') or r['status'] in ('vacuous', 'crashed')]
    inconclusive = [r for r in results if r['status'] in ('unknown', 'killed')]
    if not code:
        for r in bad:
            print('ERROR: %s.%d %s %s' % (r['harness'], r['pidx'], r['status'], json.dumps(
                r.get('harness_errors') or r.get('log', ''))[:1500]))
            code = 2
        for r in inconclusive:
            print('INCONCLUSIVE: %s.%d not decided over all paths (%s): %s' % (
                r['harness'], r['pidx'], r['status'], '; '.join(r.get('unknown', []))[:300]))
        run_findings(prop)
    confirmed = [r for r in results if r['status'] == 'confirmed']
    funcs = sorted({f for r in results for f in r.get('funcs', [])})
    with open(os.path.join(HERE, 'engine', 'assumptions.json')) as f:
        assumptions = json.load(f)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': sum(r.get('paths', 0) for r in results),
            'transitions': sum(r.get('decisions', 0) for r in results),
            'traces_validated_against_impl': sum(r.get('native_ok', 0) for r in results),
            'samples': [{'harness': r['harness'], 'input': s} for r in results for s in r.get('samples', [])[:1]][:12],
            'exhaustive': bool(results) and len(confirmed) == len(results) == len(tasks),
            'explanation': 'states = symbolic paths of the real code explored to their end; transitions = branch '
                           'decisions taken with the solver; each passing path holds for all inputs of its path '
                           'condition; traces validated = solver models of passing paths replayed natively.',
            'solver_queries': sum(r.get('queries', 0) for r in results),
            'solver_queries_unknown': sum(r.get('unknown_queries', 0) for r in results),
            'solver_s': round(sum(r.get('solver_s', 0) for r in results), 2),
            'harnesses_decided': len(confirmed), 'harnesses_run': len(results), 'harnesses_planned': len(tasks),
            'inconclusive': ['%s.%d' % (r['harness'], r['pidx']) for r in inconclusive],
            'functions_encoded': funcs,
            'harnesses': [{'name': '%s.%d' % (r['harness'], r['pidx']), 'param': r.get('param'), 'status': r['status'],
                           'bounds': r.get('bounds'), 'outside': r.get('outside'), 'paths': r.get('paths'),
                           'assumed_away': r.get('ignored'), 'queries': r.get('queries'),
                           'solver_s': round(r.get('solver_s', 0), 3), 'wall_s': r.get('wall_s'),
                           'undecided': r.get('unknown', [])} for r in sorted(results, key=lambda r: (r['harness'], r['pidx']))],
        },
        'assumptions': assumptions,
        'wall_s': round(time.time() - t0, 2), 'violations': nviol,
    }
    with open(os.path.join(edir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d/%d harnesses decided, %d paths, %d solver queries, %.1f s -> exit %d' % (
        prop, tier, len(confirmed), len(tasks), ev['coverage']['states'], ev['coverage']['solver_queries'],
        time.time() - t0, code))
    return code


if __name__ == '__main__':
    sys.exit(main())
