"""Native replay: runs a harness on recorded inputs in plain CPython, nothing patched.

usage: /opt/venv/bin/python -m engine.replay MODULE HARNESS PARAM_INDEX TIER < list-of-values.json
"""
import importlib
import json
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(10000)
from engine import api, values  # noqa

api.setup_path(True)
warnings.simplefilter('ignore')


def one(h, param, tier, vals, state, funcs):
    state.restore()
    g = api.G(vals, tier, param)

    def prof(frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if co.co_filename.startswith(api.REPO + '/jsons'):
                funcs.add(co.co_filename[len(api.REPO) + 1:] + ':' + co.co_qualname)
    sys.setprofile(prof)
    try:
        h.fn(g)
        return {'status': 'ok'}
    except api.Skip:
        return {'status': 'skipped'}
    except api.Violation as e:
        return {'status': 'violated', 'msg': str(e)}
    except Exception as e:
        sys.setprofile(None)
        return {'status': 'violated', 'msg': 'unexpected %s: %s\n%s' % (type(e).__name__, e,
                                                                      traceback.format_exc()[-1500:])}
    finally:
        sys.setprofile(None)


def main(module, hname, pidx, tier):
    import jsons  # noqa
    assert jsons.__file__.startswith(api.REPO + '/'), jsons.__file__
    importlib.import_module('checks.' + module)
    h = api.HARNESSES['checks.' + module][hname]
    state = api.State()
    res = []
    for v in json.load(sys.stdin):
        funcs = set()
        r = one(h, h.params[pidx], tier, values.decode(v), state, funcs)
        r['funcs'] = sorted(funcs)
        res.append(r)
    state.restore()
    sys.stdout.flush()
    print('\nREPLAY ' + json.dumps(res))


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4])
