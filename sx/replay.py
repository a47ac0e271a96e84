"""Concrete replay on the unmodified implementation.
python -m sx.replay <property> <file.json | ->      (- : jobs on stdin, one RESULT line each)"""
import os
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
import importlib
import json

if len(sys.argv) > 2 and sys.argv[2] != '-':
    _d = json.load(open(sys.argv[2]))
    if _d.get('nojit'):
        os.environ['NUMBA_DISABLE_JIT'] = '1'
        os.environ['SX_POISON'] = '1'


def main():
    from . import patch, api, core
    patch.load_real()
    if os.environ.get('SX_POISON') == '1':
        patch.poison_empty()
    prop = sys.argv[1]
    mod = importlib.import_module('props.' + prop.lower())
    if sys.argv[2] == '-':
        jobs = json.loads(sys.stdin.read())
    else:
        jobs = [json.load(open(sys.argv[2]))]
    cache = {}
    bad = False
    for j in jobs:
        tier = j.get('tier', 'quick')
        if tier not in cache:
            cache[tier] = {c['name']: c for c in mod.cases(tier)}
        c = cache[tier][j['case']]
        h = api.ConcH(j['inputs'])
        h.f32 = api.single(mod, c['name'])
        try:
            try:
                c['fn'](h, **c.get('params', {}))
            except core.PathDone:
                pass
            obs = []
            for n, v in h.obs_list:
                try:
                    obs.append([n, float(v)])
                except Exception:
                    obs.append([n, None])
            r = {'failed': h.failed, 'obs': obs, 'cut': h.cut}
        except Exception as e:
            import traceback
            r = {'error': f'{type(e).__name__}: {e} ' + traceback.format_exc()[-600:], 'obs': [], 'failed': h.failed,
                 'inside': any('/finmlkit/' in f.filename for f in traceback.extract_tb(e.__traceback__))}
        bad = bad or bool(r['failed']) or ('error' in r and any('the result can be read' in f[0] for f in j.get('failed', [])))
        print('RESULT ' + json.dumps(r), flush=True)
    if sys.argv[2] != '-':
        print('REPRODUCED' if bad else 'not reproduced')
    return 1 if bad else 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
