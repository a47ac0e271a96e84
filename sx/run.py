"""Runner:  python -m sx.run <property> <quick|thorough> [case-substring]"""
import os
os.environ['NUMBA_DISABLE_JIT'] = '1'
os.environ.setdefault('OMP_NUM_THREADS', '1')
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
import importlib
import json
import multiprocessing as mp
import subprocess
import time
import traceback

PY = sys.executable


def child(case, conn, tier, budget):
    sys.setrecursionlimit(20000)
    from . import api, core
    fnames = {}
    mon = sys.monitoring
    mon.use_tool_id(3, 'sx')

    def on_start(code, off):
        if code.co_filename.startswith('/repo/'):
            fnames[code.co_filename[len('/repo/'):] + ':' + code.co_qualname] = 1
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, on_start)
    mon.set_events(3, mon.events.PY_START)
    t0 = time.time()
    h = api.SymH(case['name'], time_limit=budget, check_timeout=case.get('check_timeout', 20000),
                 max_paths=case.get('max_paths', 200000))
    res = {'name': case['name']}
    h.thin = case.get('thin')
    h.f32 = api.single(sys.modules.get(case['fn'].__module__), case['name'])
    esc = []
    try:
        def body(c):
            try:
                case['fn'](c, **case.get('params', {}))
            except core.UninitRead:
                c.prove(False, 'outputs are never uninitialised memory')
                raise core.PathDone()
            except core.PathDone:
                raise
            except Exception as e:
                # the path left the encodable fragment, or the harness could not read what the code returned: solve the
                # path condition so far and let the real code decide these inputs; the case itself stays undecided
                res.setdefault('encode_error', ('' if isinstance(e, core.SymEscape) else type(e).__name__ + ': ') + f'{e} @ ' + _where(e))
                esc.append(1)
                if time.time() > c.deadline or len(esc) > 3:
                    raise Stop()
                c.soft(None if isinstance(e, core.SymEscape) else type(e).__name__)
        h.explore(body)
    except Stop:
        pass
    except core.SymEscape as e:
        res['encode_error'] = str(e) + ' @ ' + _where(e)
    except core.UninitRead as e:
        res['encode_error'] = 'oracle read an uninitialised cell: ' + _where(e)
    except BaseException as e:
        res['encode_error'] = f'{type(e).__name__}: {e} @ ' + _where(e)
    res.update(stats=h.stats, violations=h.violations, unknowns=h.unknowns, reached=h.reached,
               complete=h.complete and 'encode_error' not in res, samples=h.samples, functions=sorted(fnames),
               wall=time.time() - t0, pending=len(h.pend))
    conn.send_bytes(json.dumps(res, default=str).encode())
    conn.close()


class Stop(Exception):
    pass


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb]
    return ' < '.join(fr[::-1][:6])


def explore(cases, tier, jobs=8, verbose=False):
    ctx = mp.get_context('fork')
    todo = sorted(enumerate(cases), key=lambda ic: -ic[1].get('weight', 1))
    running, results = [], {}
    default = 60 if tier == 'quick' else 420
    while todo or running:
        while todo and len(running) < jobs:
            i, c = todo.pop(0)
            a, b = ctx.Pipe(False)
            budget = c.get('budget', default)
            p = ctx.Process(target=child, args=(c, b, tier, budget), daemon=True)
            p.start()
            b.close()
            running.append((i, c, p, a, time.time(), budget))
        mp.connection.wait([r[3] for r in running], timeout=1.0)
        nxt = []
        for r in running:
            i, c, p, a, t0, budget = r
            if a.poll(0):
                try:
                    results[i] = json.loads(a.recv_bytes())
                except EOFError:
                    results[i] = {'name': c['name'], 'encode_error': 'worker died'}
                p.join(5)
                if verbose:
                    brief(results[i])
            elif time.time() - t0 > budget + 90:
                p.kill()
                p.join()
                results[i] = {'name': c['name'], 'encode_error': 'time limit (hard)', 'timeout': True}
                if verbose:
                    brief(results[i])
            else:
                nxt.append(r)
        running = nxt
    return [results[i] for i in range(len(cases))]


def brief(r):
    s = r.get('stats', {})
    print(f"  {r['name']:<46} paths={s.get('paths')} q={s.get('queries')} solver={s.get('solver_s', 0):.1f}s "
          f"wall={r.get('wall', 0):.1f}s proved={s.get('proved')}+{s.get('trivial')} unk={s.get('unknown')} "
          f"viol={len(r.get('violations', []))} complete={r.get('complete')} {r.get('encode_error', '')}", flush=True)


def replay(prop, jobs, jit=True, timeout=240, poison=False):
    """jobs: list of {case, inputs} -> list of results from the unmodified implementation"""
    env = dict(os.environ)
    env['NUMBA_DISABLE_JIT'] = '0' if jit else '1'
    env['SX_POISON'] = '1' if poison else '0'
    try:
        p = subprocess.run([PY, '-m', 'sx.replay', prop, '-'], input=json.dumps(jobs), cwd=VERIF, env=env, text=True,
                           capture_output=True, timeout=timeout)
        out = []
        for line in p.stdout.splitlines():
            if line.startswith('RESULT '):
                out.append(json.loads(line[7:]))
        if len(out) < len(jobs):
            out += [{'error': (p.stderr or '')[-400:]}] * (len(jobs) - len(out))
        return out
    except subprocess.TimeoutExpired:
        return [{'error': 'timeout'}] * len(jobs)


def raised(o, v):
    """an exception that left the harness while replaying a path on which the encoding raised the same one"""
    e = o.get('error', '')
    t = v.get('exc')
    if not v.get('soft') or not t or not e.startswith(t + ':') or o.get('failed'):
        return
    if t in ('ImportError', 'ModuleNotFoundError', 'NameError', 'SyntaxError') or \
            (t in ('AttributeError', 'TypeError') and "'NoneType'" not in e.split('Traceback')[0] and not o.get('inside')):
        return          # the harness may be out of step with the code; says nothing about behaviour
    o['failed'] = [[f'the result can be read ({t})', e[:300]]]


def close(a, b):
    if a is None or b is None:
        return True
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    return abs(a - b) <= 1e-5 * (1 + abs(a) + abs(b))


def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                d = {}
                for kv in line[len('finding:'):].split(' | '):
                    k, _, v = kv.strip().partition('=')
                    d[k.strip()] = v.strip()
                out.append(d)
    return out


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    flt = sys.argv[3] if len(sys.argv) > 3 else None
    t0 = time.time()
    from . import patch
    patch.install()
    mod = importlib.import_module('props.' + prop.lower())
    cases = mod.cases(tier)
    names = [c['name'] for c in cases]
    assert len(set(names)) == len(names), 'duplicate case names'
    if flt:
        cases = [c for c in cases if flt in c['name']]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    results = explore(cases, tier, verbose=True)
    t_explore = time.time() - t0

    # ---- validation of the encoding against the implementation, and replay of counterexamples
    jobs, kinds = [], []
    for r in results:
        for s in r.get('samples', []):
            jobs.append({'case': r['name'], 'inputs': s['inputs'], 'tier': tier})
            kinds.append(('sample', r, s))
        for v in r.get('violations', []):
            for cd in v['cands']:
                jobs.append({'case': r['name'], 'inputs': cd, 'tier': tier})
                kinds.append(('viol', r, v))
    outs = replay(prop, jobs) if jobs else []
    compared = mismatch = errors = 0
    mism = []
    hits = {}
    retry = []
    for job, (kind, r, s), o in zip(jobs, kinds, outs):
        if kind == 'sample':
            if 'error' in o:
                errors += 1
                continue
            ob = o['obs']
            ok = len(ob) == len(s['obs']) and all(x[0] == y[0] and close(x[1], y[1]) for x, y in zip(s['obs'], ob))
            if o.get('failed') and (not ok or o['failed'][0][0].endswith(': in double precision')):
                # the encoding satisfies the obligation at this point, the real code does not
                if os.environ.get('SX_DEBUG'):
                    print('  SAMPLE FAILS', r['name'], o['failed'][:3], job['inputs'])
                v = {'label': o['failed'][0][0], 'cands': [job['inputs']], 'sample': True}
                r.setdefault('violations', []).append(v)
                hits[id(v)] = (r, v, job, o)
            compared += 1
            if not ok:
                mismatch += 1
                mism.append({'case': r['name'], 'inputs': job['inputs'], 'symbolic': s['obs'][:40], 'real': ob[:40]})
        else:
            raised(o, s)
            labs = [f[0] for f in o.get('failed', [])]
            if labs:
                # the same obligation, or any obligation of this property, fails on the real code
                hits.setdefault(id(s), (r, s, job, o))
            else:
                retry.append((job, r, s))
    retry = [(j, r, s) for j, r, s in retry if id(s) not in hits]
    if retry:
        for (j, r, s), o in zip(retry, replay(prop, [x[0] for x in retry], jit=False, poison=True)):
            raised(o, s)
            if o.get('failed'):
                hits.setdefault(id(s), (r, s, j, dict(o, nojit=True)))
    known = load_known()
    viols, knowns, spurious = [], [], []
    for r in results:
        for v in r.get('violations', []):
            if id(v) in hits:
                _, _, job, o = hits[id(v)]
                labs = [f[0] for f in o['failed']]
                k = [d for d in known if d.get('property') == prop and d.get('case') == r['name'] and d.get('label') in labs]
                unl = [l for l in labs if not any(d.get('property') == prop and d.get('case') == r['name'] and d.get('label') == l for d in known)]
                if unl:
                    viols.append((r, v, job, o, unl))
                else:
                    for d in k:
                        if d not in knowns:
                            knowns.append(d)
            else:
                if not v.get('soft'):
                    spurious.append((r, v))
                    r.setdefault('encode_error', f"the solver's counterexample to '{v['label']}' did not reproduce on the implementation")
                r['complete'] = False
    for d in knowns:
        print(f"KNOWN-FINDING: property={prop} {d.get('what', '')} [case {d.get('case')}: {d.get('label')}]")
    path0 = None
    for n, (r, v, job, o, labs) in enumerate(viols):
        path = os.path.join(VERIF, 'evidence', f'{prop}.cex{n}.json')
        json.dump({'property': prop, 'case': job['case'], 'tier': tier, 'inputs': job['inputs'], 'failed': o['failed'],
                   'nojit': o.get('nojit', False)}, open(path, 'w'), indent=1)
        if n < 5:
            print(f"  counterexample {r['name']}: {o['failed'][:3]}")
        path0 = path0 or path

    # ---- evidence
    tot = lambda k: sum(r.get('stats', {}).get(k, 0) for r in results)
    undecided = [r['name'] for r in results if not r.get('complete') or r.get('unknowns')]
    dead = [r['name'] for r in results if r.get('encode_error') or not r.get('reached')]
    labels = {}
    for r in results:
        for k, n in r.get('reached', {}).items():
            labels[k] = labels.get(k, 0) + n
    funcs = sorted({f for r in results for f in r.get('functions', [])})
    samples = []
    for r in results:
        for s in r.get('samples', [])[:1]:
            samples.append({'case': r['name'], 'inputs': s['inputs'], 'observed': s['obs'][:6]})
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
        'coverage': {
            'states': tot('paths'), 'transitions': tot('branches'),
            'traces_validated_against_impl': compared - mismatch,
            'samples': samples[:12],
            'obligations_discharged_by_solver': tot('proved'), 'obligations_closed_by_simplification': tot('trivial'),
            'obligations_unknown': tot('unknown'), 'queries': tot('queries'), 'solver_s': round(tot('solver_s'), 2),
            'path_forks': tot('forks'), 'infeasible_or_cut_paths': tot('cut'),
            'functions_encoded': funcs, 'obligations': labels,
            'cases': [{'case': r['name'], 'paths': r.get('stats', {}).get('paths', 0), 'complete': bool(r.get('complete')),
                       'bound': c.get('bound', c.get('params', {})), 'proved': r.get('stats', {}).get('proved', 0),
                       'undecided': len(r.get('unknowns', [])), 'note': r.get('encode_error', '')}
                      for r, c in zip(results, cases)],
            'bounds': mod.BOUNDS, 'undecided_cases': undecided,
            'path_models_compared': compared, 'path_models_differing': mismatch,
            'known_findings_seen': [d.get('what') for d in knowns],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON,
        'violations': len(viols), 'wall_s': round(wall, 2),
    }
    if not flt:
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print(f"{prop} {tier}: cases={len(cases)} paths={tot('paths')} branches={tot('branches')} proved={tot('proved')}+{tot('trivial')} "
          f"unknown={tot('unknown')} validated={compared - mismatch}/{compared} errors={errors} explore={t_explore:.1f}s wall={wall:.1f}s")
    for m in mism[:3]:
        if os.environ.get('SX_DEBUG'):
            print('  MISMATCH', json.dumps(m, default=str)[:1500])
        else:
            print('  path model differs from the implementation:', m['case'])
    if viols:
        print(f"VIOLATION property={prop} replay={path0}")
        return 1
    for r, v in spurious[:4]:
        print(f"  counterexample did not reproduce on the implementation: {r['name']}: {v['label']} {json.dumps(v['cands'][0], default=str)[:700]}")
    for r in results:
        if not r.get('complete') or r.get('unknowns'):
            print(f"  INCONCLUSIVE {r['name']}: {r.get('encode_error') or ('undecided: ' + str(sorted(set(r.get('unknowns', [])))) if r.get('unknowns') else 'path limit/time limit')}")
    if len(dead) == len(results):
        print(f"ERROR: no case could be decided: {dead[:6]}")
        return 2
    if compared and mismatch == compared:
        print("ERROR: the encoding disagrees with the implementation on every sampled path")
        return 2
    if os.environ.get('SX_STRICT') and (dead or spurious):
        print("ERROR: undecided cases")
        return 3
    return 0


COMMON = [
    'float64 arithmetic of the implementation is read as exact real arithmetic unless a case says otherwise; NaN and '
    'infinities are explicit values, rounding error and overflow of floats are outside the encoding',
    'numba-compiled execution is assumed to agree with Python execution of the same source (sampled path models and every '
    'counterexample are run on the compiled code)',
    'numpy functions are replaced by exact models (sx/arr.py); memory from np.empty is an explicit uninitialised value',
]

if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
