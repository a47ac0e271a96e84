"""C23: class balance and final sample weights."""
import numpy as np
import pandas as pd
from finmlkit.label import weights
from finmlkit.label.kit import SampleWeights
from .common import total

BOUNDS = ('up to 4 events (quick) / 5 (thorough), labels in {-1,0,1} in every combination, any non-negative base weights incl. zero'
          '; long inputs (40 to several hundred samples, concrete except at 1-3 symbolic positions)')


def balance(c, n):
    l = c.iarr('label', n, -1, 1, dtype=np.int8)
    w = c.farr('w', n, lo=0, hi=100)
    u, cw, sw, fw = map(c.xs, c.call(weights.class_balance_weights, l.a, w.a))
    lab = [x.__index__() if c.sym else int(x) for x in l.v]
    cl = sorted(set(lab))
    c.eqs(u, cl, 'classes are the distinct labels in order')
    tot = total(w.v)
    for k, a in enumerate(cl):
        s = total([w.v[i] for i in range(n) if lab[i] == a])
        c.eq(sw[k], s, 'class mass is the sum of the base weights of the class')
        f = total([fw[i] for i in range(n) if lab[i] == a])
        if bool(s > 0):
            c.eq(f * len(cl), tot, 'every class with mass ends with an equal share of the total')
            c.eq(cw[k] * s * len(cl), tot, 'class weight')
        else:
            c.eq(f, 0, 'a class without mass keeps no weight')
    for i in range(n):
        c.eq(fw[i], w.v[i] * cw[cl.index(lab[i])], 'sample weight is the base weight times its class weight')


def final(c, n, ra, vt, lb, decay):
    u = c.farr('u', n, lo=0.01, hi=1)
    r = c.farr('ra', n, lo=0, hi=10) if ra else None
    v = c.farr('vt', n, lo=0, hi=1) if vt else None
    lab = None
    idx = pd.date_range('2024-01-01', periods=n, freq='h')
    if lb:
        l = c.iarr('label', n, -1, 1, dtype=np.int8)
        for x in l.v:
            c.assume(x != 0)
        lab = [x.__index__() if c.sym else int(x) for x in l.v]
    S = lambda a: pd.Series(a, index=idx)
    out = c.call(SampleWeights.compute_final_weights, S(u.a), decay, S(r.a) if ra else None, S(v.a) if vt else None,
                 S(np.array(lab, dtype=np.int8)) if lb else None, raises=(ValueError,))
    td = c.xs(c.call(weights.time_decay, u.a, decay))
    rs = total(r.v) if ra else None
    raw = [t * ((r.v[i] * n / rs) if ra else u.v[i]) * (v.v[i] if vt else 1) for i, t in enumerate(td)] if not ra or bool(rs > 0) else None
    if isinstance(out, Exception):
        c.prove(raw is None or total(raw) <= 1e-9, 'weights are refused only when nothing is left to normalise')
        return
    if raw is None or not bool(total(raw) > 1e-6):
        return
    c.prove(out.index.equals(idx), 'weights are indexed like the events')
    got = c.xs(out['weights'])
    mean = total(raw) / n
    base = [x / mean for x in raw]
    if not lb:
        c.eqs(got, base, 'combined weight normalised to mean one')
        c.eq(total(got), n, 'weights average one')
    else:
        cl = sorted(set(lab))
        for a in cl:
            s = total([base[i] for i in range(n) if lab[i] == a])
            for i in range(n):
                if lab[i] == a:
                    c.eq(got[i] * s * len(cl) if bool(s > 0) else got[i], base[i] * n if bool(s > 0) else 0, 'class balanced final weight', obs=False)
    c.eqs(out['time_decay_weights'], td, 'time decay column')
    c.prove(('return_attribution' in out) == bool(ra) and ('vertical_touch_weights' in out) == bool(vt), 'a column for every component given and none else')
    if ra:
        c.eqs([x * rs for x in c.xs(out['return_attribution'])], [x * n for x in r.v], 'attribution column sums to the number of events')
    if vt:
        c.eqs(out['vertical_touch_weights'], v.v, 'vertical touch column')


def refuse(c, n):
    """components are combined event by event: another index, or something that is not a series, is refused"""
    u = c.farr('u', n, lo=0.01, hi=1)
    o = c.farr('o', n, lo=0.01, hi=1)
    d = c.f('decay', -3, 3)
    idx = pd.date_range('2024-01-01', periods=n, freq='h')
    k = c.choice('what', 9)
    A, O = pd.Series(u.a, index=idx), pd.Series(o.a, index=idx[::-1] if n > 1 and k % 2 else idx + pd.Timedelta(1, 's'))
    lab = pd.Series(np.array([1] * n, dtype=np.int8), index=O.index)
    a = [(A, 0.5, O, None, None), (A, 0.5, None, O, None), (A, 0.5, None, None, lab), (u.a, 0.5, None, None, None), (A, 0.5, o.a, None, None),
         (A, 0.5, None, o.a, None), (A, 0.5, None, None, lab.values), (A, '0.5', None, None, None), (A, d, None, None, None)][k]
    if k == 8 and not bool(d < -1) and not bool(d > 1):
        return
    r = c.call(SampleWeights.compute_final_weights, *a, raises=(ValueError,))
    c.prove(isinstance(r, ValueError), ('attribution of other events', 'touch weights of other events', 'labels of other events', 'uniqueness without index',
            'attribution without index', 'touch weights without index', 'labels without index', 'decay that is no number', 'decay outside -1..1')[k] + ' is refused')


def cases(tier):
    top = 3 if tier == 'quick' else 4
    out = [dict(name=f'balance-n{n}', fn=balance, params=dict(n=n), weight=n ** 3) for n in range(1, top + 1)]
    for n in (2, 3) if tier == 'quick' else (2, 3, 4):
        for ra, vt, lb, d in ((0, 0, 0, 0.5), (1, 0, 0, 1.0), (0, 1, 0, 0.0), (1, 1, 0, 0.5), (0, 0, 1, 1.0), (1, 1, 1, -0.5)):
            if n > 2 and lb and ra and tier == 'quick':
                continue
            out.append(dict(name=f'final-n{n}-{ra}{vt}{lb}-decay{d}', fn=final, params=dict(n=n, ra=ra, vt=vt, lb=lb, decay=d), weight=n * n * 2))
    out.append(dict(name='refuse', fn=refuse, params=dict(n=2), weight=3))
    out.append(dict(name='refuse-1', fn=refuse, params=dict(n=1), weight=3))

    def long(name, fn, at, fill={}, fix={}, rng={}, **p):      # long inputs: concrete except at a few positions
        out.append(dict(name=f'long-{name}', fn=fn, params=p, weight=40, thin=dict(at=at, fill=fill, fix=fix, rng=rng)))
    long('balance', balance, {'w': (100,)}, n=200)
    long('final', final, {'u': (60,)}, fill={'u': lambda i: (i % 7 + 1) / 8}, n=80, ra=0, vt=1, lb=0, decay=0.5)
    return out
