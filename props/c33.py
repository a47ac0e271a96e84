"""C33: structural-break CUSUM statistics."""
import math
import numpy as np
from finmlkit.feature.core.structural_break import cusum
from .common import total

BOUNDS = ('series of up to 5 (quick) / 6 (thorough) positive prices, warm-up 2..3, windows 4..5 with every relation of series length to window; '
          'rolling, expanding and last-value statistics decided against one definition; long inputs (40 to several hundred samples, concrete except at 1-3 symbolic positions)')
ASSUMPTIONS = ['log strictly increasing with log 1 = 0; square roots exact; log and square root of small integers as float64 constants']
nan = math.nan


def stat(c, L, t0, t):
    """[(statistic, distance of the reference point)] upward, downward; None for a constant series"""
    m = t - t0
    d = [L[k + 1] - L[k] for k in range(t0, t)]
    sig = c.sqrt(total([x * x for x in d]) / c.x(float(m - 1)))
    c.assume(c.Or(sig == 0, sig > c.x(1e-6)))
    if not bool(sig > 0):
        return None
    if c.sym:
        c.note_sign(sig, 1)
    best = []
    for sgn in (1, -1):
        v, k = c.x(-1), None
        for j in range(1, m - 1):
            s = c.max(c.x(0), (L[t] - L[t0 + j]) * sgn) / (sig * c.x(math.sqrt(m - j)))
            if bool(s > v):
                v, k = s, m - j
        best.append((v, k))
    return best


def check(c, r, i, st, where):
    up, dn, cu, cd = (x[i] for x in r)
    if st is None:
        c.prove(c.isnan(up) or c.isnan(dn) or c.And(up <= 0, dn <= 0), f'no statistic for a constant series ({where})')
        return
    for nm, got, crit, (v, k) in (('upward', up, cu, st[0]), ('downward', dn, cd, st[1])):
        if k is None:
            c.prove(got <= 0, f'no {nm} statistic without a reference point ({where})')
            continue
        c.eq(got, v, f'{nm} statistic is the largest standardised move from an earlier point ({where})', obs=False)
        c.eq(crit, c.x(math.sqrt(4.6 + math.log(k))), f'critical value of the {nm} statistic belongs to its reference point ({where})', 1e-9, obs=False)


def developing(c, n, w, only=None):
    p = c.parr('p', n)
    c.lazy_defs = True
    r = [c.xs(a) for a in c.call(cusum.cusum_test_developing, p.a, w)]
    L = [c.log(v) for v in p.v]
    c.prove(len(r) == 4 and all(len(a) == n for a in r), 'one statistic per price')
    for i in range(n):
        if i < w:
            c.prove(all(c.isnan(a[i]) for a in r), 'undefined during warm-up')
        elif only is None or i in only:
            check(c, r, i, stat(c, L, 0, i), 'expanding')


def last(c, n):
    p = c.parr('p', n)
    c.lazy_defs = True
    r = c.call(cusum.cusum_test_last, p.a)
    L = [c.log(v) for v in p.v]
    check(c, [[c.x(x)] for x in r], 0, stat(c, L, 0, n - 1), 'last value')


def rolling(c, n, win, w, only=None):
    p = c.parr('p', n)
    c.lazy_defs = True
    r = [c.xs(a) for a in c.call(cusum.cusum_test_rolling, p.a, win, w)]
    c.prove(len(r) == 4 and all(len(a) == n for a in r), 'one statistic per price')
    L = [c.log(v) for v in p.v]
    W = max(win, w + 2)
    for i in range(n):
        if i < w:
            c.prove(all(c.isnan(a[i]) for a in r), 'undefined during warm-up')
        elif only is None or i in only:
            check(c, r, i, stat(c, L, max(0, i - W), i), 'rolling')


def bad(c):
    p = c.farr('p', 4, lo=-1, hi=1)
    c.assume(c.Or(*[v <= 0 for v in p.v]))
    r = c.call(cusum.cusum_test_rolling, p.a, 4, 2, raises=(ValueError,))
    c.prove(isinstance(r, ValueError), 'non-positive prices are rejected')


def cases(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn, wt=1, **p):
        out.append(dict(name=name, fn=fn, params=p, weight=wt))
    add('expanding-4-w2', developing, 81, n=4, w=2)
    add('expanding-5-w3', developing, 81, n=5, w=3, only=(4,))
    add('expanding-5-w4', developing, 81, n=5, w=4)
    if not q:
        add('expanding-5-w2', developing, 243, n=5, w=2)
    add('expanding-4-w3', developing, 9, n=4, w=3)
    add('expanding-short', developing, n=2, w=2)
    for n in ((3, 4, 5) if q else (3, 4, 5, 6)):
        add(f'last-{n}', last, 2 ** n, n=n)
    add('rolling-equal', rolling, 50, n=4, win=4, w=2)
    add('rolling-slides', rolling, 90, n=6 if not q else 5, win=4, w=2)
    add('rolling-slides-3', rolling, 90, n=6, win=4, w=3) if not q else None
    add('rolling-minimum-window', rolling, 50, n=5, win=1, w=2)
    add('rolling-short', rolling, n=3, win=4, w=2)
    add('bad-prices', bad)
    def long(name, fn, at, fill={}, fix={}, rng={}, **p):      # long inputs: concrete except at a few positions
        out.append(dict(name=f'long-{name}', fn=fn, params=p, weight=40, thin=dict(at=at, fill=fill, fix=fix, rng=rng)))
    n = 34 if q else 37
    long('rolling', rolling, {'p': (-1,)}, rng={'p': (2, 2.25)}, n=n, win=32, w=30, only=(30, n - 1))        # the warm-up is not abstracted
    long('expanding', developing, {'p': (-1,)}, rng={'p': (2, 2.25)}, n=n - 2, w=30, only=(30, n - 3))
    return out
