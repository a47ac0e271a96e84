"""C08: footprint statistics (imbalances, runs, COT, concentration)."""
import numpy as np
from finmlkit.bar import base
from .common import total, fmax
from . import c07

BOUNDS = ('1..4 price levels (quick) / 1..5 (thorough), any non-negative volumes, any positive imbalance multiplier'
          '; long inputs (40 to several hundred samples, concrete except at 1-3 symbolic positions)')


def run(c, n, fixed, scan=False):
    lv0 = c.i('lv0', 1, 10 ** 5)
    if c.sym:
        from sx.arr import SArr
        pl = SArr([lv0 + k for k in range(n)], np.int32)
    else:
        pl = np.arange(lv0, lv0 + n, dtype=np.int32)
    bv = c.farr('bv', n, lo=0, hi=1000, dtype=np.float32)
    sv = c.farr('sv', n, lo=0, hi=1000, dtype=np.float32)
    m = c.cf(fixed) if fixed else c.f('mult', lo=0.25, hi=16)
    r = c.call(base.comp_footprint_features, pl, bv.a, sv.a, m)
    bi, si, run_, cot, skew, gini = r
    bi, si = c.xs(bi), c.xs(si)
    m = c.x(m)
    B, S = bv.v, sv.v
    c.eq(bi[0], False, 'the lowest level has no buy imbalance')
    c.eq(si[-1], False, 'the highest level has no sell imbalance')
    for k in range(n):
        if k:
            c.eq(bi[k], B[k] > S[k - 1] * m, 'buy imbalance compares with the sells one level below')
        if k < n - 1:
            c.eq(si[k], S[k] > B[k + 1] * m, 'sell imbalance compares with the buys one level above')
    # longest run of equally signed imbalances (ties: the first); a level with both counts as buy
    sg = [c.ite(bi[k], c.x(1), c.ite(si[k], c.x(-1), c.x(0))) for k in range(n)]
    best = c.x(0)
    if scan:                                   # many levels: decide the signs one by one
        d = [1 if bool(bi[k]) else -1 if bool(si[k]) else 0 for k in range(n)]
        run, last = 0, 0
        for x in d:
            run, last = (run + 1 if x and x == last else 1 if x else 0), x
            if run > abs(best):
                best = c.x(run * x)
    for L in range(1, 0 if scan else n + 1):
        for k in range(n - L, -1, -1):          # earlier runs of the same length win
            up = c.And(*[sg[j] == 1 for j in range(k, k + L)])
            dn = c.And(*[sg[j] == -1 for j in range(k, k + L)])
            best = c.ite(up, c.x(L), c.ite(dn, c.x(-L), best))
    c.eq(run_, best, 'longest signed imbalance run', 0)
    T = [x + y for x, y in zip(B, S)]
    mx = fmax(c, T)
    cotx = c.x(cot)
    for k in range(n):
        c.prove(c.Implies(c.And(T[k] == mx, *[T[j] < mx for j in range(k)]), cotx == c.x(lv0) + k),
                'centre of trades is the (first) level with most volume')
    tot = total(T)
    if tot > 0:
        g = c.x(1.0) - total([(t / tot) * (t / tot) for t in T])
        c.eq(gini, g, 'volume concentration is one minus the sum of squared shares')
        c.prove(c.And(c.x(gini) >= 0, c.x(gini) < 1) if not c.sym else c.x(gini) < 1, 'concentration lies in [0, 1)')
    else:
        c.eq(gini, 0, 'no volume, no concentration')
        c.eq(skew, 0, 'no volume, no skew')


def cases(tier):
    top = 3 if tier == 'quick' else 4
    out = []
    for n in range(1, top + 1):
        out.append(dict(name=f'levels{n}-factor3', fn=run, params=dict(n=n, fixed=3.0, scan=True), weight=4 ** n))
        if n <= 3:
            out.append(dict(name=f'levels{n}-anyfactor', fn=run, params=dict(n=n, fixed=None), weight=4 ** n))

    def long(name, fn, at, fill={}, fix={}, rng={}, **p):      # long inputs: concrete except at a few positions
        out.append(dict(name=f'long-{name}', fn=fn, params=p, weight=40, thin=dict(at=at, fill=fill, fix=fix, rng=rng)))
    for n in (140,) if tier == 'quick' else (140, 300):
        one = {'bv': lambda i: 100 if i < n - 5 else 1, 'sv': lambda i: 1 + i % 3 * 0.25}
        long(f'run-{n}', run, {'bv': (n // 2,)}, fill=one, n=n, fixed=3.0, scan=True)
        two = {'sv': lambda i: 100 if i > 5 else 1, 'bv': lambda i: 1 + i % 3 * 0.25}
        long(f'down-{n}', run, {'sv': (n - 20,)}, fill=two, n=n, fixed=3.0, scan=True)
        long(f'any-{n}', run, {'sv': (n - 20,)}, n=n, fixed=3.0, scan=True)
    for sd in (1, -1):                       # the totals of a bar with hundreds of imbalanced levels
        out.append(dict(name=f'long-totals{sd}', fn=c07.long, params=dict(sizes=[300], at=(150,), levels=300, sides=(sd,)), weight=40))
    return out
