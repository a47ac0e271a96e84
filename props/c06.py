"""C06: trade size distribution features."""
import numpy as np
from finmlkit.bar import base
from .common import closes, total

BOUNDS = ('up to 3 trades in up to 2 bars (quick) / 4 trades, 3 bars (thorough), every close placement incl. empty bars, theta incl. zero'
          '; long inputs (40 to several hundred samples, concrete except at 1-3 symbolic positions)')
ASSUMPTIONS = ['log1p is any strictly increasing function with value 0 at 0']


def p95(c, vals):
    s = c.sorted(vals)
    from fractions import Fraction
    pos = Fraction(95, 100) * (len(s) - 1)
    lo = int(pos)
    hi = min(lo + 1, len(s) - 1)
    return s[lo] + (s[hi] - s[lo]) * c.x(pos - lo)


def run(c, n, nb, zero):
    v = c.farr('v', n, lo=0, hi=1000)
    th = c.farr('theta', nb, lo=0, hi=1000)
    for t in th.v:
        if not zero:
            c.assume(t > 0)
    mult = c.f('mult', lo=0.5, hi=100)
    ci, idx = closes(c, nb, n, first_nonempty=False)
    r = c.call(base.comp_bar_trade_size_features, v.a, th.a, ci.a, mult)
    mean, s95, pct, gini = map(c.xs, r)
    mult = c.x(mult)
    nan = float('nan')
    for i in range(nb):
        V = v.v[idx[i] + 1:idx[i + 1] + 1]
        if not V or th.v[i] == 0:
            for g in (mean, s95, pct, gini):
                c.eq(g[i], nan, 'undefined without trades or reference size')
            continue
        thr = th.v[i] * mult
        m = total(V) / c.x(float(len(V)))
        c.eq(mean[i], c.log(1 + m / thr), 'mean size relative to the block threshold', obs=False)
        c.eq(s95[i], c.log(1 + p95(c, V) / thr), '95th percentile relative to the block threshold', obs=False)
        tv = total(V)
        if tv == 0:
            c.eq(pct[i], nan, 'block share undefined without volume')
            c.eq(gini[i], nan, 'concentration undefined without volume')
            continue
        blk = total([c.ite(x > thr, x, c.x(0.0)) for x in V], c.x(0.0))
        c.eq(pct[i] * tv if c.sym else pct[i] * tv, blk, 'share of volume in trades above the block threshold')
        c.prove(c.And(pct[i] >= 0, pct[i] <= 1), 'block share lies in [0, 1]')
        g = c.x(1.0) - total([(x / tv) * (x / tv) for x in V])
        c.eq(gini[i], g, 'size concentration is one minus the sum of squared shares')


def cases(tier):
    cs = [(1, 1, True), (2, 1, False), (2, 2, True), (3, 1, False)] if tier == 'quick' else \
        [(1, 1, True), (2, 2, True), (3, 2, False), (4, 1, False), (3, 3, False)]
    out = [dict(name=f'n{n}-bars{b}', fn=run, params=dict(n=n, nb=b, zero=z), weight=n ** 3 * b) for n, b, z in cs]

    def long(name, fn, at, fill={}, fix={}, rng={}, **p):      # long inputs: concrete except at a few positions
        out.append(dict(name=f'long-{name}', fn=fn, params=p, weight=40, thin=dict(at=at, fill=fill, fix=fix, rng=rng)))
    N = 300
    long('one-bar', run, {}, fill={'ci': [-1, N - 1]}, fix={'mult': 2}, n=N, nb=1, zero=False)
    long('bars', run, {'theta': (0,)}, fill={'theta': [1, 2, 1, 3], 'ci': [-1, 270, 271, 271, N - 1]}, fix={'mult': 2}, n=N, nb=4, zero=False)
    return out
