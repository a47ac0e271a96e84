"""C39: order-flow and price-volume statistics (VPIN, flow acceleration, correlation)."""
import itertools
import math
import numpy as np
from finmlkit.feature.core import volume, correlation
from . import wiring
from .common import total

BOUNDS = ('VPIN: up to 4 (5) bars, windows 1..3, every pattern of missing buy/sell volume over 3 (4) bars; flow acceleration up to 5 (6) bars, '
          'all window/recent splits up to 4; correlation: up to 6 bars, windows 2..3, patterns of missing prices and volumes; long inputs (40 to several hundred samples, concrete except at 1-3 symbolic positions)')
SINGLE = ('vpin',)        # VPIN is single precision by design
ASSUMPTIONS = ['log strictly increasing with log 1 = 0; square roots exact']
nan = math.nan


def vpin(c, n, w, pb, ps):
    b, s = c.farr('b', n, lo=0, hi=100, nan=pb), c.farr('s', n, lo=0, hi=100, nan=ps)
    r = c.xs(c.call(volume.vpin, b.a, s.a, w))
    c.prove(len(r) == n, 'one value per bar')
    for i in range(n):
        J = range(i - w + 1, i + 1)
        if i < w - 1 or any(pb[j] or ps[j] for j in J):
            c.eq(r[i], nan, 'toxicity undefined before the window is full or with missing volume')
            continue
        tot = total([b.v[j] + s.v[j] for j in J])
        if not bool(tot > c.x(1e-9)):
            c.eq(r[i], nan, 'toxicity undefined without volume', obs=False)
        else:
            c.eq(r[i] * tot, total([abs(b.v[j] - s.v[j]) for j in J]), 'absolute imbalance over volume of the window', 1e-5)


def flow(c, n, w, k):
    v = c.farr('v', n, lo=0, hi=100)
    r = c.xs(c.call(volume.comp_flow_acceleration, v.a, w, k))
    c.prove(len(r) == n, 'one value per bar')
    e = c.x(1e-12)
    for i in range(n):
        if i < w - 1 or k >= w:
            c.eq(r[i], nan, 'acceleration undefined before the window is full')
            continue
        a, b = total(v.v[i - k + 1:i + 1]), total(v.v[i - w + 1:i - k + 1])
        c.eq(r[i], c.log((a + e) / (b + e)), 'log ratio of recent to earlier volume', obs=False)
        if not bool(c.Or(a == 0, b == 0)) or True:
            c.prove(c.Implies(a > b, r[i] > 0) if c.sym else True, 'acceleration is positive when recent volume is larger')


def corr(c, n, w, pp, pv, prices=None):
    p = c.farr('p', n, lo=1, hi=100, nan=pp) if prices is None else c.fconst(prices)
    v = c.farr('v', n, lo=0, hi=100, nan=pv)
    r = c.xs(c.call(correlation.rolling_price_volume_correlation, p.a, v.a, w))
    c.prove(len(r) == n, 'one value per bar')
    ret = [nan] + [nan if pp[i] or pp[i - 1] else p.v[i] / p.v[i - 1] - 1 for i in range(1, n)]
    for i in range(n):
        J = [j for j in range(max(0, i - w + 1), i + 1) if not c.isnan(ret[j]) and not pv[j]]
        if i < w or i not in J or len(J) < 2:
            c.eq(r[i], nan, 'correlation undefined before the window is full or with missing values')
            continue
        m = c.x(len(J))
        X, Y = [ret[j] for j in J], [v.v[j] for j in J]
        mx, my = total(X) / m, total(Y) / m
        sxy = total([(x - mx) * (y - my) for x, y in zip(X, Y)])
        sxx = total([(x - mx) * (x - mx) for x in X])
        syy = total([(y - my) * (y - my) for y in Y])
        K = [k for k in range(i - w + 1, i)]
        steady = False
        if 4 <= i < 10 and not any(pp[k] or pp[k + 1] or pv[k] or pv[k + 1] for k in K):
            steady = bool(c.And(*[p.v[k + 1] > p.v[k] for k in K])) and (bool(c.And(*[v.v[k + 1] > v.v[k] for k in K]))
                                                                          or bool(c.And(*[v.v[k + 1] < v.v[k] for k in K])))
        lab = 'correlation of returns and volume in a window of steadily rising prices and monotone volume at bars 4 to 9' if steady \
            else 'correlation of returns and volume in the window'
        if not bool(c.And(sxx > 0, syy > 0)):
            if not steady:
                c.eq(r[i], nan, 'correlation undefined for constant returns or volume', obs=False)
            continue
        if c.isnan(r[i]):
            c.prove(False, lab)
            continue
        c.eq(r[i] * r[i] * sxx * syy, sxy * sxy, lab, obs=False)
        c.prove(c.And(c.Implies(sxy > 0, r[i] > 0), c.Implies(sxy < 0, r[i] < 0)), lab + ' (sign)')


def cases(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn, wt=1, **p):
        out.append(dict(name=name, fn=fn, params=p, weight=wt))
    n = 4 if q else 5
    F = (False,) * n
    for w in (1, 2, 3):
        add(f'vpin-w{w}', vpin, 4, n=n, w=w, pb=F, ps=F)
    for k in range(n):
        for j in (None, k, (k + 2) % n):
            pb = tuple(x == k for x in range(n))
            ps = tuple(x == j for x in range(n))
            add(f'vpin-hole-{k}-{j}', vpin, n=n, w=2, pb=pb, ps=ps)
    for w in (2, 3, 4):
        for k in range(1, w + 1):
            add(f'flow-w{w}-r{k}', flow, 2, n=w + 1 if q else w + 2, w=w, k=k)
    add('flow-short', flow, n=2, w=3, k=1)
    f4 = (False,) * 4
    add('correlation-w2', corr, 5, n=3, w=2, pp=f4, pv=f4)
    add('correlation-w3', corr, 9, n=4, w=3, pp=f4, pv=f4, prices=[2.0, 4.0, 3.0, 9.0])
    if not q:
        add('correlation-w3-any-price', corr, 9, n=4, w=3, pp=f4, pv=f4)
    for hp, hv in ((0, 9), (1, 9), (2, 9), (9, 1), (9, 2), (9, 3), (1, 3)):
        add(f'correlation-hole-{hp}-{hv}', corr, 5, n=4, w=3, pp=tuple(x == hp for x in range(4)), pv=tuple(x == hv for x in range(4)))
    f6 = tuple(x in (0, 1) for x in range(6))
    add('correlation-late', corr, 9, n=5, w=2, pp=tuple(x in (0, 1) for x in range(5)), pv=(False,) * 5)
    if not q:
        add('correlation-late-3', corr, 9, n=6, w=3, pp=f6, pv=(False,) * 6)

    def long(name, fn, at, fill={}, fix={}, rng={}, **p):      # long inputs: concrete except at a few positions
        out.append(dict(name=f'long-{name}', fn=fn, params=p, weight=40, thin=dict(at=at, fill=fill, fix=fix, rng=rng)))
    n, w = (150, 130) if q else (300, 260)
    F = (False,) * n
    long('vpin', vpin, {'b': (n // 2,)}, n=n, w=w, pb=F, ps=F)
    long('vpin-holes', vpin, {'s': (n - 7,)}, n=n, w=20, pb=tuple(i % 50 == 9 for i in range(n)), ps=F)
    long('flow', flow, (n - 7,), n=n, w=w, k=100)
    long('correlation', corr, {'v': (n - 7,)}, n=60, w=20, pp=tuple(i % 50 == 9 for i in range(n)), pv=F)
    return out + wiring.cases('C39', tier)
