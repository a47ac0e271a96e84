"""C25: windowed statistics equal their window-by-window definition."""
import itertools
import math
import numpy as np
from finmlkit.feature.core import utils, ma, volatility
from . import wiring
from .common import total, median, fmax

BOUNDS = ('series of up to 5 (quick) / 7 (thorough) values, windows 1..4 (5), every pattern of missing values for the NaN-aware '
          'statistics up to length 4 (5); variance ratio and flow acceleration up to 8 (9) values; long inputs (40 to several hundred samples, concrete except at 1-3 symbolic positions)')
ASSUMPTIONS = ['square roots are exact; logarithms strictly increasing with log 1 = 0']
nan = math.nan


def mean(c, w):
    return total(w) / c.x(float(len(w)))


def var(c, w, ddof):
    m = mean(c, w)
    return total([(x - m) * (x - m) for x in w]) / c.x(float(len(w) - ddof))


def sma(c, n, w):
    x = c.farr('x', n)
    r = c.xs(c.call(ma.sma, x.a, w))
    c.prove(len(r) == n, 'one value per sample')
    for i in range(n):
        c.eq(r[i], nan if i < w - 1 else mean(c, x.v[i - w + 1:i + 1]), 'moving average of the window, undefined before it is full')


def zscore(c, n, w, ddof):
    x = c.farr('x', n, lo=-100, hi=100)
    r = c.xs(c.call(utils.comp_zscore, x.a, w, ddof))
    for i in range(n):
        if i < w - 1:
            c.eq(r[i], nan, 'z-score undefined before the window is full')
            continue
        W = x.v[i - w + 1:i + 1]
        v = var(c, W, ddof)
        if bool(v == 0):
            c.eq(r[i], nan, 'z-score undefined in a constant window')
        else:
            d = x.v[i] - mean(c, W)
            c.eq(r[i] * r[i] * v, d * d, 'squared z-score is squared deviation over variance', obs=False)
            c.prove(c.And(c.Implies(d > 0, r[i] > 0), c.Implies(d < 0, r[i] < 0), c.Implies(d == 0, r[i] == 0)), 'z-score has the sign of the deviation')


def burst(c, n, w):
    x = c.farr('x', n, lo=-10, hi=100)
    r = c.xs(c.call(utils.comp_burst_ratio, x.a, w))
    for i in range(n):
        if i < w - 1:
            c.eq(r[i], nan, 'burst ratio undefined before the window is full')
            continue
        m = median(c, x.v[i - w + 1:i + 1])
        if bool(m > 0):
            c.eq(r[i] * m, x.v[i], 'burst ratio is the value over the window median')
        else:
            c.eq(r[i], nan, 'burst ratio undefined for a non-positive median')


def rvol(c, n, w, pat, sample):
    x = c.farr('r', n, lo=-10, hi=10, nan=pat)
    r = c.xs(c.call(volatility.realized_vol, x.a, w, sample))
    for i in range(n):
        W = [v for v in x.v[max(0, i - w + 1):i + 1] if not c.isnan(v)]
        if i < w - 1 or len(W) < 2:
            c.eq(r[i], nan, 'volatility undefined with fewer than two returns or before the window is full')
            continue
        c.eq(r[i] * r[i] * (len(W) - (1 if sample else 0)), total([v * v for v in W]), 'squared volatility is the mean squared return of the window')
        c.prove(r[i] >= 0, 'volatility is never negative')


def rvar(c, n, w, pat, ddof, mp):
    x = c.farr('x', n, lo=-10, hi=10, nan=pat)
    r = c.xs(c.call(volatility.rolling_variance_nb, x.a, w, ddof, mp))
    for i in range(n):
        W = [v for v in x.v[max(0, i - w + 1):i + 1] if not c.isnan(v)]
        if i < w - 1 or len(W) < mp or len(W) <= ddof:
            c.eq(r[i], nan, 'variance undefined with too few valid values')
        else:
            c.eq(r[i], var(c, W, ddof), 'variance of the valid values of the window')


def boll(c, n, w, k):
    x = c.farr('x', n, lo=-100, hi=100)
    r = c.xs(c.call(volatility.bollinger_percent_b, x.a, w, k))
    for i in range(n):
        if i < w - 1:
            c.eq(r[i], nan, 'percent-b undefined before the window is full')
            continue
        W = x.v[i - w + 1:i + 1]
        v, m = var(c, W, 1), mean(c, W)
        if bool(v == 0):
            c.eq(r[i], nan, 'percent-b undefined for a zero band')
        else:
            # r = (x - m + k s) / (2 k s)
            z = (r[i] - c.x(0.5)) * c.x(2 * k)
            d = x.v[i] - m
            c.eq(z * z * v, d * d, 'distance from the band middle in standard deviations', obs=False)
            c.prove(c.And(c.Implies(d > 0, z > 0), c.Implies(d < 0, z < 0), c.Implies(d == 0, z == 0)), 'above one half exactly above the mean')


def vratio(c, n, w, ddof, typ, hole, zero=None):
    p = c.parr('p', n) if typ == 'log' else c.farr('p', n, lo=1, hi=100, nan=[i == hole for i in range(n)])
    if zero is not None:        # a price of zero has no return to the next one, and no log return at all
        p.a[zero] = 0.0
    r = c.xs(c.call(volatility.variance_ratio_1_4_core, p.a, w, ddof, typ))
    if typ == 'log':
        L = [c.log(v) for v in p.v]
        one = [nan] + [nan if zero in (i, i - 1) else L[i] - L[i - 1] for i in range(1, n)]
    else:
        one = [nan] + [nan if i in (hole, hole + 1) or i - 1 == zero else c.x(-1) if i == zero else p.v[i] / p.v[i - 1] - 1 for i in range(1, n)]
    four = [nan if i < 4 or any(c.isnan(one[i - k]) for k in range(4)) else one[i] + one[i - 1] + one[i - 2] + one[i - 3] for i in range(n)]

    def rv(s, i):
        W = [v for v in s[i - w + 1:i + 1] if not c.isnan(v)]
        return None if i < w - 1 or len(W) <= max(ddof, 0) or not W else var(c, W, ddof)
    for i in range(n):
        a, b = rv(one, i), rv(four, i)
        if n < w + 4 or a is None or b is None:
            c.eq(r[i], nan, 'variance ratio undefined with too little data')
        elif bool(b > 0):
            c.eq(r[i] * b, a * 4, 'variance of one-bar returns over a quarter of the variance of four-bar returns', obs=False)
        else:
            c.eq(r[i], nan, 'variance ratio undefined without four-bar variance', obs=False)


def park(c, n):
    l = c.parr('p', 2 * n)
    hi, lo = l.a[:n], l.a[n:]
    r = c.xs(c.call(volatility.parkinson_range, hi, lo))
    k = c.log(c.x(2.0)) * 4
    for i in range(n):
        d = c.log(l.v[i]) - c.log(l.v[n + i])
        c.eq(r[i] * k, d * d, 'squared log range over 4 ln 2')


def tr(c, n, hole):
    h, l, cl = (c.farr(k, n, lo=0, hi=100, nan=[hole == (k, i) for i in range(n)]) for k in 'hlc')
    r = c.xs(c.call(volatility.true_range, h.a, l.a, cl.a))
    for i, e in enumerate(true_range(c, h.v, l.v, cl.v)):
        c.eq(r[i], e, 'true range')


def true_range(c, h, l, cl):
    out = []
    for i in range(len(h)):
        if c.isnan(h[i]) or c.isnan(l[i]) or i and c.isnan(cl[i - 1]):
            out.append(nan)
        elif i == 0:
            out.append(h[0] - l[0])
        else:
            out.append(fmax(c, [h[i] - l[i], h[i] - cl[i - 1], cl[i - 1] - h[i], l[i] - cl[i - 1], cl[i - 1] - l[i]]))
    return out


def atr_sma(c, n, w, norm, hole):
    h, l, cl = (c.farr(k, n, lo=1, hi=100, nan=[hole == (k, i) for i in range(n)]) for k in 'hlc')
    t = true_range(c, h.v, l.v, cl.v)
    r = c.xs(c.call(volatility.atr, h.a, l.a, cl.a, w, False, norm))
    for i in range(n):
        W = [v for v in t[max(0, i - w + 1):i + 1] if not c.isnan(v)]
        if i < w - 1 or not W:
            c.eq(r[i], nan, 'average true range undefined before the window is full or without valid bars')
            continue
        m = mean(c, W)
        if norm and not c.isnan(h.v[i]) and not c.isnan(l.v[i]):
            c.eq(r[i] * (h.v[i] + l.v[i]) / c.x(2.0), m, 'average true range relative to the mid price')
        else:
            c.eq(r[i], m, 'average true range is the mean of the valid true ranges of the window')


def cases(tier):
    q = tier == 'quick'
    N = 4 if q else 6
    W = (1, 2, 3) if q else (1, 2, 3, 5)
    out = []

    def add(name, fn, wt=1, **p):
        out.append(dict(name=name, fn=fn, params=p, weight=wt))
    for w in W:
        add(f'sma-w{w}', sma, n=N, w=w)
        add(f'burst-w{w}', burst, 3, n=N, w=w)
        for ddof in (0, 1):
            if w > ddof:
                add(f'zscore-w{w}-ddof{ddof}', zscore, 4, n=min(N, 4) if q else 5, w=w, ddof=ddof)
        if w >= 2:
            add(f'bollinger-w{w}', boll, 5, n=w + 1 if q else w + 2, w=w, k=2.0)
    add('sma-short', sma, n=2, w=3)
    NP = 4 if q else 5
    for pat in itertools.product((False, True), repeat=NP):
        k = ''.join('n' if x else '.' for x in pat)
        if q and sum(pat) > 2:
            continue
        for w in ((2, 3) if q else (2, 3, 4)):
            add(f'realized-{k}-w{w}', rvol, n=NP, w=w, pat=pat, sample=bool(sum(pat) % 2))
            add(f'variance-{k}-w{w}', rvar, n=NP, w=w, pat=pat, ddof=sum(pat) % 2, mp=1 + (w + sum(pat)) % 2)
    nv = 7 if q else 8
    for typ in ('log', 'simple'):
        add(f'variance-ratio-{typ}', vratio, 8, n=6 if q else 7, w=2, ddof=1, typ=typ, hole=-9)
        add(f'variance-ratio-{typ}-population', vratio, 8, n=6 if q else 7, w=2, ddof=0, typ=typ, hole=-9)
    if not q:
        add('variance-ratio-w3', vratio, 9, n=8, w=3, ddof=1, typ='log', hole=-9)
    add('variance-ratio-short', vratio, n=5, w=2, ddof=1, typ='simple', hole=-9)
    add('variance-ratio-hole', vratio, 8, n=nv + 1, w=3, ddof=1, typ='simple', hole=2)
    for typ in ('log', 'simple'):
        add(f'variance-ratio-zero-{typ}', vratio, 8, n=7, w=2, ddof=1, typ=typ, hole=-9, zero=0)
    add('parkinson', park, n=2)
    add('true-range', tr, n=3, hole=None)
    for hole in (None, ('h', 0), ('l', 1), ('c', 0), ('h', 2), ('c', 2)):
        add(f'true-range-hole-{hole}', tr, n=4, hole=hole)
        for w in (1, 2, 3):
            add(f'atr-w{w}-hole-{hole}', atr_sma, 2, n=4, w=w, norm=(w == 2), hole=hole)
    # long series: concrete samples except a few
    n, w, at = (150, 130, (3, 140)) if q else (300, 260, (3, 150, 290))
    some = [i % 17 == 5 for i in range(n)]

    def long(name, fn, at=at, **p):
        out.append(dict(name=f'long-{name}', fn=fn, params=p, weight=30, thin=dict(at=at)))
    long('sma', sma, n=n, w=w)
    long('burst', burst, n=40, w=30, at=(35,))
    long('zscore', zscore, n=n, w=w, ddof=1, at=at[-1:])
    long('bollinger', boll, n=n, w=w, k=2.0, at=at[-1:])
    long('realized', rvol, n=n, w=w, pat=some, sample=True)
    long('variance', rvar, n=n, w=w, pat=some, ddof=1, mp=20)
    long('variance-ratio', vratio, n=n, w=w, ddof=1, typ='simple', hole=20, at=(n - 1,))
    long('parkinson', park, n=n)
    long('true-range', tr, n=n, hole=('c', 77))
    long('atr', atr_sma, n=n, w=w, norm=True, hole=('h', 77))
    return out + wiring.cases('C25', tier)
