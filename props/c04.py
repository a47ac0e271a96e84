"""C04: OHLCV aggregation."""
import numpy as np
from finmlkit.bar import base
from .common import closes, fmax, fmin, total, median, mixed, zigzag

BOUNDS = 'up to 5 trades in up to 3 bars (quick) / 6 trades, 3 bars (thorough), every placement of the bar closes incl. empty bars; long bars of 260 (3300) trades of which 2 (3) are symbolic'


def run(c, n, nb):
    p = c.farr('p', n, pos=True)
    v = c.farr('v', n, lo=0)
    ci, idx = closes(c, nb, n)
    check(c, p, v, ci, idx, nb)


def long(c, sizes, at):
    """bars of the given sizes; only a few of the many trades are symbolic"""
    n = sum(sizes)
    p = mixed(c, 'p', zigzag(n, 100.0, 0.25, 11), at, lo=90, hi=110)
    v = c.fconst(zigzag(n, 1.0, 0.5, 5), np.float64)
    idx = [-1]
    for k in sizes:
        idx.append(idx[-1] + k)
    check(c, p, v, c.fconst(idx, np.int64), idx, len(sizes))


def check(c, p, v, ci, idx, nb):
    o, h, l, cl, vol, vwap, tr, med = c.call(base.comp_bar_ohlcv, p.a, v.a, ci.a)
    o, h, l, cl, vol, vwap, tr, med = map(c.xs, (o, h, l, cl, vol, vwap, tr, med))
    c.prove(all(len(x) == nb for x in (o, h, l, cl, vol, vwap, tr, med)), 'one row per bar')
    for i in range(nb):
        a, b = idx[i], idx[i + 1]
        P, V = p.v[a + 1:b + 1], v.v[a + 1:b + 1]
        if a == b:
            for g in (o, h, l, cl):
                c.eq(g[i], p.v[b], 'an empty bar carries the previous close')
            for g in (vol, tr, med, vwap):
                c.eq(g[i], 0, 'an empty bar has no volume, trades or sizes')
            continue
        c.eq(o[i], P[0], 'open is the first trade of the bar')
        c.eq(cl[i], P[-1], 'close is the last trade of the bar')
        c.eq(h[i], fmax(c, P), 'high is the highest trade of the bar')
        c.eq(l[i], fmin(c, P), 'low is the lowest trade of the bar')
        c.eq(vol[i], total(V), 'volume is the sum of the bar')
        c.eq(tr[i], len(P), 'trade count of the bar')
        c.eq(med[i], median(c, V), 'median trade size of the bar')
        tv = total(V)
        td = total([x * y for x, y in zip(P, V)])
        if tv > 0:
            c.eq(vwap[i], td / tv, 'vwap is traded value over volume')
        else:
            c.eq(vwap[i], 0, 'vwap of a bar without volume is zero')


def cases(tier):
    cs = [(1, 1), (2, 1), (2, 2), (3, 2), (3, 3), (4, 2)] if tier == 'quick' else [(1, 1), (2, 2), (3, 3), (4, 3), (5, 2), (5, 3)]
    return [dict(name=f'n{n}-bars{b}', fn=run, params=dict(n=n, nb=b), weight=n ** 3 * b) for n, b in cs] + \
        [dict(name=f'long-{sum(z)}', fn=long, params=dict(sizes=z, at=at), weight=100)
         for z, at in ([([260, 1, 0, 3], (130, 260))] if tier == 'quick' else
                       [([300, 1, 2, 0, 3] * 2, (0, 150, 301)), ([3300, 3], (5, 3301))])]
