"""C07: footprint conservation."""
import numpy as np
from finmlkit.bar import base
from .common import closes, fmax, fmin, total, mixed, zigzag

BOUNDS = ('up to 3 trades in up to 2 bars (quick) / 4 trades, 2 bars (thorough); prices on a grid of 4 (5) tick levels at any offset, '
          'tick sizes 0.01, 0.5, 1, 5; sides in {-1,0,1}; plus off-grid prices; long bars of 300 (700) trades (140 levels) of which 1 (2) have a symbolic volume')


def run(c, n, nb, tick, levels, offgrid=False):
    lv = c.iarr('lvl', n, 0, levels - 1)
    base_ = c.i('base', 1, 10 ** 7)
    from fractions import Fraction
    T = Fraction(tick).limit_denominator(10 ** 6)
    if c.sym:
        from sx.core import Sym
        from sx.arr import SArr
        if offgrid:
            off = c.farr('off', n, lo=0, hi=0.9)
            pv = [((l + base_) + o) * T for l, o in zip(lv.v, off.v)]
        else:
            pv = [(l + base_) * T for l in lv.v]
        pa = SArr(pv, np.float64)
    else:
        if offgrid:
            off = c.farr('off', n, lo=0, hi=0.9)
            pa = np.array([float((l + base_) + o) * tick for l, o in zip(lv.v, off.v)])
        else:
            pa = np.array([(l + base_) * tick for l in lv.v])
        pv = c.xs(pa)
    v = c.farr('v', n, lo=0, hi=1000)
    s = c.iarr('side', n, -1, 1, dtype=np.int8)
    ci, idx = closes(c, nb, n)
    check(c, pa, pv, lv, base_, v, s, ci, idx, nb, tick, T, offgrid)


def long(c, sizes, at, levels, sides=(1, 1, -1, 1, 0, 1, -1)):
    from fractions import Fraction
    n = sum(sizes)
    pa = c.fconst([(200 + (i * 7) % levels) * 0.5 for i in range(n)], np.float64)
    lv = c.fconst([(i * 7) % levels for i in range(n)], np.int64)
    v = mixed(c, 'v', zigzag(n, 1.0, 0.5, 5), at, lo=0, hi=10)
    s = c.fconst([sides[i % len(sides)] for i in range(n)], np.int8)
    idx = [-1]
    for k in sizes:
        idx.append(idx[-1] + k)
    check(c, pa.a, pa.v, lv, c.x(200), v, s, c.fconst(idx, np.int64), idx, len(sizes), 0.5, Fraction(1, 2), False,
          vq=c.fconst(zigzag(n, 1.0, 0.5, 5), np.float64))


def check(c, pa, pv, lv, base_, v, s, ci, idx, nb, tick, T, offgrid, vq=None):
    tk = c.x(T) if c.sym else tick
    oh = c.call(base.comp_bar_ohlcv, pa, (vq or v).a, ci.a)
    r = c.call(base.comp_bar_footprints, pa, v.a, ci.a, s.a, tk, oh[2], oh[1], c.cf(3.0))
    pl, bv, sv, bt, st = r[:5]
    c.prove(all(len(x) == nb for x in r), 'one footprint per bar')
    bis, sis = c.xs(r[7]), c.xs(r[8])
    for i in range(nb):
        P, BV, SV, BT, ST = c.xs(pl[i]), c.xs(bv[i]), c.xs(sv[i]), c.xs(bt[i]), c.xs(st[i])
        c.prove(len({len(x) for x in (P, BV, SV, BT, ST, r[5][i], r[6][i])}) == 1, 'all level arrays of a bar have one length')
        R = range(idx[i] + 1, idx[i + 1] + 1)
        for k in range(1, len(P)):
            c.eq(P[k], P[0] + k, 'levels are contiguous ticks', 0)
        if len(R):
            lo = fmin(c, [pv[j] for j in R])
            hi = fmax(c, [pv[j] for j in R])
            if not offgrid:
                c.eq(P[0], lo / T, 'lowest level is the low of the bar')
                c.eq(P[-1], hi / T, 'highest level is the high of the bar')
        for side, VV, TT, nm in ((1, BV, BT, 'buy'), (-1, SV, ST, 'sell')):
            mine = [c.num(s.v[j] == side) for j in R]
            c.eq(total(VV, c.x(0)), total([v.v[j] * m for j, m in zip(R, mine)], c.x(0)), f'{nm} volume of the bar is conserved')
            c.eq(total(TT, c.x(0)), total(mine, c.x(0)), f'{nm} trade count of the bar is conserved')
            if not offgrid:
                for k in range(len(P)):
                    at = [c.num(c.And(s.v[j] == side, lv.v[j] + base_ == P[k])) for j in R]
                    c.eq(VV[k], total([v.v[j] * m for j, m in zip(R, at)], c.x(0)), f'{nm} volume sits at its price level')
                    c.eq(TT[k], total(at, c.x(0)), f'{nm} count sits at its price level')
        c.eq(bis[i], total([c.num(x) for x in c.xs(r[5][i])], c.x(0)), 'buy imbalance total counts the flags')
        c.eq(sis[i], total([c.num(x) for x in c.xs(r[6][i])], c.x(0)), 'sell imbalance total counts the flags')


def cases(tier):
    out = []
    L = 3 if tier == 'quick' else 4
    for t in (0.01, 0.5, 1.0, 5.0):
        out.append(dict(name=f'tick{t}-n1', fn=run, params=dict(n=1, nb=1, tick=t, levels=L)))
        out.append(dict(name=f'tick{t}-n2', fn=run, params=dict(n=2, nb=1, tick=t, levels=L), weight=3))
    out.append(dict(name='tick0.5-n2-bars2', fn=run, params=dict(n=2, nb=2, tick=0.5, levels=2), weight=6))
    out.append(dict(name='tick0.01-n3', fn=run, params=dict(n=3, nb=1, tick=0.01, levels=2 if tier == 'quick' else 3), weight=9))
    out.append(dict(name='offgrid-n2', fn=run, params=dict(n=2, nb=1, tick=0.5, levels=2, offgrid=True), weight=6))
    out.append(dict(name='long', fn=long, params=dict(sizes=[300, 2], at=(150,), levels=2) if tier == 'quick' else dict(sizes=[700, 2, 0, 1], at=(150, 699), levels=140), weight=20))
    out.append(dict(name='long-oneside', fn=long, params=dict(sizes=[290, 1], at=(150,), levels=1, sides=(1,)), weight=20))
    out.append(dict(name='long-otherside', fn=long, params=dict(sizes=[290, 1], at=(150,), levels=1, sides=(-1,)), weight=20))
    for sd in (1, -1):                       # hundreds of imbalanced levels
        out.append(dict(name=f'long-levels{sd}', fn=long, params=dict(sizes=[300], at=(150,), levels=300, sides=(sd,)), weight=40))
    if tier == 'thorough':
        out.append(dict(name='tick1-n3-bars2', fn=run, params=dict(n=3, nb=2, tick=1.0, levels=3), weight=30))
        out.append(dict(name='tick0.5-n4', fn=run, params=dict(n=4, nb=1, tick=0.5, levels=3), weight=30))
    return out
