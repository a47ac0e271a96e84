"""C05: directional (order-flow) bar features."""
import numpy as np
from finmlkit.bar import base
from .common import closes, fmax, fmin, total, mixed, zigzag

BOUNDS = 'up to 4 trades in up to 3 bars (quick) / 5 trades, 3 bars (thorough), every close placement incl. empty and single-trade bars, sides in {-1,0,1}; long bars of 700 (3300) trades of which 2 (3) are symbolic'


def run(c, n, nb, zero):
    p = c.farr('p', n, pos=True)
    v = c.farr('v', n, lo=0)
    s = c.iarr('side', n, -1, 1, dtype=np.int8)
    if not zero:
        for x in s.v:
            c.assume(x != 0)
    ci, idx = closes(c, nb, n)
    check(c, p, v, s, ci, idx, nb)


def long(c, sizes, at):
    n = sum(sizes)
    p = mixed(c, 'p', zigzag(n, 100.0, 0.25, 11), at, lo=90, hi=110)
    v = mixed(c, 'v', zigzag(n, 1.0, 0.5, 5), at[-1:], lo=0, hi=10)
    s = c.fconst([(1, 1, -1, 1, 0, 1, -1)[i % 7] for i in range(n)], np.int8)
    idx = [-1]
    for k in sizes:
        idx.append(idx[-1] + k)
    check(c, p, v, s, c.fconst(idx, np.int64), idx, len(sizes))


def check(c, p, v, s, ci, idx, nb):
    r = c.call(base.comp_bar_directional_features, p.a, v.a, ci.a, s.a)
    (tb, ts, vb, vs, db, ds, mean, mx, ctn, ctx, cvn, cvx, cdn, cdx) = map(c.xs, r)
    sd = [(x.__index__() if c.sym else int(x)) for x in s.v]
    for i in range(nb):
        a, b = idx[i], idx[i + 1]
        R = range(a + 1, b + 1)
        B = [j for j in R if sd[j] == 1]
        S = [j for j in R if sd[j] == -1]
        c.eq(tb[i], len(B), 'buy trade count')
        c.eq(ts[i], len(S), 'sell trade count')
        c.eq(vb[i], total([v.v[j] for j in B]), 'buy volume')
        c.eq(vs[i], total([v.v[j] for j in S]), 'sell volume')
        c.eq(db[i], total([v.v[j] * p.v[j] for j in B]), 'buy value')
        c.eq(ds[i], total([v.v[j] * p.v[j] for j in S]), 'sell value')
        spr = [abs(p.v[j] - p.v[j - 1]) for j in R if j > 0 and sd[j] != sd[j - 1]]
        c.eq(mx[i], fmax(c, [c.x(0.0)] + spr), 'largest price step at a change of side, using only this and earlier trades')
        if B or S:
            c.eq(mean[i], total(spr, c.x(0.0)) / c.x(float(len(B) + len(S))), 'mean price step at changes of side')
        # running signed sums after each sided trade
        for lo, hi, w, nm in ((ctn, ctx, lambda j: c.x(1), 'ticks'), (cvn, cvx, lambda j: v.v[j], 'volume'),
                              (cdn, cdx, lambda j: v.v[j] * p.v[j], 'value')):
            run_, cur = [], c.x(0)
            for j in R:
                if sd[j]:
                    cur = cur + w(j) * sd[j]
                    run_.append(cur)
            if run_:
                c.eq(lo[i], fmin(c, run_), f'lowest running signed {nm}')
                c.eq(hi[i], fmax(c, run_), f'highest running signed {nm}')
            else:
                c.eq(lo[i], 0, f'no running {nm} in a bar without sided trades')
                c.eq(hi[i], 0, f'no running {nm} in a bar without sided trades')


def big(c):
    """values beyond 1e9 (large notional)"""
    p = c.farr('p', 2, lo=10 ** 5, hi=10 ** 6)
    v = c.farr('v', 2, lo=10 ** 5, hi=10 ** 6)
    s = c.fconst([1, 1], np.int8)
    ci = c.fconst([-1, 1], np.int64)
    r = c.call(base.comp_bar_directional_features, p.a, v.a, ci.a, s.a)
    d0 = p.v[0] * v.v[0]
    c.eq(r[12][0], d0, 'lowest running signed value')
    c.eq(r[13][0], d0 + p.v[1] * v.v[1], 'highest running signed value')


def cases(tier):
    cs = [(1, 1, True), (2, 1, True), (2, 2, True), (3, 2, False), (3, 1, True)] if tier == 'quick' else \
        [(1, 1, True), (2, 2, True), (3, 3, True), (4, 2, False), (4, 3, False)]
    return [dict(name=f'n{n}-bars{b}{"-neutral" if z else ""}', fn=run, params=dict(n=n, nb=b, zero=z), weight=n ** 3 * b)
            for n, b, z in cs] + [dict(name='large-notional', fn=big)] + \
        [dict(name=f'long-{sum(z)}', fn=long, params=dict(sizes=z, at=at), weight=100)
         for z, at in ([([700, 1, 0, 3], (350, 701))] if tier == 'quick' else [([700, 1, 2, 0, 3], (0, 350, 701)), ([3300, 3], (5, 3301))])]
