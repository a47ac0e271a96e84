"""C29: no look-ahead — outputs for a prefix are the prefix of the outputs."""
import numpy as np
from finmlkit.bar import logic, utils as butils
from finmlkit.feature.core import utils, ma, volatility, momentum, reversion, trend, volume, correlation
from finmlkit.feature.core.structural_break import cusum
from finmlkit.sampling import filters

BOUNDS = ('feature kernels: series of up to 5-6 samples (quick) / 7-8 (thorough) against every shorter prefix, windows 1..3, missing values at each position for '
          'the NaN-aware kernels; indexers and event filter: up to 5 (7) trades; rolling profile: 3 bars of 2 levels')
ASSUMPTIONS = ['a CUSUM bar prefix ends between two trading instants (the closing rule looks at whether the current instant continues)',
               'square roots, exponentials and logarithms are the same functions in both runs']
LABEL = 'the value at a sample is the same whether or not later samples exist'


def outs(r):
    return [r] if not isinstance(r, (tuple, list)) else list(r)


def kernel(c, f, mk, n, ks, statics, mode='rows'):
    arrs = mk(c, n)
    full = c.call(f, *[a.a.copy() for a in arrs], *statics)
    full = [c.xs(x) for x in outs(full)]
    for k in ks:
        pre = c.call(f, *[a.a[:k].copy() for a in arrs], *statics)
        pre = [c.xs(x) for x in outs(pre)]
        c.prove(len(pre) == len(full), 'same number of outputs')
        for x, y in zip(pre, full):
            c.prove(len(x) == k, 'one value per sample')
            for a, b in zip(x, y):
                c.eq(b, a, LABEL, obs=False)


def F(*specs, **kw):
    def mk(c, n):
        out = []
        for s in specs:
            nm, lo, hi = s[:3]
            pat = None
            if len(s) > 3 and s[3] is not None and s[3] < n:
                pat = [i == s[3] for i in range(n)]
            out.append(c.farr(nm, n, lo=lo, hi=hi, nan=pat))
        return out
    return mk


def ohlc(*order):
    def mk(c, n):
        h, l, cl = (c.farr(k, n, lo=1, hi=100) for k in 'hlc')
        for i in range(n):
            c.assume(c.And(l.v[i] <= cl.v[i], cl.v[i] <= h.v[i]))
        d = dict(h=h, l=l, c=cl)
        return [d[o] for o in order]
    return mk


def P(c, n):
    return [c.parr('p', n)]


def PV(c, n):
    return [c.parr('p', n), c.farr('v', n, lo=0, hi=100)]


def HL(c, n):
    a = c.parr('p', 2 * n)

    class W:
        def __init__(s, x):
            s.a = x
    return [W(a.a[:n]), W(a.a[n:])]


def TY(hole=None):
    def mk(c, n):
        return [c.iarr('ts', n, 0, 10 ** 13, sort='asc'), c.farr('y', n, lo=-10, hi=10, nan=[i == hole for i in range(n)] if hole is not None else None)]
    return mk


def TP(log):
    def mk(c, n):
        return [c.iarr('ts', n, 0, 4 * 10 ** 9, sort='asc'), c.parr('p', n) if log else c.farr('p', n, lo=1, hi=100)]
    return mk


def ratio(c, n, ks, w, log):
    p = c.parr('p', n) if log else c.farr('p', n, lo=1, hi=100)
    full = c.xs(c.call(volatility.variance_ratio_1_4_core, p.a.copy(), w, 1, 'log' if log else 'simple'))
    for k in ks:
        pre = c.xs(c.call(volatility.variance_ratio_1_4_core, p.a[:k].copy(), w, 1, 'log' if log else 'simple'))
        for a, b in zip(pre, full):
            c.eq(b, a, LABEL, obs=False)


def idx(c, xs):
    return [v.__index__() if c.sym else int(v) for v in xs]


def indexer(c, kind, n):
    k = c.choice('prefix', n) + 1
    if kind == 'tick':
        a = c.iarr('ts', n, 0, 10 ** 6, sort='asc')
        thr = c.i('thr', 1, n + 1)
        g = lambda m: logic._tick_bar_indexer(a.a[:m], thr)
    elif kind == 'volume':
        v, thr = c.farr('v', n, lo=0), c.f('thr', pos=True)
        g = lambda m: logic._volume_bar_indexer(v.a[:m], thr)
    elif kind == 'dollar':
        p, v, thr = c.farr('p', n, pos=True), c.farr('v', n, lo=0), c.f('thr', pos=True)
        g = lambda m: logic._dollar_bar_indexer(p.a[:m], v.a[:m], thr)
    elif kind == 'cusum':
        p, ts = c.parr('p', n), c.iarr('ts', n, 0, 3, sort='asc')
        hole = c.choice('hole', n + 1)
        s = c.farr('s', n, lo=0.001, hi=5, nan=[i == hole for i in range(n)])
        if hole == 0 and k == 1:
            return      # no volatility known yet
        if k < n:
            c.assume(ts.v[k - 1] < ts.v[k])
        fl, mu = c.f('floor', pos=True, hi=5), c.f('mult', pos=True, hi=5)
        g = lambda m: logic._cusum_bar_indexer(ts.a[:m], p.a[:m], s.a[:m].copy(), fl, mu)
    elif kind == 'filter':
        p = c.parr('p', n)
        if k < 2:
            return
        t = c.farr('t', n, pos=True, hi=10)
        g = lambda m: filters.cusum_filter(p.a[:m], t.a[:m])
    full = idx(c, c.xs(list(c.call(g, n))))
    pre = idx(c, c.xs(list(c.call(g, k))))
    c.prove([v for v in full if v < k] == pre, 'closes or events of a prefix are those of the whole series')


def timebars(c, n, sec):
    b = c.i('base', 0, 10 ** 6)
    k = c.choice('prefix', n) + 1
    w = int(sec * 10 ** 9)
    t = c.iarr('t', n, 17 * 10 ** 17, 17 * 10 ** 17 + 3 * w, sort='asc')
    full = [c.xs(x) for x in c.call(logic._time_bar_indexer, t.a, sec)]
    pre = [c.xs(x) for x in c.call(logic._time_bar_indexer, t.a[:k], sec)]
    for i, (b1, b2) in enumerate(zip(pre[0], full[0])):
        c.eq(b1, b2, 'bar boundaries do not depend on later trades', 0)
        if bool(b1 < t.v[k - 1]):
            c.eq(pre[1][i], full[1][i], 'a closed time bar does not change when later trades arrive', 0)


def sides(c, n):
    p = c.farr('p', n, lo=1, hi=100)
    k = c.choice('prefix', n) + 1
    a, b = c.xs(c.call(butils.comp_trade_side_vector, p.a)), c.xs(c.call(butils.comp_trade_side_vector, p.a[:k]))
    for x, y in zip(b, a):
        c.eq(x, y, LABEL, 0)


def profile(c, n, win, bins):
    tick = 1.0
    lv = [[10, 11], [12], [9]][:n]
    arr = (lambda nm, m: c.farr(nm, m, lo=0, hi=50, dtype=np.float32)) if win else (lambda nm, m: c.iarr(nm, m, 0, 50, dtype=np.int32))
    bv = [arr(f'b{i}', len(l)) for i, l in enumerate(lv)]
    sv = [arr(f's{i}', len(l)) if i == n - 1 else c.fconst([0.0] * len(l), np.float32) for i, l in enumerate(lv)]
    L = [c.iconst(l, np.int32) for l in lv]
    ts = c.fconst([10 ** 9 * (i + 1) for i in range(n)], np.int64)
    hi, lo = np.array([l[-1] * tick for l in lv]), np.array([l[0] * tick for l in lv])
    mk = (lambda x: list(x)) if c.sym else volume.NumbaList

    def run(m):
        a = (ts.a[:m], hi[:m], lo[:m], mk([x.a for x in L[:m]]), mk([b.a for b in bv[:m]]), mk([x.a for x in sv[:m]]))
        if win:
            return [c.xs(x) for x in c.call(volume.volume_profile_rolling, *a, win, bins, tick, 70.0)]
        return [c.xs(x) for x in c.call(volume.volume_profile_developing, *a, 0, 10 ** 18, bins, tick, 70.0)[1:]]
    full = run(n)
    for k in range(1, n):
        for x, y in zip(run(k), full):
            c.prove(len(x) == k, 'one value per bar')
            for a, b in zip(x, y):
                c.eq(b, a, LABEL, 1e-5, obs=False)


def cases(tier):
    q = tier == 'quick'
    N = 5 if q else 7
    out = []

    def add(name, fn, wt=1, **p):
        out.append(dict(name=name, fn=fn, params=p, weight=wt))

    def ker(name, f, mk, n, statics=(), wt=2):
        add(name, kernel, wt, f=f, mk=mk, n=n, ks=list(range(1, n)) if n <= 6 else [1, n // 2, n - 1], statics=tuple(statics))
    for w in (1, 2, 3):
        ker(f'sma-{w}', ma.sma, F(('x', -100, 100)), N, (w,))
        ker(f'zscore-{w}', utils.comp_zscore, F(('x', -100, 100)), 4 if q else 5, (max(w, 2), 1))
        ker(f'burst-{w}', utils.comp_burst_ratio, F(('x', 0, 100)), 4 if q else 5, (w,), 6)
        ker(f'pct-{w}', utils.pct_change, F(('x', -10, 10)), N, (w,))
        ker(f'roc-{w}', momentum.roc, F(('x', 1, 100)), N, (w,))
        ker(f'rsi-{w}', momentum.rsi_wilder, F(('x', 0, 100)), 4 if q else 6, (w,))
        ker(f'stoch-{w}', momentum.stoch_k, ohlc('c', 'l', 'h'), 4 if q else 5, (w,), 5)
        ker(f'vpin-{w}', volume.vpin, F(('b', 0, 10), ('s', 0, 10, 2)), N, (w,))
        ker(f'flow-{w}', volume.comp_flow_acceleration, F(('b', 0, 10)), N, (w, w - 1))
        ker(f'vwap-{w}', reversion.vwap_distance, F(('p', 1, 100), ('v', 0, 10)), 4 if q else 6, (w, False))
        for hole in (None, 1, 2):
            ker(f'rvol-{w}-{hole}', volatility.realized_vol, F(('x', -10, 10, hole)), N, (w, True))
            ker(f'rvar-{w}-{hole}', volatility.rolling_variance_nb, F(('x', -10, 10, hole)), N, (w, 1, 1))
            ker(f'ewms-{w}-{hole}', volatility.ewms, F(('x', -10, 10, hole)), 4 if q else 5, (w + 1,))
        ker(f'boll-{w}', volatility.bollinger_percent_b, F(('x', 1, 100)), 4, (max(w, 2), 2.0))
        for ema in (False, True):
            for norm in (False, True):
                ker(f'atr-{w}-{ema}-{norm}', volatility.atr, ohlc('h', 'l', 'c'), 3 if q else 5, (w, ema, norm), 6)
    for w in (2, 3):
        ker(f'corr-{w}', correlation.rolling_price_volume_correlation, F(('p', 1, 100), ('v', 0, 10)), 4, (w,), 8)
        add(f'ratio-{w}', ratio, 5, n=w + 5, ks=[w + 4], w=w, log=True)
        add(f'ratio-simple-{w}', ratio, 5, n=w + 5, ks=[w + 4], w=w, log=False)
    ker('ewma', ma.ewma, F(('x', -10, 10)), N, (3,))
    for hole in (None, 0, 1):
        for nm in ('ewmst', 'ewmst_mean0'):
            ker(f'{nm}-{hole}', getattr(volatility, nm), TY(hole), 3 if q else 4, EW[nm], 8)
    ker('lagged-log', utils.comp_lagged_returns, TP(True), 4 if q else 5, (1.0, True), 6)
    ker('lagged', utils.comp_lagged_returns, TP(False), 4 if q else 5, (1.0, False), 6)
    ker('adx-1', trend.adx_core, ohlc('h', 'l', 'c'), 3, (1,), 8)
    ker('adx-2', trend.adx_core, ohlc('h', 'l', 'c'), 4, (2,), 12)
    ker('parkinson', volatility.parkinson_range, HL, 3)
    ker('truerange', volatility.true_range, ohlc('h', 'l', 'c'), 4)
    ker('cusum-developing', cusum.cusum_test_developing, P, 4 if q else 5, (2,), 10)
    ker('cusum-rolling', cusum.cusum_test_rolling, P, 4 if q else 5, (3, 2), 10)
    for kind in ('tick', 'volume', 'dollar', 'cusum', 'filter'):
        n = 4 if kind in ('cusum', 'filter') else 5
        add(f'index-{kind}', indexer, 10, kind=kind, n=n if q else n + 2 - (kind == 'cusum'))
    add('index-time', timebars, 10, n=3 if q else 4, sec=1.0)
    add('sides', sides, 5, n=4 if q else 6)
    for win, bins in ((1.0, None), (1.0, 3), (0, None), (0, 3)):
        add(f'profile-{win}-{bins}', profile, 15, n=3, win=win, bins=bins)
    return out


EW = {'ewmst': (1.0, 0.0), 'ewmst_mean0': (1.0, 0.0)}
