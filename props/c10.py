"""C10: the tables of one bar builder describe the same bars."""
import itertools
import numpy as np
import pandas as pd
from finmlkit.bar.data_model import TradesData
from finmlkit.bar import kit
from .common import total, median, fmax, fmin
from .c06 import p95

BOUNDS = ('3-4 trades (quick) / 4-5 (thorough) through every bar type (time, tick, volume, value, CUSUM), any prices, amounts and thresholds, listed side patterns; '
          'every order of the four table builders and of reading the close times, each possibly twice')
ASSUMPTIONS = ['log1p is any strictly increasing function with value 0 at 0', 'trade times are those of the listed layouts']
S0 = 1_700_000_000
TABLES = ('ohlcv', 'dir', 'size', 'closes')


def trades(c, n, ticks, sides):
    """trades at whole (or half) seconds; prices on a grid when footprints are built"""
    ts = np.array([S0 * 10 ** 9 + int(t * 10 ** 9) for t in TIMES[n]], dtype=np.int64)
    if ticks:
        lv = c.iarr('lvl', n, 100, 100 + ticks - 1)
        if c.sym:
            from sx.arr import SArr
            pv = [c.concretize(x.it()) for x in lv.v]
        else:
            pv = [int(x) for x in lv.v]
        pa = np.array([x * 0.5 for x in pv])
        p = [c.x(x) * c.x(0.5) for x in pv]
        px = pa
    else:
        pr = c.farr('p', n, lo=0.01, hi=10 ** 6)
        px, p = pr.a, pr.v
    am = c.farr('a', n, lo=0, hi=1000)
    td = c.call(TradesData, ts, px, am.a, side=np.array(sides, dtype=np.int8), timestamp_unit='ns')
    return td, ts, p, am.v, (pv if ticks else None)


TIMES = {3: [0, 0.5, 2], 4: [0, 0.5, 1, 3], 5: [0, 1, 1.5, 4, 4.25]}


def maker(c, kind, td, n):
    """a fresh builder over the trades"""
    if kind == 'time':
        return kit.TimeBarKit(td, pd.Timedelta(seconds=1))
    if kind == 'tick':
        return kit.TickBarKit(td, 2)
    if kind == 'volume':
        return kit.VolumeBarKit(td, c.cf(10.0))
    if kind == 'value':
        return kit.DollarBarKit(td, c.cf(1000.0))
    return kit.CUSUMBarKit(td, c.fconst([0.004] * n, np.float64).a if c.sym else np.full(n, 0.004))


def build(c, b, what, theta):
    if what == 'ohlcv':
        return c.call(b.build_ohlcv)
    if what == 'dir':
        return c.call(b.build_directional_features)
    if what == 'size':
        return c.call(b.build_trade_size_features, theta, c.cf(5.0))
    if what == 'foot':
        return c.call(b.build_footprints, c.cf(0.5))
    return c.call(lambda: b.bar_close_timestamps), c.call(lambda: b.bar_close_indices)


def ints(c, a):
    return [(x.__index__() if hasattr(x, 'it') and c.sym else int(x)) for x in c.xs(a)]


def run(c, n, kind, sides, seq, ticks=0):
    td, ts, p, a, grid = trades(c, n, ticks, sides)
    b = maker(c, kind, td, n)
    m = len(c.call(lambda: maker(c, kind, td, n).bar_close_indices))
    c.assume(m >= 1)
    th = c.farr('theta', m, lo=0.5, hi=1000)
    got = {}
    for what in seq:
        r = build(c, b, what, th.a)
        if what not in got:
            got[what] = []
        got[what].append(r)
    # the bars: closing positions and times
    probe = maker(c, kind, td, n)
    ct, ci = ints(c, c.call(lambda: probe.bar_close_timestamps)), ints(c, c.call(lambda: probe.bar_close_indices))
    first = 0 if kind != 'time' else -1
    idx = [first] + ci
    if kind == 'time':
        c.prove(all(y - x == 10 ** 9 for x, y in zip(ct, ct[1:])), 'time bars close one interval apart')
        c.prove(all(all(t - 10 ** 9 < ts[j] <= t for j in range(lo + 1, hi + 1)) or k == 0 for k, (t, lo, hi) in enumerate(zip(ct, idx, idx[1:]))),
                'a time bar holds the trades of its interval')
        idx = [sum(1 for x in ts if x <= ct[0] - 10 ** 9) - 1] + ci
    else:
        c.prove(ct == [int(ts[i]) for i in ci], 'a bar closes at the time of its last trade')
    c.prove(len(ct) == len(ci) == m, 'one close time per bar')
    for r in got.get('closes', []):
        c.prove(ints(c, r[0]) == ct and ints(c, r[1]) == ci, 'close times and positions do not depend on what was built before')
    rng = [range(lo + 1, hi + 1) for lo, hi in zip(idx, idx[1:])]
    for what, rs in got.items():
        for r in rs:
            if what in ('ohlcv', 'dir', 'size'):
                c.prove([x.value for x in r.index] == ct, 'one row per bar, at the close time of the bar')
            if what == 'ohlcv' and len(r) == m:
                for i, R in enumerate(rng):
                    g = r.iloc[i]
                    c.eq(g['trades'], len(R), 'trades of the bar')
                    c.eq(g['volume'], total([a[j] for j in R], c.x(0.0)), 'volume of the bar', 1e-5)
                    if len(R):
                        c.eq(g['open'], p[R[0]], 'open of the bar')
                        c.eq(g['close'], p[R[-1]], 'close of the bar')
                        c.eq(g['high'], fmax(c, [p[j] for j in R]), 'high of the bar')
                        c.eq(g['low'], fmin(c, [p[j] for j in R]), 'low of the bar')
                        c.eq(g['median_trade_size'], median(c, [a[j] for j in R]), 'median trade size of the bar')
                        V = total([a[j] for j in R])
                        if bool(V > 0):
                            c.eq(g['vwap'] * V, total([a[j] * p[j] for j in R]), 'average price of the bar', 1e-5)
            if what == 'dir' and len(r) == m:
                for i, R in enumerate(rng):
                    g = r.iloc[i]
                    for sd, nm in ((1, 'buy'), (-1, 'sell')):
                        Q = [j for j in R if sides[j] == sd]
                        c.eq(g[f'ticks_{nm}'], len(Q), 'trades of one side of the bar')
                        c.eq(g[f'volume_{nm}'], total([a[j] for j in Q], c.x(0.0)), 'volume of one side of the bar', 1e-5)
                        c.eq(g[f'dollars_{nm}'], total([a[j] * p[j] for j in Q], c.x(0.0)), 'value of one side of the bar', 1e-5)
                    for nm, w in (('ticks', lambda j: c.x(1)), ('volume', lambda j: a[j]), ('dollars', lambda j: a[j] * p[j])):
                        run_, cur = [], c.x(0)
                        for j in R:
                            if sides[j]:
                                cur = cur + w(j) * sides[j]
                                run_.append(cur)
                        c.eq(g[f'cum_{nm}_min'], fmin(c, run_) if run_ else 0, 'lowest running flow of the bar', 1e-5)
                        c.eq(g[f'cum_{nm}_max'], fmax(c, run_) if run_ else 0, 'highest running flow of the bar', 1e-5)
                    spr = [abs(p[j] - p[j - 1]) for j in R if j > 0 and sides[j] != sides[j - 1]]
                    c.eq(g['max_spread'], fmax(c, [c.x(0.0)] + spr), 'largest price step of the bar', 1e-5)
                    k = len([j for j in R if sides[j]])
                    if k:
                        c.eq(g['mean_spread'], total(spr, c.x(0.0)) / c.x(float(k)), 'mean price step of the bar', 1e-5)
            if what == 'size' and len(r) == m:
                for i, R in enumerate(rng):
                    if not len(R):
                        continue
                    g, V, thr = r.iloc[i], [a[j] for j in R], th.v[i] * 5
                    tv = total(V)
                    c.eq(g['mean_size_rel'], c.log(1 + tv / c.x(float(len(V))) / thr), 'mean size of the bar', obs=False)
                    c.eq(g['size_95_rel'], c.log(1 + p95(c, V) / thr), '95th percentile of the bar', obs=False)
                    if bool(tv > 0):
                        c.eq(g['pct_block'] * tv, total([c.ite(x > thr, x, c.x(0.0)) for x in V], c.x(0.0)), 'block share of the bar', 1e-5)
                        c.eq(g['size_gini'] * tv * tv, tv * tv - total([x * x for x in V]), 'size concentration of the bar', 1e-5)
            if what == 'foot':
                c.prove([int(x) for x in r.bar_timestamps] == ct, 'one footprint per bar, at the close time of the bar')
                c.eq(r.price_tick, 0.5, 'tick size')
                for nm in ('price_levels', 'buy_volumes', 'sell_volumes', 'buy_ticks', 'sell_ticks', 'buy_imbalances', 'sell_imbalances',
                           'buy_imbalances_sum', 'sell_imbalances_sum', 'cot_price_levels', 'imb_max_run_signed', 'vp_skew', 'vp_gini'):
                    c.prove(len(getattr(r, nm)) == m, 'every footprint list has one entry per bar')
                for i, R in enumerate(rng):
                    L = ints(c, r.price_levels[i])
                    lv = {j: grid[j] for j in R}
                    if len(R):
                        c.prove(L == list(range(min(lv.values()), max(lv.values()) + 1)), 'footprint levels span low to high of the bar')
                    for sd, nm in ((1, 'buy'), (-1, 'sell')):
                        vv, tt = c.xs(getattr(r, f'{nm}_volumes')[i]), c.xs(getattr(r, f'{nm}_ticks')[i])
                        for k, l in enumerate(L):
                            Q = [j for j in R if lv[j] == l and sides[j] == sd]
                            c.eq(vv[k], total([a[j] for j in Q], c.x(0.0)), 'volume at a level and side of the bar', 1e-5)
                            c.eq(tt[k], len(Q), 'trades at a level and side of the bar')


def sigma(c, n):
    """thresholds reported for the closes of CUSUM bars; the caller's array stays as it was"""
    td, ts, p, a, grid = trades(c, n, 0, [1] * n)
    sg = c.farr('sigma', n, lo=0.001, hi=0.5, nan=[0, 0, 1, 0, 0][:n])
    b = c.call(kit.CUSUMBarKit, td, sg.a, 1e-4, 1.0)
    ci = ints(c, c.call(lambda: b.bar_close_indices))
    r = c.xs(c.call(b.get_sigma))
    c.prove(len(r) == len(ci), 'one threshold per bar')
    for x, i in zip(r, ci):
        c.eq(x, sg.v[1] if i == 2 else sg.v[i], 'threshold in force at the close of the bar', obs=False)
    now = list(sg.a)
    c.prove(bool(now[2] != now[2]), 'the thresholds passed in are left alone')


def cases(tier):
    q = tier == 'quick'
    out = []
    SD = {3: [1, -1, 1], 4: [1, -1, -1, 1], 5: [1, -1, 0, -1, 1]}
    for kind in ('time', 'tick', 'volume', 'value', 'cusum'):
        n = (4 if q else 5) - (kind in ('volume', 'value', 'cusum'))
        sd = SD[n]
        for k, seq in enumerate(itertools.permutations(('ohlcv', 'dir', 'size'))):
            if q and kind in ('volume', 'value', 'cusum') and k % 2:
                continue
            out.append(dict(name=f'{kind}-{"-".join(seq)}', fn=run, params=dict(n=n, kind=kind, sides=sd, seq=seq[:2] + ('closes',) + seq[2:] + seq[:1]), weight=20))
        for seq in (('foot',), ('ohlcv', 'foot', 'dir', 'foot'), ('closes', 'foot', 'ohlcv')):
            if kind != 'value':
                out.append(dict(name=f'{kind}-{"-".join(seq)}', fn=run, params=dict(n=n, kind=kind, sides=sd, seq=seq, ticks=2), weight=30))
    out.append(dict(name='cusum-thresholds', fn=sigma, params=dict(n=3 if q else 4), weight=20))
    return out
