"""C31: rolling and developing volume profiles."""
import math
import numpy as np
import pandas as pd
from finmlkit.feature.core import volume
from finmlkit.bar.data_model import FootprintData
from .common import total
from .c30 import greedy

BOUNDS = ('3-4 bars with concrete overlapping level ranges and symbolic buy/sell volumes, window lengths below, equal to and above the bar '
          'spacing, with and without bucketing, every start/end choice of the developing profile (whole-number volumes there); long inputs (40 to several hundred samples, concrete except at 1-3 symbolic positions)')
ASSUMPTIONS = ['float32 volumes are exact reals in the encoding; timestamps and price levels are concrete']
LEVELS = [[3, 4], [4, 5], [2, 3], [6]]
SMALL = [[3, 4], [5], [2]]
S9 = 10 ** 9
T0 = 1_700_000_000 * S9


def data(c, n, tick, sell=True, whole=False, levels=LEVELS):
    lv = levels[:n]
    if whole:
        arr = lambda nm, m: c.iarr(nm, m, 0, 50, dtype=np.int32)
    else:
        arr = lambda nm, m: c.farr(nm, m, lo=0, hi=50, dtype=np.float32)
    B = [arr(f'b{k}', len(l)) for k, l in enumerate(lv)]
    S = [arr(f's{k}', len(l)) if sell else c.fconst([0.0] * len(l), np.float32) for k, l in enumerate(lv)]
    L = [c.iconst(l, np.int32) for l in lv]
    hi = [l[-1] * tick for l in lv]
    lo = [l[0] * tick for l in lv]
    mk = (lambda x: x) if c.sym else volume.NumbaList
    return lv, B, S, mk([x.a for x in L]), mk([x.a for x in B]), mk([x.a for x in S]), np.array(hi), np.array(lo)


def profile(c, lv, B, S, ks, nbins, pct, trim):
    """(poc, hva, lva, share above) of the bars ks"""
    z = c.x(0.0)
    low, high = min(lv[k][0] for k in ks), max(lv[k][-1] for k in ks)
    P = list(range(low, high + 1))
    V = [total([B[k].v[lv[k].index(p)] + S[k].v[lv[k].index(p)] for k in ks if p in lv[k]], z) for p in P]
    if trim:
        if not bool(total(V) > 0):
            return None
        while bool(V[0] == 0):
            P, V = P[1:], V[1:]
        while bool(V[-1] == 0):
            P, V = P[:-1], V[:-1]
    if nbins is not None:
        n = len(P)
        w = max(1, (n - 1) // nbins)
        w += w % 2 == 0
        Q, U = [], []
        for k in range(0, n, w):
            U.append(total(V[k:k + w], z))
            Q.append(P[k] + (w - 1) // 2)
        P, V = Q, U
    tot = total(V)
    p, h, l = greedy(c, V, tot * c.x(pct / 100.0))
    return P[p], P[h], P[l], total(V[p + 1:], z), tot


def rolling(c, n, times, win, nbins, tick, sell, levels=LEVELS):
    lv, B, S, L, bv, sv, hi, lo = data(c, n, tick, sell, False, levels)
    ts = np.array([T0 + int(t * S9) for t in times[:n]], dtype=np.int64)
    r = c.call(volume.volume_profile_rolling, ts, hi, lo, L, bv, sv, win, nbins, tick, 75.0)
    poc, hva, lva, ab = (c.xs(x) for x in r)
    for i in range(n):
        if times[i] < times[0] + win:
            c.prove(all(c.x(x[i]) == 0 for x in (poc, hva, lva, ab)) if not c.sym else c.And(*[x[i] == 0 for x in (poc, hva, lva, ab)]),
                    'no profile before one full window')
            continue
        ks = [k for k in range(n) if times[i] - win <= times[k] <= times[i]]
        P, H, Lo, up, tot = profile(c, lv, B, S, ks, nbins, 75.0, False)
        c.eq(poc[i], P, 'point of control of the rolling window', 0)
        c.eq(hva[i], H, 'upper value area bound of the rolling window', 0)
        c.eq(lva[i], Lo, 'lower value area bound of the rolling window', 0)
        if bool(tot > 0):
            c.eq(ab[i] * tot, up, 'share above the point of control of the rolling window', 1e-5)
        else:
            c.eq(ab[i], 0, 'no volume, no share')


def developing(c, n, nbins, tick, sell, levels=LEVELS, span=None):
    lv, B, S, L, bv, sv, hi, lo = data(c, n, tick, sell, True, levels)
    ts = np.array([T0 + k * S9 for k in range(n)], dtype=np.int64)
    a = c.choice('first', n) if span is None else span[0]
    b = c.choice('last', n) if span is None else span[1]
    c.assume(a <= b)
    r = c.call(volume.volume_profile_developing, ts, hi, lo, L, bv, sv, int(ts[a]) - 5, int(ts[b]) + 5, nbins, tick, 75.0)
    c.eqs(r[0], [int(x) for x in ts[a:b + 1]], 'one profile per bar of the range', 0)
    poc, hva, lva = (c.xs(x) for x in r[1:4])
    c.prove(len(poc) == len(hva) == len(lva) == b - a + 1, 'one profile per bar of the range')
    for i in range(b - a + 1):
        pr = profile(c, lv, B, S, list(range(a, a + i + 1)), nbins, 75.0, True)
        if pr is None:
            c.prove(c.And(poc[i] == 0, hva[i] == 0, lva[i] == 0), 'no profile before the first trade of the range')
            continue
        P, H, Lo, up, tot = pr
        c.eq(poc[i], P, 'point of control of the bars so far', 0)
        c.eq(hva[i], H, 'upper value area bound of the bars so far', 0)
        c.eq(lva[i], Lo, 'lower value area bound of the bars so far', 0)


def pro(c, n, win, nbins, tick, rng, how='ts', reset=None):
    """public entry point: prices in quote units, undefined before the first full window"""
    lv, B, S, L, bv, sv, hi, lo = data(c, n, tick, False)
    ts = np.array([T0 + k * S9 for k in range(n)], dtype=np.int64)
    fp = FootprintData(bar_timestamps=ts, price_levels=L, price_tick=tick, buy_volumes=bv, sell_volumes=sv,
                       buy_ticks=[np.zeros(len(l), dtype=np.int32) for l in lv], sell_ticks=[np.zeros(len(l), dtype=np.int32) for l in lv],
                       buy_imbalances=[np.zeros(len(l), dtype=bool) for l in lv], sell_imbalances=[np.zeros(len(l), dtype=bool) for l in lv])
    bars = pd.DataFrame({'high': hi, 'low': lo}, index=pd.to_datetime(ts))
    if reset:    # constructed with other parameters, then reconfigured; what is not named keeps its value
        v = volume.VolumePro(pd.Timedelta(seconds=3 if reset == 'window' else win), None if reset == 'bins' else nbins, 50.0 if reset == 'area' else 75.0)
        c.call(v.reset_parameters, **{'window': dict(window_size_sec=win), 'bins': dict(n_bins=nbins), 'area': dict(va_pct=75.0)}[reset])
    else:
        v = volume.VolumePro(pd.Timedelta(seconds=win), nbins, 75.0)
    if rng is None:
        poc, hva, lva, ab = c.call(v.compute, bars, fp)
        first, got_ts = 0, ts
    else:
        a, b = rng
        got_ts, poc, hva, lva, ab = c.call(v.compute_range, bars, fp, *[{'ts': pd.Timestamp, 'int': int, 'text': lambda x: str(pd.Timestamp(x))}[how](int(ts[x])) for x in rng])
        first = max(0, a - int(win))
        c.prove([int(x) for x in got_ts] == [int(x) for x in ts[first:b + 1]], 'bars of the range and its warm-up')
    poc, hva, lva, ab = (c.xs(x) for x in (poc, hva, lva, ab))
    for i in range(len(got_ts)):
        k = first + i
        if i < win:
            c.prove(all(c.isnan(x[i]) for x in (poc, hva, lva)), 'undefined before one full window')
            continue
        ks = [j for j in range(first, k + 1) if k - win <= j]
        P, H, Lo, up, tot = profile(c, lv, B, S, ks, nbins, 75.0, False)
        for nm, got, w in (('point of control', poc, P), ('upper value area bound', hva, H), ('lower value area bound', lva, Lo)):
            c.eq(got[i], w * c.x(tick), f'{nm} in price units')
        c.eq(ab[i] * tot, up, 'share above the point of control')


def cases(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn, wt=1, **p):
        out.append(dict(name=name, fn=fn, params=p, weight=wt))
    for win in ((1, 1.5, 2) if q else (0.5, 1, 1.5, 2, 3)):
        for nb in (None, 2):
            add(f'rolling-w{win}-b{nb}', rolling, 5, n=3, times=[0, 1, 2.5, 3], win=win, nbins=nb, tick=0.5, sell=not q)
    add('rolling-irregular', rolling, 9, n=4, times=[0, 0, 1, 5], win=1, nbins=None, tick=1.0, sell=False)
    add('rolling-long', rolling, 1, n=3, times=[0, 1, 2], win=9, nbins=2, tick=1.0, sell=False)
    for nb in (None, 2):
        add(f'developing-b{nb}', developing, 9, n=3, nbins=nb, tick=0.5, sell=False, levels=SMALL if q else LEVELS)
    add('developing-sides', developing, 9, n=2, nbins=None, tick=1.0, sell=True)
    add('public', pro, 4, n=3, win=1, nbins=3, tick=0.5, rng=None)
    add('public-range', pro, 4, n=4, win=1, nbins=2, tick=0.5, rng=(2, 3))
    add('public-range-clipped', pro, 4, n=3, win=2, nbins=2, tick=0.5, rng=(1, 2))
    for how in ('int', 'text'):
        add(f'public-range-{how}', pro, 4, n=3, win=1, nbins=2, tick=0.5, rng=(1, 2), how=how)
    for r in ('window', 'bins', 'area'):
        add(f'public-reset-{r}', pro, 4, n=2, win=1, nbins=3, tick=0.5, rng=None, reset=r)
    def long(name, fn, at, fill={}, fix={}, rng={}, **p):      # long inputs: concrete except at a few positions
        out.append(dict(name=f'long-{name}', fn=fn, params=p, weight=40, thin=dict(at=at, fill=fill, fix=fix, rng=rng)))
    M = 40 if q else 150
    WALK = [list(range(50 + (k * 7) % 19 + k // 5, 50 + (k * 7) % 19 + k // 5 + 3 + k % 4)) for k in range(M)]
    TM = [k * 1.5 + (k // 6) * 0.5 for k in range(M)]
    fill = {f'{x}{k}': [float((k * 5 + j * 3 + (x == 's')) % 11) for j in range(9)] for k in range(M) for x in 'bs'}
    for nb in (None, 5, 27):
        long(f'rolling-{nb}', rolling, {f'b{M // 2}': (1,), '*': ()}, fill, n=M, times=TM, win=12, nbins=nb, tick=0.25, sell=True, levels=WALK)
        long(f'developing-{nb}', developing, {f'b{M // 2}': (1,), '*': ()}, fill, n=M, nbins=nb, tick=0.25, sell=True, levels=WALK, span=(3, M - 2))
    return out
