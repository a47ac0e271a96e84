"""C15: the footprint container."""
import itertools
import numpy as np
import pandas as pd
from finmlkit.bar.data_model import FootprintData

BOUNDS = ('1-3 bars (quick) / 4 (thorough) of 1-2 price levels in every arrangement (equal and unequal numbers of levels), symbolic volumes, ticks and flags; '
          'every slice start, stop and step, every two-sided time slice on and between bar times; every subset of lists one element short or long')
SINGLE = True        # amounts are stored in single precision by design
ASSUMPTIONS = ['float32 volumes are exact reals in the encoding']
T0 = pd.Timestamp('2023-06-30 23:59:58').value
S9 = 10 ** 9
LISTS = ['price_levels', 'buy_volumes', 'sell_volumes', 'buy_ticks', 'sell_ticks', 'buy_imbalances', 'sell_imbalances']
PER_BAR = ['buy_imbalances_sum', 'sell_imbalances_sum', 'cot_price_levels', 'imb_max_run_signed', 'vp_skew', 'vp_gini']
DT = dict(price_levels=np.int32, buy_volumes=np.float32, sell_volumes=np.float32, buy_ticks=np.int32, sell_ticks=np.int32, buy_imbalances=bool,
          sell_imbalances=bool)


def arr(c, vals, dt):
    if c.sym:
        from sx.arr import SArr
        return SArr(list(vals), dt)
    return np.array([bool(v) if dt is bool else v for v in vals], dtype=dt)


def content(c, counts):
    n = len(counts)
    ts = np.array([T0 + k * S9 for k in range(n)], dtype=np.int64)
    v = {}
    for nm in LISTS:
        v[nm] = []
        for b, m in enumerate(counts):
            if nm == 'price_levels':
                v[nm].append([100 + 3 * b + j for j in range(m)])
            elif 'volumes' in nm:
                v[nm].append(list(c.farr(f'{nm}{b}', m, lo=0, hi=100, dtype=np.float32).v))
            elif 'ticks' in nm:
                v[nm].append(list(c.iarr(f'{nm}{b}', m, 0, 1000).v))
            else:
                v[nm].append(list(c.barr(f'{nm}{b}', m).v))
    for nm in PER_BAR:
        v[nm] = list(c.farr(nm, n, lo=-1, hi=1).v) if nm.startswith('vp') else list(c.iarr(nm, n, 0, 100).v)
    return ts, v


def build(c, ts, v, tick=0.5):
    L = {nm: [arr(c, x, DT[nm]) for x in v[nm]] for nm in LISTS}
    data = (ts, *[L[nm] for nm in LISTS], *[arr(c, v[nm], np.float64 if nm.startswith('vp') else np.int32) for nm in PER_BAR])
    return c.call(FootprintData.from_numba, data, tick)


def same(c, fp, ts, v, ks, tick=0.5, dtypes=False, what='a slice'):
    c.prove([int(x) for x in fp.bar_timestamps] == [int(ts[k]) for k in ks], f'{what} keeps the bar times')
    if len(fp.bar_timestamps) != len(ks):
        return
    c.prove(len(fp) == len(ks), 'length is the number of bars')
    c.prove(float(fp.price_tick) == tick, 'tick size is kept')
    for nm in LISTS:
        a = getattr(fp, nm)
        c.prove(len(a) == len(ks), f'{what} keeps one {nm} list per bar')
        if len(a) != len(ks):
            continue
        for i, k in enumerate(ks):
            c.eqs(a[i], v[nm][k], f'{what} keeps the {nm} of each bar')
            if dtypes:
                c.prove(np.dtype(a[i].dtype) == np.dtype(DT[nm]), f'{nm} keeps its numeric type')
    for nm in PER_BAR:
        c.eqs(getattr(fp, nm), [v[nm][k] for k in ks], f'{what} keeps the {nm} of each bar')
    c.prove(bool(fp.is_valid()), 'a container cut from a valid one is valid')


def position(c, counts, steps):
    ts, v = content(c, counts)
    n = len(counts)
    fp = build(c, ts, v)
    a = [None] + list(range(-n - 1, n + 2))
    s, e = a[c.choice('start', len(a))], a[c.choice('stop', len(a))]
    st = steps[c.choice('step', len(steps))]
    r = c.call(fp.__getitem__, slice(s, e, st))
    same(c, r, ts, v, list(range(n))[slice(s, e, st)])
    same(c, fp, ts, v, list(range(n)), what='the original after slicing')


def by_time(c, counts, text):
    ts, v = content(c, counts)
    n = len(counts)
    fp = build(c, ts, v)
    at = [T0 + k * S9 // 2 for k in range(-1, 2 * n)]
    s, e = at[c.choice('start', len(at))], at[c.choice('stop', len(at))]
    c.assume(s <= e)
    f = (lambda x: str(pd.Timestamp(x))) if text == 'iso' else (lambda x: pd.Timestamp(x)) if text == 'stamp' else (lambda x: pd.Timestamp(x).to_pydatetime())
    lo, hi = s, e
    if text == 'iso':
        # a text without a fraction means the whole second
        hi = e if e % S9 else e + S9 - 1
    r = c.call(fp.__getitem__, slice(f(s), f(e)))
    same(c, r, ts, v, [k for k in range(n) if lo <= int(ts[k]) <= hi], what='a time slice')


def by_day(c, counts):
    """dates mean whole days"""
    ts, v = content(c, counts)
    n = len(counts)
    fp = build(c, ts, v)
    days = ['2023-06-29', '2023-06-30', '2023-07-01', '2023-07-02']
    s, e = days[c.choice('start', 4)], days[c.choice('stop', 4)]
    c.assume(s <= e)
    r = c.call(fp.__getitem__, slice(s, e))
    same(c, r, ts, v, [k for k in range(n) if pd.Timestamp(s) <= pd.Timestamp(int(ts[k])) < pd.Timestamp(e) + pd.Timedelta(days=1)], what='a date slice')


def table(c, counts, tick):
    ts, v = content(c, counts)
    fp = build(c, ts, v, tick)
    df = c.call(fp.get_df)
    rows = [(k, j) for k in range(len(counts)) for j in reversed(range(counts[k]))]
    c.prove(len(df) == len(rows), 'one row per bar and level')
    if len(df) != len(rows):
        return
    c.prove([int(x[0]) for x in df.index] == [k for k, _ in rows], 'rows carry their bar')
    c.prove([pd.Timestamp(x[1]).value for x in df.index] == [int(ts[k]) for k, _ in rows], 'rows carry the time of their bar')
    c.eqs(df['price_level'], [c.x(v['price_levels'][k][j]) * c.x(tick) for k, j in rows], 'price = level times tick size, from the highest level down')
    for nm, src in (('sell_ticks', 'sell_ticks'), ('buy_ticks', 'buy_ticks'), ('sell_volume', 'sell_volumes'), ('buy_volume', 'buy_volumes'),
                    ('sell_imbalance', 'sell_imbalances'), ('buy_imbalance', 'buy_imbalances')):
        c.eqs(df[nm], [v[src][k][j] for k, j in rows], f'{nm} of the level')


def casts(c, counts, order):
    """switching between list kinds changes nothing"""
    ts, v = content(c, counts)
    fp = build(c, ts, v)
    same(c, fp, ts, v, list(range(len(counts))), dtypes=True, what='a container')
    for o in order:
        c.call(fp.cast_to_numba_list if o == 'l' else fp.cast_to_numpy)
        same(c, fp, ts, v, list(range(len(counts))), dtypes=True, what='a converted container')


def valid(c, n):
    k = {nm: c.choice(nm, 3) - 1 for nm in LISTS}
    ts = np.array([T0 + i for i in range(n)], dtype=np.int64)
    fp = FootprintData(bar_timestamps=ts, price_tick=1.0, **{nm: [np.zeros(1, dtype=DT[nm])] * (n + k[nm]) for nm in LISTS})
    c.prove(bool(fp.is_valid()) == (not any(k.values())), 'valid exactly when every list has one entry per bar')


def refused(c, short):
    ts, v = content(c, [1, 2])
    v = dict(v)
    v[short] = v[short][:1]
    L = {nm: [arr(c, x, DT[nm]) for x in v[nm]] for nm in LISTS}
    r = c.call(FootprintData.from_numba, (ts, *[L[nm] for nm in LISTS], *[arr(c, v[nm], np.float64) for nm in PER_BAR]), 1.0, raises=(ValueError,))
    c.prove(isinstance(r, ValueError), 'lists of different length are refused')


def cases(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn, wt=10, **p):
        out.append(dict(name=name, fn=fn, params=p, weight=wt))
    lays = [[1], [2], [1, 2], [2, 2], [2, 1, 1], [1, 1, 1]] + ([] if q else [[1, 2, 1, 2], [2, 2, 2, 2]])
    for l in lays:
        nm = ''.join(map(str, l))
        add(f'position-{nm}', position, 20 * len(l), counts=l, steps=[None, 1, 2, -1])
        for text in ('iso', 'stamp', 'datetime'):
            add(f'time-{text}-{nm}', by_time, counts=l, text=text)
        add(f'day-{nm}', by_day, counts=l)
        for t in (0.5, 0.25):
            add(f'table-{t}-{nm}', table, counts=l, tick=t)
        add(f'casts-{nm}', casts, counts=l, order='lnln')
    add('valid-1', valid, 60, n=1)
    add('valid-2', valid, 60, n=2)
    for nm in LISTS:
        add(f'refused-{nm}', refused, short=nm)
    return out
