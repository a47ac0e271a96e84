"""C17: stored time bars, read back and resampled."""
import contextlib
import numpy as np
import pandas as pd
from finmlkit.bar.data_model import TradesData
from finmlkit.bar import io
from finmlkit.bar.kit import TimeBarKit
from .c16 import place

BOUNDS = ('2-4 (quick) / 5 (thorough) stored bars in one or two monthly groups at chosen times around interval, day and month boundaries; any prices, volumes '
          '(zero included), trade counts and medians; several target intervals and requested ranges (open, dates, instants); long inputs (40 to several hundred samples, concrete except at 1-3 symbolic positions)')
SINGLE = True        # amounts are stored in single precision by design
ASSUMPTIONS = ['the HDF5 library stores and returns tables faithfully (replays use real files)', 'bar times are those of one of the listed layouts']
COLS = ['open', 'high', 'low', 'close', 'volume', 'trades', 'median_trade_size', 'vwap']
T = pd.Timestamp


def col(c, a):
    return a.a if not c.sym else np.array(list(a.v), dtype=object)


def frame(c, k, times, zero, f32):
    n = len(times)
    ft = np.float32 if f32 else np.float64
    v = {}
    for nm in ('open', 'high', 'low', 'close', 'vwap'):
        v[nm] = c.farr(f'{nm}{k}', n, lo=1, hi=1000)
    v['volume'] = c.farr(f'volume{k}', n, lo=0 if zero else 0.01, hi=1000, dtype=ft)
    v['trades'] = c.iarr(f'trades{k}', n, 0 if zero else 1, 1000)
    v['median_trade_size'] = c.farr(f'med{k}', n, lo=0, hi=100)
    df = pd.DataFrame({nm: col(c, v[nm]) for nm in COLS}, index=pd.DatetimeIndex(times, name='timestamp'))
    return df, [dict(t=T(times[i]), **{nm: v[nm].v[i] for nm in COLS}) for i in range(n)]


def put(path, month, df):
    with pd.HDFStore(path, mode='a') as s:
        s.put(f'/klines/{month}', df, format='table', index=False)
        s.put(f'/klines_meta/{month}', pd.Series({'record_count': len(df), 'first_timestamp': df.index[0].value, 'last_timestamp': df.index[-1].value,
                                                   'original_trades_key': f'/trades/{month}'}), format='fixed')


def bounds(start, end):
    """inclusive range of a request"""
    s = None if start is None else T(start)
    e = None if end is None else T(end)
    if e is not None and e == e.normalize():
        e = e + pd.Timedelta(days=1) - pd.Timedelta(microseconds=1)
    return s, e


def groups(rows, tf):
    out = []
    for r in rows:
        g = r['t'].floor(tf)
        if not out or out[-1][0] != g:
            out.append((g, []))
        out[-1][1].append(r)
    return out


def wmedian(c, rs):
    """smallest size at which the cumulated number of trades reaches half"""
    rs = list(rs)
    o = []
    for r in rs:
        k = 0
        while k < len(o) and bool(o[k][0] <= r['median_trade_size']):
            k += 1
        o.insert(k, (r['median_trade_size'], r['trades']))
    tot = 0
    for _, w in o:
        tot = tot + w
    acc = 0
    for m, w in o:
        acc = acc + w
        if bool(acc * 2 >= tot):
            return m


def agg(c, rs, what):
    f = lambda nm: [r[nm] for r in rs]
    if what == 'open':
        return rs[0]['open']
    if what == 'close':
        return rs[-1]['close']
    if what in ('volume', 'trades'):
        return sum(f(what), 0)
    m = f(what)[0]
    for x in f(what)[1:]:
        m = c.max(m, x) if what == 'high' else c.min(m, x)
    return m


def read(c, layouts, tf, ranges, zero=False, f32=False, part='ohlcv'):
    lay = layouts[c.choice('layout', len(layouts))]
    start, end = ranges[c.choice('range', len(ranges))]
    with place(c) as path:
        rows = []
        for k, times in enumerate(lay):
            df, rs = frame(c, k, times, zero, f32)
            put(path, times[0][:7], df)
            rows += rs
        r = io.TimeBarReader(path)
        df = c.call(r.read, start, end, tf)
        s, e = bounds(start, end)
        rows = [x for x in rows if (s is None or x['t'] >= s) and (e is None or x['t'] <= e)]
        if not rows:
            c.prove(len(df) == 0, 'no bars outside the requested range')
            return
        if tf is None:
            c.prove([T(x) for x in df.index] == [x['t'] for x in rows], 'exactly the stored bars of the requested range')
            if len(df) == len(rows):
                for nm in COLS:
                    c.eqs(df[nm], [x[nm] for x in rows], 'stored values are returned unchanged')
            return
        gs = groups(rows, tf)
        if tf.upper().endswith('D') and end is not None and T(end) == T(end).normalize():
            # a final day which the stored bars do not cover to its end may be left out
            while gs and gs[-1][0] + pd.Timedelta(tf if tf[0].isdigit() else '1' + tf) > rows[-1]['t'] + pd.Timedelta(seconds=1):
                if [T(x) for x in df.index][-1:] == [gs[-1][0]]:
                    break
                gs.pop()
        c.prove([T(x) for x in df.index] == [g for g, _ in gs], 'one bar per interval that holds stored bars, none dropped')
        if len(df) != len(gs):
            return
        for i, (g, rs) in enumerate(gs):
            row = df.iloc[i]
            if part == 'ohlcv':
                for nm in ('open', 'high', 'low', 'close', 'volume', 'trades'):
                    c.eq(row[nm], agg(c, rs, nm), f'{nm} of the interval')
                vol = agg(c, rs, 'volume')
                if bool(vol == 0):
                    c.prove(c.isnan(c.x(row['vwap'])), 'no average price without volume')
                else:
                    tot = 0
                    for x in rs:
                        tot = tot + x['vwap'] * x['volume']
                    c.eq(row['vwap'] * vol, tot, 'average price is volume-weighted', 1e-5)
            else:
                c.eq(row['median_trade_size'], wmedian(c, rs), 'median trade size is the weighted median of the stored medians')


def stored(c, spelling, how):
    """bars written from stored trades are the bars of those trades"""
    with place(c) as path:
        secs = [0, 400, 1000, 2500]
        ts = np.array([T('2023-01-31 23:59:58').value + 10 ** 6 * s for s in secs], dtype=np.int64)
        n = len(secs)
        px, am = c.farr('p', n, lo=1, hi=1000), c.farr('a', n, lo=0.01, hi=1000)
        mk = lambda k: TradesData(ts[k:], px.a[k:], am.a[k:], np.arange(n - k), side=np.array([1, -1, 1, 1][k:], dtype=np.int8), timestamp_unit='ns', preprocess=True)
        c.call(c.call(mk, 1).save_h5, path, month_key='2023-01')
        key = '/trades/2023-01' if spelling else '2023-01'
        proc = c.call(io.AddTimeBarH5, path, None if how != 'list' else [key])
        run = (lambda ov: c.call(proc.process_key, key, ov)) if how == 'key' else (lambda ov: list(c.call(proc.process_all, ov).values()) == [True])
        c.prove(bool(run(False)), 'bars are added for a month that has none')
        c.call(c.call(mk, 0).save_h5, path, month_key='2023-01')
        ov = c.choice('overwrite', 2) == 1
        c.prove(bool(run(ov)) == ov, 'existing bars are rebuilt only on request')
        k = 0 if ov else 1
        want = c.call(TimeBarKit(c.call(TradesData.load_trades_h5, path, key='2023-01') if ov else mk(1), pd.Timedelta(seconds=1)).build_ohlcv)
        r = io.TimeBarReader(path)
        c.prove(list(c.call(r.list_keys)) == ['/klines/2023-01'], 'bars are stored under their month')
        df = c.call(r.read)
        c.prove([T(x) for x in df.index] == [T(x) for x in want.index], 'one stored bar per bar of the trades')
        if len(df) == len(want):
            for nm in COLS:
                c.eqs(df[nm], c.xs(want[nm]), 'stored bars are the bars of the trades')
        lo, hi = c.call(r._list_time_range)
        c.prove(lo == want.index[0] and hi == want.index[-1], 'the stored time range covers the bars')
        c.prove(sorted(c.call(io.H5Inspector(path).list_keys)) == ['/trades/2023-01'], 'the stored trades are untouched')


A = ['2023-01-30 23:59:58', '2023-01-30 23:59:59', '2023-01-31 00:00:00']
B = ['2023-01-31 23:59:58', '2023-01-31 23:59:59']
C = ['2023-02-01 00:00:00', '2023-02-01 00:00:01']


def cases(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn=read, wt=20, **p):
        out.append(dict(name=name, fn=fn, params=p, weight=wt))
    rg = [(None, None), ('2023-01-31', None), (None, '2023-01-31'), ('2023-01-31', '2023-01-31'), ('2023-01-30 23:59:59', '2023-01-31 23:59:58'),
          ('2023-02-01', '2023-02-01'), (None, '2023-01-30 23:59:58'), ('2023-03-01', None), (None, '2022-12-31')]
    for how in ('key', 'list', 'all'):
        for sp in (0, 1):
            add(f'stored-{how}-{sp}', stored, spelling=sp, how=how)
    add('range', layouts=[[A], [B, C]], tf=None, ranges=rg)
    for i, r in enumerate(rg[:6]):
        add(f'sec-{i}', layouts=[[A]], tf='2s', ranges=[r])
        add(f'sec2-{i}', layouts=[[B[1:], C[:1]]], tf='2s', ranges=[r])
        for tf in ('1D', 'D', '2D'):
            add(f'day-{tf}-{i}', layouts=[[A[1:]], [A[1:] + B[1:]], [B[1:], C[:1]], [['2023-01-31 12:00:00'], C[:1]]], tf=tf, ranges=[r])
    add('hour', layouts=[[['2023-01-31 00:59:59', '2023-01-31 01:00:00', '2023-01-31 01:00:01', '2023-01-31 03:00:00']]], tf='1h', ranges=[(None, None), ('2023-01-31', '2023-01-31')])
    add('zero', layouts=[[A], [B, C[:1]]], tf='1min', ranges=[(None, None)], zero=True)
    add('f32', layouts=[[A]], tf='5min', ranges=[(None, None)], f32=True)
    add('median', layouts=[[A], [B, C[:1]]], tf='1h', ranges=[(None, None)], part='median')
    add('median-zero', layouts=[[A[1:]]], tf='1D', ranges=[(None, None)], part='median', zero=True)

    def long(name, at, fill={}, fix={}, rng={}, **p):      # long inputs: concrete except at a few positions
        out.append(dict(name=f'long-{name}', fn=read, params=p, weight=40, thin=dict(at=at, fill=fill, fix=fix, rng=rng)))
    M = 90 if q else 400
    S = [str(x) for x in pd.date_range('2023-01-31 22:00:10', periods=M, freq='47s')]
    H = [str(x) for x in pd.date_range('2023-01-28 22:30:00', periods=M, freq='37min')]
    F = {'high0': [100 + i % 3 for i in range(M)], 'low0': [50 + i % 2 for i in range(M)], 'med0': [1 + i * 37 % M * 0.25 for i in range(M)], 'trades0': [1 + i // 2 % 3 for i in range(M)]}
    for part, at in (('ohlcv', {'high0': (20,), 'low0': (21,), 'vwap0': (8,), '*': ()}), ('median', {'med0': (20,), '*': ()}), ('median', {'trades0': (21,), '*': ()}), ('ohlcv', {'volume0': (20,), '*': ()})):
        nm = list(at)[0]
        for tf in ('10min', '1h'):
            long(f'sec-{tf}-{nm}', at, F, rng={'med0': (5, 8)}, layouts=[[S]], tf=tf, ranges=[(None, None), ('2023-01-31 22:20:00', None)], part=part)
        k = sum(x < '2023-02' for x in H)
        long(f'days-{nm}', at, F, rng={'med0': (5, 8)}, layouts=[[H[:k], H[k:]] if k < M else [H]], tf='1D', ranges=[(None, None), ('2023-01-29', '2023-01-30')], part=part)
    if not q:
        add('sec-two', wt=300, layouts=[[A], [B, C]], tf='2s', ranges=rg[:5])
        add('day-two', wt=300, layouts=[[A], [B, C]], tf='1D', ranges=rg[:6])
        add('min4', wt=300, layouts=[[['2023-01-30 23:59:57'] + A, ]], tf='1min', ranges=[(None, None)])
    return out
