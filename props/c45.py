"""C45: calculations leave the data they are given unchanged."""
import numpy as np
import pandas as pd
from finmlkit.bar import kit
from finmlkit.bar.data_model import TradesData
from finmlkit.feature.base import SISOTransform
from finmlkit.feature.kit import Feature, FeatureKit
from finmlkit.label.kit import TBMLabel, SampleWeights
from . import features as F
from .kernels import K
from .c36 import TR

BOUNDS = ('every compiled kernel on 3-6 elements, every transform in both implementations on tables of 4 rows with missing values, the four table builders of '
          'every bar type on 4 trades, preprocessing on 3 raw trades, labelling and weighting of 2-3 events; every input cell compared before and after')
ASSUMPTIONS = ['pandas operations called with inplace=False do not write to their input']
LABEL = 'the input is left as it was'


def arrays(x):
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (list, tuple)) or type(x).__name__ == 'List':
        return [a for y in x for a in arrays(y)]
    return []


def cellsof(a):
    return list(np.ndarray.view(a, np.ndarray).ravel())


def same(c, now, before, what=''):
    c.prove(len(now) == len(before), LABEL + what)
    for x, y in zip(now, before):
        if x is y:
            c.prove(True, LABEL + what)
        elif isinstance(x, (str, type(None), pd.Timestamp)) or isinstance(y, (str, type(None), pd.Timestamp)):
            c.prove(x == y, LABEL + what)
        else:
            c.eq(x, c.x(y), LABEL + what, 0, obs=False)


def snap(df):
    if isinstance(df, pd.Series):
        df = df.to_frame()
    return list(df.columns), df.index, [list(np.asarray(df[k], dtype=object) if not hasattr(df[k].values, 'raw') else df[k].values.raw) for k in df.columns]


def unchanged(c, df, s, what=''):
    t = snap(df)
    c.prove(t[0] == s[0], 'no column is added, removed or renamed' + what)
    c.prove(t[1].equals(s[1]), 'the index is left as it was' + what)
    for x, y in zip(t[2], s[2]):
        same(c, x, y, what)


def kernel(c, which, n):
    fn, args, _, _ = K[which]
    a = args(c, n)
    arrs = arrays(a)
    before = [cellsof(x) for x in arrs]
    c.call(fn, *a, raises=(ValueError, ZeroDivisionError))
    for x, y in zip(arrs, before):
        same(c, cellsof(x), y)


def transform(c, kind, n, backend):
    m = TR[kind]
    t = m[c.choice('variant', len(m))]()
    df, v = F.frame(c, n, ('a', 'p', 'q'), nans={'a': (1,)} if kind not in NO_NAN else None)
    for i in range(n):
        c.assume(c.And(v['p'][i] > v['q'][i], *([] if kind not in NO_NAN else [v['q'][i] > v['a'][i], v['q'][i] * 2 > v['a'][i] * 3])))
    s = snap(df)
    c.call(t, df, backend=backend)
    unchanged(c, df, s)


NO_NAN = {'candle', 'atr', 'adx', 'stoch', 'vwap', 'ext', 'park', 'burst'}


def trades(c, n, sided=True):
    ts = np.array([1_700_000_000 * 10 ** 9 + int(t * 10 ** 9) for t in (0, 0.5, 1, 3, 4)[:n]], dtype=np.int64)
    p, a = c.parr('p', n), c.farr('a', n, lo=0.1, hi=1000)
    return c.call(TradesData, ts, p.a, a.a, side=np.array([1, -1, 1, 1, -1][:n], dtype=np.int8), timestamp_unit='ns')


def builders(c, kind, n):
    from .c10 import maker
    td = trades(c, n)
    s = snap(td.data)
    b = maker(c, kind, td, n)
    if isinstance(c.call(b.build_ohlcv, raises=(ValueError,)), ValueError):         # no complete bar
        unchanged(c, td.data, s)
        return
    c.call(b.build_directional_features)
    th = c.fconst([1.0] * (len(b.bar_close_indices)))
    before = cellsof(th.a)
    c.call(b.build_trade_size_features, th.a)
    same(c, cellsof(th.a), before)
    unchanged(c, td.data, s)
    c.prove(b.trades_df is td.data, 'the builder works on the trades it was given')


def raw(c, n, mode, unit):
    f = {'s': 1, 'ms': 1000}[unit]
    k = c.choice('order', 3)
    ts = np.array([1_700_000_000 * f + x for x in ((0, 0, 1), (2, 1, 0), (1, 0, 1))[k]][:n], dtype=np.int64)
    ids = np.array([(1, 2, 3), (3, 1, 2), (2, 2, 1)][c.choice('ids', 3)][:n], dtype=np.int64)
    p, a = c.farr('p', n, lo=1, hi=1000), c.farr('a', n, lo=0.1, hi=1000)
    for i in range(n):
        for j in range(i):
            c.assume(c.Or(p.v[i] == p.v[j], p.v[i] - p.v[j] >= c.x(1e-6), p.v[j] - p.v[i] >= c.x(1e-6)))
    kw = {}
    if mode == 'maker':
        m = c.barr('maker', n)
        kw['is_buyer_maker'] = np.array([bool(x) for x in m.v])
    if mode == 'side':
        kw['side'] = np.array([1, -1, 1][:n], dtype=np.int8)
    arrs = [ts, p.a, a.a, ids] + list(kw.values())
    before = [cellsof(x) for x in arrs]
    d = c.call(TradesData, ts, p.a, a.a, ids, timestamp_unit=unit, preprocess=True, **kw)
    for x, y in zip(arrs, before):
        same(c, cellsof(x), y)
    s = snap(d.data)
    c.call(d.set_view_range, pd.Timestamp('2023-01-01'), pd.Timestamp('2024-01-01'))
    unchanged(c, d.data, s)


def labels(c, meta):
    td = trades(c, 4)
    ts = td.data.timestamp.values
    idx = pd.DatetimeIndex([pd.Timestamp(int(x)) for x in (1_700_000_000_000_000_000, 1_700_000_000_500_000_000)])
    r = c.farr('r', 2, lo=0.01, hi=1)
    x = c.farr('x', 2)
    feats = pd.DataFrame({'r': r.a, 'x': x.a, **({'side': np.array([1, -1])} if meta else {})}, index=idx)
    s, t = snap(feats), snap(td.data)
    lab = c.call(TBMLabel, feats, 'r', 0.0, (1.0, 1.0), pd.Timedelta(seconds=2), pd.Timedelta(0), is_meta=meta)
    f, out = c.call(lab.compute_labels, td)
    o = snap(out)
    w = c.call(lab.compute_weights, td)
    unchanged(c, out, o, ' (labels)')
    u = snap(w)
    vt = pd.Series(c.fconst([0.5, 1.0]).a, index=idx)
    v = snap(vt)
    c.call(SampleWeights.compute_final_weights, w['avg_uniqueness'], 0.5, None, vt, out['labels'], raises=(ValueError,))
    ra = pd.Series(c.farr('ra', 2, lo=0, hi=1).a, index=idx)
    q = snap(ra)
    c.call(SampleWeights.compute_final_weights, w['avg_uniqueness'], 0.5, ra, None, None, raises=(ValueError,))
    unchanged(c, w, u, ' (weights)')
    unchanged(c, vt, v, ' (touch weights)')
    unchanged(c, ra, q, ' (attribution)')
    unchanged(c, out, o, ' (labels)')
    unchanged(c, feats, s, ' (features)')
    unchanged(c, td.data, t, ' (trades)')


def features(c, n):
    df, v = F.frame(c, n, ('a', 'p', 'q'))
    feats = [Feature(F.tf.SMA(2, 'p')), Feature(F.tf.Identity('a')) * 2, Feature(F.tf.Lag(1, 'q')) + Feature(F.tf.Identity('p')), Feature(F.tf.Identity('a')).clip(-1, 1),
             Feature(F.tf.Identity('q')).rolling_sum(2)]
    for f, nm in zip(feats, 'uvwxy'):
        f.name = nm
    s = snap(df)
    k = FeatureKit(feats, retain=['a', 'q'])
    out = c.call(k.build, df, backend='nb')
    unchanged(c, df, s)
    for nm in list(out.columns):
        if nm in s[0]:
            same(c, snap(out[nm])[2][0], s[2][s[0].index(nm)], ' (retained)')




def cases(tier):
    out = []

    def add(name, fn, wt=10, **p):
        out.append(dict(name=name, fn=fn, params=p, weight=wt))
    for name, (fn, a, ns, wt) in K.items():
        for n in ns if tier == 'quick' else ns + (ns[-1] + 1,):
            add(f'{name}-{n}', kernel, wt, which=name, n=n)
    for k in TR:
        for b in ('nb', 'pd'):
            add(f'transform-{k}-{b}', transform, 15, kind=k, n=4, backend=b)
    for k in ('time', 'tick', 'volume', 'value', 'cusum'):
        add(f'bars-{k}', builders, 50, kind=k, n=4 if k not in ('cusum', 'value') else 3)
    for m in ('maker', 'side', None):
        add(f'raw-{m}', raw, 40, n=3, mode=m, unit='ms')
    add('raw-seconds', raw, 40, n=2, mode='maker', unit='s')
    add('labels', labels, 60, meta=False)
    add('labels-meta', labels, 60, meta=True)
    add('features', features, 20, n=4)
    return out
