"""C38: the compiled and the data-frame implementation of a feature agree."""
import math
import numpy as np
import pandas as pd
from finmlkit.feature import transforms as tf
from . import wiring as W, features as F

BOUNDS = ('every transform that has both implementations (SMA, EWMA, percentage change, realised volatility, RSI, VPIN, price-volume correlation), tables of 3-6 rows '
          'with any positive values, windows 1-3 (shorter, equal and longer than the table) and the listed missing-value patterns')
SINGLE = True        # some indicators are single precision by design
ASSUMPTIONS = ["pandas' compiled rolling and exponential methods are replaced by their definition on symbolic columns", 'square roots are known only by their order',
               'percentage changes of positive values; volumes are zero or at least 0.001']
nan = math.nan


def both(c, make, cols, n, miss=(), zero=False, exact=True, fixed=None):
    v = {}
    for k in cols:
        m = [(k, i) in miss for i in range(n)]
        if fixed and k in fixed:
            v[k] = c.fconst([nan if m[i] else fixed[k][i] for i in range(n)])
        else:
            v[k] = c.farr(k, n, lo=0 if zero else 1, hi=9, nan=m)
            if zero:
                for i in range(n):
                    if not m[i]:
                        c.assume(c.Or(v[k].v[i] == 0, v[k].v[i] >= c.x(0.001)))
    idx = pd.DatetimeIndex(np.array(W.STAMPS[:n], dtype='datetime64[ns]'))
    df = pd.DataFrame({'first': c.farr('first', n, lo=1, hi=9).a, **{k: x.a for k, x in reversed(list(v.items()))}}, index=idx)
    c.feasible()
    a = c.call(make(), df, backend='nb')
    b = c.call(make(), df, backend='pd')
    c.prove(a.name == b.name and a.index.equals(idx) and b.index.equals(idx), 'the same name and rows')
    c.eqs(b, c.xs(a), 'the data-frame implementation gives the compiled values', 1e-5, obs=exact)
    for k in cols:
        c.eqs(df[k], v[k].v, 'the table is not modified', obs=False)


def column(c, vals):
    if c.sym:
        from sx.arr import SArr
        return SArr(list(vals), 'float64')
    return np.array([float(x) for x in vals])


def late(c, n, w, prices, volumes):
    """price-volume correlation at the bars with hard-coded values; volumes: None where symbolic"""
    p = c.fconst(prices)
    free = c.farr('v', n, lo=1, hi=9)
    vol = [free.v[i] if volumes[i] is None else c.x(float(volumes[i])) for i in range(n)]
    df = pd.DataFrame({W.C: p.a, W.V: column(c, vol)}, index=pd.date_range('2023-01-01', periods=n, freq='h'))
    a, b = (c.xs(c.call(tf.PriceVolumeCorrelation(w, [W.C, W.V]), df, backend=k)) for k in ('nb', 'pd'))
    whole = n >= 10 and w == 4 and list(prices) == sorted(prices) and (bool(c.And(*[x <= y for x, y in zip(vol, vol[1:])])) or bool(c.And(*[x >= y for x, y in zip(vol, vol[1:])])))
    for i in range(n):
        K = range(max(i - w, -1) + 1, i)
        up = i >= w and all(prices[k + 1] > prices[k] for k in K)
        one = up and (bool(c.And(*[vol[k + 1] > vol[k] for k in K])) or bool(c.And(*[vol[k + 1] < vol[k] for k in K])))
        if whole and i >= 4:
            lab = 'implementations agree on ten or more rising prices with monotone volume and a window of 4'
        elif one and 4 <= i < 10:
            lab = 'implementations agree at bars 4 to 9 of steadily rising prices with monotone volume'
        else:
            lab = 'the data-frame implementation gives the compiled values'
        c.eq(b[i], a[i], lab, 1e-5, obs=False)


def cases(tier):
    q = tier == 'quick'
    out = []

    def add(name, make, cols, n, wt=2, **p):
        out.append(dict(name=name, fn=both, params=dict(make=make, cols=cols, n=n, **p), weight=wt))
    X, P, V = W.X, W.C, W.V
    for m in ((), (0,), (1,), (2,), (0, 1), (1, 3)):
        miss = [(X, i) for i in m]
        tag = '-'.join(map(str, m)) or 'none'
        for w in (1, 2, 3):
            add(f'sma-{w}-{tag}', lambda w=w: tf.SMA(w, X), [X], 5, miss=miss)
            add(f'ewma-{w}-{tag}', lambda w=w: tf.EWMA(w, X), [X], 5, miss=miss)
            add(f'change-{w}-{tag}', lambda w=w: tf.PctChange(w, X), [X], 5, miss=miss)
            for s in (False, True):
                add(f'realised-{w}-{s}-{tag}', lambda w=w, s=s: tf.RealizedVolatility(w, s, X), [X], 4, miss=miss, exact=False)
    for w in (1, 2, 3):
        add(f'rsi-{w}', lambda w=w: tf.RSIWilder(w, X), [X], w + 2 if q else w + 3)
        add(f'sma-short-{w}', lambda w=w: tf.SMA(w, X), [X], w - 1 or 1)
        add(f'change-short-{w}', lambda w=w: tf.PctChange(w, X), [X], w)
        for m in ((), ((V, 0),), ((V, 1),), ((X, 2),), ((X, 1), (V, 3))):
            add(f'vpin-{w}-' + ('-'.join(f'{k}{i}' for k, i in m) or 'none'), lambda w=w: tf.VPIN(w, [V, X]), [V, X], 5 if q else 6, miss=m, zero=True)
    for w, n in ((2, 2), (3, 2), (3, 3)):
        add(f'rsi-short-{w}-{n}', lambda w=w: tf.RSIWilder(w, X), [X], n)
        add(f'realised-short-{w}-{n}', lambda w=w: tf.RealizedVolatility(w, True, X), [X], n, exact=False)
        add(f'vpin-short-{w}-{n}', lambda w=w: tf.VPIN(w, [V, X]), [V, X], n)
    add('correlation-2', lambda: tf.PriceVolumeCorrelation(2, [P, V]), [P, V], 4, 8, exact=False)
    add('correlation-3', lambda: tf.PriceVolumeCorrelation(3, [P, V]), [P, V], 4, 8, exact=False, fixed={P: [2.0, 4.0, 3.0, 9.0]})
    add('correlation-short', lambda: tf.PriceVolumeCorrelation(3, [P, V]), [P, V], 3, 8, exact=False)
    for m in (((P, 0),), ((P, 1),), ((V, 1),), ((V, 2),), ((V, 3),)):
        add('correlation-missing-' + '-'.join(f'{k}{i}' for k, i in m), lambda: tf.PriceVolumeCorrelation(3, [P, V]), [P, V], 4, 8, exact=False, fixed={P: [2.0, 4.0, 3.0, 9.0]}, miss=m)
    add2 = lambda name, **p: out.append(dict(name=name, fn=late, params=p, weight=8))
    add2('correlation-late', n=6, w=2, prices=[2.0, 3.0, 5.0, 6.0, 9.0, 8.0], volumes=[3, 5, 4, None, None, None])
    add2('correlation-late-3', n=6, w=3, prices=[9.0, 3.0, 5.0, 6.0, 9.0, 12.0], volumes=[3, 5, 4, 6, None, None])
    add2('correlation-late-4', n=11, w=4, prices=[2.0, 3.0, 5.0, 6.0, 7.0, 9.0, 10.0, 12.0, 13.0, 17.0, 18.0], volumes=[1, 2, 2.5, 3, 3.5, 4, 5, 6, 6.5, 7, None])
    return out
