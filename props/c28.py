"""C28: bounded indicators never leave their range."""
import math
import numpy as np
import pandas as pd
from finmlkit.feature import transforms as tf
from finmlkit.feature.core import momentum, trend, volume, correlation
from .common import total

BOUNDS = ('RSI up to 5 (7) closes, stochastic 4 (5) bars, ADX 4 (5) bars, VPIN 4 (5) bars, correlation 3 (4) bars with windows 2..3, '
          'share above the point of control 4 (5) levels')
ASSUMPTIONS = ['bars are consistent: low <= close <= high; square roots are exact']


def inside(c, v, lo, hi, label):
    if c.isnan(v):
        c.prove(True, label)
    else:
        e = 0 if c.sym else 1e-4
        c.prove(c.And(v >= lo - e, v <= hi + e), label)


def rsi(c, n, w):
    p = c.farr('p', n, lo=0, hi=1000)
    for v in c.xs(c.call(momentum.rsi_wilder, p.a, w)):
        inside(c, v, 0, 100, 'relative strength lies in [0, 100]')


def bars(c, n):
    h, l, cl = (c.farr(k, n, lo=1, hi=100) for k in 'hlc')
    for i in range(n):
        c.assume(c.And(l.v[i] <= cl.v[i], cl.v[i] <= h.v[i]))
    return h, l, cl


def stoch(c, n, w):
    h, l, cl = bars(c, n)
    for v in c.xs(c.call(momentum.stoch_k, cl.a, l.a, h.a, w)):
        inside(c, v, 0, 100, 'stochastic lies in [0, 100]')


def adx(c, n, w):
    h, l, cl = bars(c, n)
    for v in c.xs(c.call(trend.adx_core, h.a, l.a, cl.a, w)):
        inside(c, v, 0, 100, 'trend strength lies in [0, 100]')


def vpin(c, n, w):
    b, s = c.farr('b', n, lo=0, hi=100), c.farr('s', n, lo=0, hi=100)
    for v in c.xs(c.call(volume.vpin, b.a, s.a, w)):
        inside(c, v, 0, 1, 'order-flow toxicity lies in [0, 1]')


def corr(c, n, w):
    p, v = c.farr('p', n, lo=1, hi=100), c.farr('v', n, lo=0, hi=100)
    for x in c.xs(c.call(correlation.rolling_price_volume_correlation, p.a, v.a, w)):
        inside(c, x, -1, 1, 'correlation lies in [-1, 1]')


def share(c, n):
    v = c.farr('v', n, lo=0, hi=100)
    lv = c.iconst(list(range(n)), np.int32)
    k = c.i('poc', -1, n)
    x = c.xs([c.call(volume.calc_volume_percentage_above_poc, lv.a, v.a, k)])[0]
    inside(c, x, 0, 1, 'share of volume above the point of control lies in [0, 1]')


def transform(c, make, n, hi, what):
    """the range holds for the feature computed on a table"""
    from . import wiring as W
    h, l, x = bars(c, n)
    b, s = c.farr('b', n, lo=0, hi=100), c.farr('s', n, lo=0, hi=100)
    df = pd.DataFrame({'l': l.a, 's': s.a, 'x': x.a, 'h': h.a, 'b': b.a}, index=pd.DatetimeIndex(np.array(W.STAMPS[:n], dtype='datetime64[ns]')))
    for v in c.xs(c.call(make(), df)):
        inside(c, v, 0, hi, what)


def cases(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn, wt=1, **p):
        out.append(dict(name=name, fn=fn, params=p, weight=wt))
    for w in (1, 2, 3):
        add(f'rsi-{w}', rsi, 3, n=w + 2 if q else w + 4, w=w)
        add(f'stochastic-{w}', stoch, 3, n=4 if q else 5, w=w)
        add(f'vpin-{w}', vpin, 3, n=4 if q else 6, w=w)
    add('adx-1', adx, 5, n=3, w=1)
    add('adx-2', adx, 9, n=4 if q else 5, w=2)
    add('correlation-2', corr, 5, n=3 if q else 4, w=2)
    add('correlation-3', corr, 9, n=4, w=3)
    for n in ((1, 3, 4) if q else (1, 3, 5)):
        add(f'share-above-{n}', share, n=n)
    for nm, make, n, hi in (('stochastic', lambda: tf.StochK(2, ['h', 'l', 'x']), 3, 100), ('rsi', lambda: tf.RSIWilder(2, 'x'), 4, 100), ('adx', lambda: tf.ADX(1, ['h', 'l', 'x']), 3, 100),
                            ('vpin', lambda: tf.VPIN(2, ['b', 's']), 4, 1)):
        add(f'transform-{nm}', transform, 3, make=make, n=n, hi=hi, what='the feature stays in its range')
    return out
