"""C27: returns and momentum over a lag."""
import math
import numpy as np
from finmlkit.feature.core import utils, momentum, reversion
from . import wiring
from .common import total, fmax, fmin

BOUNDS = ('up to 4 (quick) / 6 (thorough) samples; lagged returns: any non-decreasing int64 nanosecond timestamps around 1.7e18 with '
          'bit-exact int-to-float rounding, windows 1 us, 1 ms, 1 s, 1 h; lags 1..3; zero prices included where the code guards them; long inputs (40 to several hundred samples, concrete except at 1-3 symbolic positions)')
ASSUMPTIONS = ['logarithms strictly increasing with log 1 = 0, log(a/b) = log a - log b']
nan = math.nan
B0 = 1_700_000_000_123_456_789


def lagged(c, n, sec, is_log):
    if c.sym and not is_log:
        c.f64_ints = 'big'
    w = int(round(sec * 1e9))
    ts = c.iarr('ts', n, B0, B0 + 4 * w, sort='asc')
    p = c.parr('p', n) if is_log else c.farr('p', n, lo=1, hi=1000)
    r = c.xs(c.call(utils.comp_lagged_returns, ts.a, p.a, sec, is_log))
    c.prove(len(r) == n, 'one return per sample')
    for i in range(n):
        lag = -1
        for j in range(n):          # last sample at or before t_i - w
            if bool(ts.v[j] <= ts.v[i] - w):
                lag = j
        if lag < 0:
            c.eq(r[i], nan, 'no return without a sample at least one window back')
        elif is_log:
            c.eq(r[i], c.log(p.v[i]) - c.log(p.v[lag]), 'log return against the last sample at least one window back')
        else:
            c.eq(r[i] * p.v[lag], p.v[i] - p.v[lag], 'simple return against the last sample at least one window back')


def bad_window(c, sec):
    ts = c.iarr('ts', 2, B0, B0 + 10, sort='asc')
    p = c.parr('p', 2)
    r = c.call(utils.comp_lagged_returns, ts.a, p.a, sec, False, raises=(ValueError,))
    c.prove(isinstance(r, ValueError), 'a non-positive window is rejected')


def lag_zero(c, n):
    """zero prices"""
    p = c.farr('p', n, lo=0, hi=10)
    ts = c.iconst([B0 + k * 10 ** 9 for k in range(n)], np.int64)
    r = c.xs(c.call(utils.comp_lagged_returns, ts.a, p.a, 1.0, False))
    for i in range(1, n):
        if bool(p.v[i - 1] == 0):
            c.eq(r[i], math.inf, 'a return against a zero price is infinite')
        else:
            c.eq(r[i] * p.v[i - 1], p.v[i] - p.v[i - 1], 'one-sample return')


def pct(c, n, k):
    x = c.farr('x', n, lo=-10, hi=10)
    r = c.xs(c.call(utils.pct_change, x.a, k))
    c.prove(len(r) == n, 'one value per sample')
    for i in range(n):
        if i < k or not bool(x.v[i - k] > 0):
            c.eq(r[i], nan, 'relative change undefined without a positive base')
        else:
            c.eq(r[i] * x.v[i - k], x.v[i] - x.v[i - k], 'relative change against the base')


def roc(c, n, k):
    p = c.farr('p', n, lo=0.01, hi=1000)
    r = c.xs(c.call(momentum.roc, p.a, k))
    c.prove(len(r) == n, 'one value per sample')
    for i in range(n):
        if i < k:
            c.eq(r[i], nan, 'rate of change undefined before the lag')
        else:
            c.eq(r[i] * p.v[i - k], (p.v[i] - p.v[i - k]) * 100, 'rate of change in percent of the lagged price')


def stoch(c, n, w):
    h, l, cl = (c.farr(k, n, lo=1, hi=100) for k in 'hlc')
    r = c.xs(c.call(momentum.stoch_k, cl.a, l.a, h.a, w))
    c.prove(len(r) == n, 'one value per bar')
    for i in range(n):
        if i < w - 1:
            c.eq(r[i], nan, 'stochastic undefined before the window is full')
            continue
        lo, hi = fmin(c, l.v[i - w + 1:i + 1]), fmax(c, h.v[i - w + 1:i + 1])
        if bool(hi > lo):
            c.eq(r[i] * (hi - lo), (cl.v[i] - lo) * 100, 'position of the close in the range of the window')
        else:
            c.eq(r[i], nan, 'stochastic undefined without a range')


def vwapd(c, n, w, is_log):
    p = c.parr('p', n) if is_log else c.farr('p', n, lo=1, hi=100)
    v = c.farr('v', n, lo=0, hi=100)
    r = c.xs(c.call(reversion.vwap_distance, p.a, v.a, w, is_log))
    c.prove(len(r) == n, 'one value per bar')
    last = nan
    for i in range(n):
        if i < w - 1:
            c.eq(r[i], nan, 'distance undefined before the window is full')
            continue
        P, V = p.v[i - w + 1:i + 1], v.v[i - w + 1:i + 1]
        tv, pv = total(V), total([a * b for a, b in zip(P, V)])
        if bool(tv > 0):
            if not is_log:
                c.eq((r[i] + 1) * pv, p.v[i] * tv, 'distance of the close from the volume weighted price of the window')
            else:
                c.eq(r[i], c.log(p.v[i] * tv / pv), 'log distance of the close from the volume weighted price of the window', obs=False)
            last = r[i]
        else:
            c.eq(r[i], last, 'a window without volume repeats the last distance', obs=False)


def cases(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn, wt=1, **p):
        out.append(dict(name=name, fn=fn, params=p, weight=wt))
    for sec in ((1e-6, 1.0) if q else (1e-6, 1e-3, 1.0, 3600.0)):
        for lg in (False, True):
            add(f'lagged-{sec:g}-{"log" if lg else "simple"}', lagged, 9, n=3 if q else 4, sec=sec, is_log=lg)
    add('lagged-zero-window', bad_window, sec=0.0)
    add('lagged-negative-window', bad_window, sec=-1.0)
    add('lagged-zero-price', lag_zero, n=3)
    N = 4 if q else 6
    for k in (1, 2, 3):
        add(f'pct-{k}', pct, n=N, k=k)
        add(f'roc-{k}', roc, n=N, k=k)
        add(f'stoch-{k}', stoch, 6, n=N if q else 5, w=k)
        add(f'vwap-simple-{k}', vwapd, 5, n=N if q else 5, w=k, is_log=False)
        if k < 3 or not q:
            add(f'vwap-log-{k}', vwapd, 5, n=3 if q else 4, w=k, is_log=True)
    add('pct-long', pct, n=2, k=2)
    add('roc-long', roc, n=2, k=2)
    add('stoch-short', stoch, n=2, w=3)
    add('vwap-short', vwapd, n=2, w=3, is_log=False)

    def long(name, fn, at, fill={}, fix={}, rng={}, **p):      # long inputs: concrete except at a few positions
        out.append(dict(name=f'long-{name}', fn=fn, params=p, weight=40, thin=dict(at=at, fill=fill, fix=fix, rng=rng)))
    n, w = (150, 130) if q else (300, 260)
    long('lagged', lagged, {'ts': (n // 2,)}, n=60, sec=1e-6, is_log=False)
    long('pct', pct, (3, n - 2), n=n, k=w)
    long('roc', roc, (3, n - 2), n=n, k=w)
    long('stoch', stoch, {'l': (n // 2,)}, fill={'h': lambda i: 60 + i % 5, 'l': lambda i: 40 + i % 7, 'c': lambda i: 50 + i % 3}, n=n, w=w)
    long('stoch-high', stoch, {'h': (n // 2,)}, fill={'h': lambda i: 60 + i % 5, 'l': lambda i: 40 + i % 7, 'c': lambda i: 50 + i % 3}, n=n, w=20)
    long('vwap', vwapd, {'p': (n // 2,)}, n=n, w=w, is_log=False)
    return out + wiring.cases('C27', tier)
