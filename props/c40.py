"""C40: transforms evaluate their indicator on the named columns."""
import math
from fractions import Fraction
import numpy as np
import pandas as pd
from finmlkit.feature import transforms as tf
from . import wiring as W, features as F

BOUNDS = ('every transform that wraps a kernel, tables of 3-6 rows with unevenly spaced rows whose index has nanosecond to second resolution, with and '
          'without time zone; columns in another order than the transform takes them; kurtosis and trend slope over windows of 2-3, Hurst exponent of 3-6 rows, with missing values; both backends where the data-frame backend falls back on the kernel')
SINGLE = ('vpin',)        # VPIN is single precision by design
ASSUMPTIONS = ['square roots and logarithms are functions known only by their order', 'the kernels themselves are decided in C25-C27, C32, C33 and C39',
               'scipy\'s linear regression and kurtosis and numpy\'s straight-line fit are replaced by their textbook definition']


def defaults(c):
    """default column names, in the documented order"""
    for nm, make, cols, name in W.DEFAULTS:
        t = c.call(make)
        c.prove(list(t.requires) == cols, 'default input columns')
        if name:
            c.prove(t.output_name == '_'.join(cols) + '_' + name or name in t.output_name, 'output named after the indicator')


def missing_column(c):
    df, v, other, idx = W.table(c, [W.X], 3)
    for make in (lambda: tf.SMA(2, 'zz'), lambda: tf.VPIN(2, [W.X, 'zz']), lambda: tf.TimeCues('zz'), lambda: tf.CandleShape([W.X, W.X, W.X, W.X, 'zz']),
                 lambda: tf.Identity('zz'), lambda: tf.ExternalFunction(F.scaled, 'zz', args=[1])):
        for b in ('nb', 'pd'):
            c.prove(isinstance(c.call(make(), df, backend=b, raises=(ValueError, KeyError)), (ValueError, KeyError)), 'a table without a named column is refused')
    for make in (lambda: tf.SMA(2, W.X), lambda: tf.VPIN(2, [W.X, W.X])):
        c.prove(isinstance(c.call(make(), df, backend='other', raises=(ValueError, AssertionError)), (ValueError, AssertionError)), 'an unknown backend is refused')
        c.prove(isinstance(c.call(make(), df[W.X], raises=(TypeError,)), TypeError), 'an input that is no table is refused')
    bare = pd.DataFrame({W.X: v[W.X].a}, index=[0, 1, 2])
    for make in (lambda: tf.ReturnT(pd.Timedelta(seconds=1), input_col=W.X), lambda: tf.EWMST(pd.Timedelta(seconds=1), W.X), lambda: tf.TimeCues(W.X)):
        c.prove(isinstance(c.call(make(), bare, raises=(ValueError, TypeError)), (ValueError, TypeError)), 'a transform of time refuses a table without times')


def simple(c, n):
    """identity, lag and per-sample returns"""
    df, v, other, idx = W.table(c, [W.X, W.V], n)
    x = v[W.X].v
    for b in ('nb', 'pd'):
        r = c.call(tf.Identity(W.X), df, backend=b)
        c.prove(r.name == W.X, 'identity keeps the name')
        c.eqs(r, x, 'the column itself')
        for k in (1, 2):
            c.eqs(c.call(tf.Lag(k, W.X), df, backend=b), F.lag(c, x, k), 'the value k rows earlier')
            c.eqs(c.call(tf.Return(k, W.X), df, backend=b), F.ret(c, x, k, False), 'the relative change over k rows')
            c.eqs(c.call(tf.Return(k, W.X, True), df, backend=b), F.ret(c, x, k, True), 'the log change over k rows', obs=False)


def external(c, n, as_numpy):
    """an external function receives the named columns in order, then the arguments"""
    from . import c35
    df, v, other, idx = W.table(c, [W.X, W.V], n)
    x, y = v[W.X].v, v[W.V].v
    k = c.f('k', lo=-3, hi=3)
    r = c.call(tf.ExternalFunction(c35.diff, [W.X, W.V], 'd', pass_numpy=as_numpy), df)
    c.prove(r.name == 'd' and r.index.equals(idx), 'named column with the rows of the table')
    c.eqs(r, [a - b for a, b in zip(x, y)], 'the function of the columns in order')
    r = c.call(tf.ExternalFunction('props.c35.diff', [W.V, W.X], pass_numpy=as_numpy), df)
    c.prove(r.name == 'ext_diff' and r.index.equals(idx), 'named column with the rows of the table')
    c.eqs(r, [b - a for a, b in zip(x, y)], 'the function of the columns in order')
    r = c.call(tf.ExternalFunction(c35.two, W.X, ['s', 'm'], args=[k], pass_numpy=as_numpy), df)
    c.prove([s.name for s in r] == ['s', 'm'] and all(s.index.equals(idx) for s in r), 'one named column per output')
    c.eqs(r[0], [a + k for a in x], 'first output')
    c.eqs(r[1], [a * k for a in x], 'second output')
    r = c.call(tf.ExternalFunction(F.scaled, W.V, 'z', kwargs={'by': k}, pass_numpy=as_numpy), df)
    c.eqs(r, [b * k + 1 for b in y], 'keyword arguments')
    bad = c.call(tf.ExternalFunction(c35.two, W.X, ['s'], args=[k]), df, raises=(ValueError,))
    c.prove(isinstance(bad, ValueError), 'a wrong number of outputs is refused')
    c.eqs(df[W.X], x, 'the table is not modified', obs=False)


def ols(x, y):
    n = len(x)
    mx, my = Fraction(sum(x), n) if all(isinstance(e, int) for e in x) else sum(x[1:], x[0]) / n, sum(y[1:], y[0]) / n
    sxx = sum((a - mx) * (a - mx) for a in x)
    return sum(((a - mx) * (b - my) for a, b in zip(x, y)), 0 * my) / sxx


def holes(c, v, missing):
    for i in missing:
        v.a[i] = math.nan
    return [math.nan if i in missing else e for i, e in enumerate(v.v)]


FIXED = (2, -1, 3, -4, 1, 5, -2, 2, -3, 1, 4, -1)


def rolled(c, make, spec, n, w, missing=(), lo=1, hi=9, only=None):
    """a windowed indicator that is computed on the table: every full window without missing values"""
    x = c.farr('x', n, lo=lo, hi=hi)
    if only is not None:        # a single symbolic sample among fixed ones
        for i, e in enumerate(FIXED[:n]):
            if i != only:
                x.a[i] = float(e)
    v = holes(c, x, missing)
    if only is not None:
        v = [a if i == only else c.x(b) for i, (a, b) in enumerate(zip(v, FIXED))]
    idx = pd.DatetimeIndex(np.array(W.STAMPS[:n], dtype='datetime64[ns]'))
    df = pd.DataFrame({'other': x.a[::-1].copy(), 'x': x.a.copy()}, index=idx)
    t = make(w)
    for b in ('pd', 'nb'):
        r = c.call(t, df, backend=b)
        c.prove(r.name == t.output_name and r.index.equals(idx), 'named column with the rows of the table')
        for i, g in enumerate(r.to_numpy()):
            win = v[max(0, i - w + 1):i + 1]
            if len(win) < w or any(c.isnan(e) for e in win):
                c.prove(c.isnan(g), 'undefined until the window is full and complete')
            else:
                spec(c, win, g)


def trend(c, win, g):
    sl = ols(list(range(len(win))), [c.log(e) for e in win])
    c.eq(g, c.uf('degrees', c.uf('arctan', sl)) if not c.sym else c.uf('arctan', sl) * Fraction(180.0 / math.pi), 'angle of the least-squares slope of the log price', 1e-6, obs=False)


def kurt(c, win, g):
    n = len(win)
    m = sum(win[1:], win[0]) / n
    d = [(e - m) * (e - m) for e in win]
    m2 = sum(d[1:], d[0]) / n
    if m2 == 0:
        c.prove(c.isnan(g), 'no kurtosis of a constant window')
    else:
        c.prove(c.Not(c.isnan(g)), 'kurtosis of a window that varies')
        c.eq(g, sum((e * e for e in d[1:]), d[0] * d[0]) / n / (m2 * m2) - 3, 'fourth standardised moment minus three', 1e-5, obs=False)


def hurst(c, win, g):
    y, s = [], 0
    for e in win:
        s = s + e
        y.append(s)
    taus = []
    for k in (1, 2, 4, 8):
        if k < len(y):
            d = [y[i + k] - y[i] for i in range(len(y) - k)]
            m = sum(d[1:], d[0]) / len(d)
            taus.append((k, sum(((e - m) * (e - m) for e in d[1:]), (d[0] - m) * (d[0] - m)) / len(d)))
    if any(t <= 0 for k, t in taus):
        c.prove(c.isnan(g), 'no exponent when a lagged difference does not vary')
    else:
        c.eq(g, ols([c.log(c.x(k)) for k, t in taus], [c.log(c.sqrt(t)) for k, t in taus]), 'slope of log dispersion over log lag', 1e-5, obs=False)


def cases(tier):
    out = []
    for pid in W.E:
        out += W.cases(pid, tier, every=True)
    out.append(dict(name='defaults', fn=defaults, params={}, weight=1))
    out.append(dict(name='refused', fn=missing_column, params={}, weight=1))
    out.append(dict(name='simple', fn=simple, params=dict(n=4 if tier == 'quick' else 5), weight=1))
    for b in (False, True):
        out.append(dict(name=f'external-{"arrays" if b else "columns"}', fn=external, params=dict(n=3, as_numpy=b), weight=1))
    for w in (2, 3):
        for miss in ((), (1,)):
            out.append(dict(name=f'trend-{w}-{len(miss)}', fn=rolled, params=dict(make=lambda w: tf.TrendSlope(w, 'x'), spec=trend, n=w + 1 + 2 * len(miss), w=w, missing=miss)))
            out.append(dict(name=f'kurtosis-{w}-{len(miss)}', fn=rolled, params=dict(make=lambda w: tf.KurtosisTransform(w, 'x'), spec=kurt, n=w + 1 + 2 * len(miss), w=w, missing=miss, lo=-9)))
    for w in (3, 4, 6) if tier == "quick" else (3, 4, 5, 6, 7):
        out.append(dict(name=f'hurst-{w}', fn=rolled, params=dict(make=lambda w: tf.HurstExponent(w, 'x'), spec=hurst, n=w + (w < 6), w=w, lo=-9)))
    for w in (4, 6, 10):
        out.append(dict(name=f'hurst-{w}-one', fn=rolled, params=dict(make=lambda w: tf.HurstExponent(w, 'x'), spec=hurst, n=w, w=w, lo=-9, only=w // 2)))
    return out
