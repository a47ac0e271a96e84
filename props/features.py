"""Feature expressions used by C34-C36: built with the library's operators, and evaluated
separately on lists of exact numbers."""
import math
import numpy as np
import pandas as pd
from finmlkit.feature import kit, transforms as tf
from finmlkit.feature.kit import Feature
from .common import total

nan = math.nan
DAYS = pd.date_range('2023-01-02', periods=12, freq='D')


def days(n):
    return DAYS[:n] if n <= 12 else pd.date_range('2023-01-02', periods=n, freq='D')


def frame(c, n, cols=('a', 'p'), nans=None):
    """a table with symbolic values; nans maps a column to its missing positions"""
    lo = {'a': -5, 'p': 1, 'q': 1}
    hi = {'a': 5, 'p': 9, 'q': 9}
    v = {k: c.farr(k, n, lo=lo[k], hi=hi[k], nan=[i in (nans or {}).get(k, ()) for i in range(n)]) for k in cols}
    return pd.DataFrame({k: x.a for k, x in v.items()}, index=DAYS[:n]), {k: x.v for k, x in v.items()}


def untouched(c, df, v, n, what='the input table is not modified'):
    c.prove(list(df.columns) == list(v) and df.index.equals(DAYS[:n]), what)
    for k in v:
        c.prove(df[k].name == k, what)
        c.eqs(df[k], v[k], what, 0, obs=False)


def missing(x):
    return isinstance(x, float) and x != x


def lift1(f):
    return lambda c, v, *a: [nan if missing(x) else f(c, x, *a) for x in v]


def lift2(f):
    return lambda c, u, v: [nan if missing(x) or missing(y) else f(c, x, y) for x, y in zip(u, v)]


def quo(c, x, y):
    c.assume(c.Not(y == 0))
    c.feasible()
    return x / y


def window(f, need=None):
    def g(c, v, w):
        out = []
        for i in range(len(v)):
            s = v[max(0, i - w + 1):i + 1]
            out.append(nan if i < w - 1 or any(missing(x) for x in s) else f(c, s))
        return out
    return g


def mean(c, s):
    return total(s) / c.x(float(len(s)))


def std(c, s):
    m = mean(c, s)
    return nan if len(s) < 2 else c.sqrt(total([(x - m) * (x - m) for x in s]) / c.x(float(len(s) - 1)))


def ema(c, v, span, adjust):
    """weights (1-a)^age over the present values (adjusted), or the recursive average"""
    b = c.x(float(span - 1)) / c.x(float(span + 1))
    pw = lambda k: total([], c.x(1.0)) if k == 0 else pw(k - 1) * b
    out = []
    for i in range(len(v)):
        idx = [j for j in range(i + 1) if not missing(v[j])]
        if not idx:
            out.append(nan)
        elif adjust:
            out.append(total([v[j] * pw(i - j) for j in idx], c.x(0.0)) / total([pw(i - j) for j in idx], c.x(0.0)))
        else:
            y = v[idx[0]]
            last = idx[0]
            for j in idx[1:]:
                o = pw(j - last)
                a = c.x(1.0) - b
                y = (y * o + v[j] * a) / (o + a)
                last = j
            out.append(y)
    return out


def lag(c, v, k):
    return [v[i - k] if 0 <= i - k < len(v) else nan for i in range(len(v))]


def clipped(c, x, lo, hi):
    if hi is not None:
        x = c.min(x, c.x(hi))
    if lo is not None:
        x = c.max(x, c.x(lo))
    return x


def positive(c, x, f, bound=0, strict=True):
    ok = bool(x > bound) if strict else bool(x >= bound)
    return f(x) if ok else nan


# name -> (build on Features, evaluate on lists)
UN = {
    'abs()': (lambda f: abs(f), lambda c, v: lift1(lambda c, x: c.max(x, -x))(c, v)),
    '.abs': (lambda f: f.abs(), lambda c, v: lift1(lambda c, x: c.max(x, -x))(c, v)),
    'clip both': (lambda f: f.clip(-1.5, 2), lambda c, v: lift1(clipped)(c, v, -1.5, 2.0)),
    'clip low': (lambda f: f.clip(lower=0.5), lambda c, v: lift1(clipped)(c, v, 0.5, None)),
    'clip high': (lambda f: f.clip(upper=0), lambda c, v: lift1(clipped)(c, v, None, 0.0)),
    'log': (lambda f: f.log(), lambda c, v: lift1(lambda c, x: positive(c, x, c.log))(c, v)),
    'log1p': (lambda f: f.log1p(), lambda c, v: lift1(lambda c, x: positive(c, x, lambda y: c.log(y + 1), strict=False))(c, v)),
    'exp': (lambda f: f.exp(), lambda c, v: lift1(lambda c, x: c.exp(x))(c, v)),
    'square': (lambda f: f.square(), lambda c, v: lift1(lambda c, x: x * x)(c, v)),
    'sqrt': (lambda f: f.sqrt(), lambda c, v: lift1(lambda c, x: positive(c, x, c.sqrt, strict=False))(c, v)),
    'rolling_mean': (lambda f: f.rolling_mean(2), lambda c, v: window(mean)(c, v, 2)),
    'rolling_sum': (lambda f: f.rolling_sum(2), lambda c, v: window(lambda c, s: total(s))(c, v, 2)),
    'rolling_std': (lambda f: f.rolling_std(2), lambda c, v: window(std)(c, v, 2)),
    'ema': (lambda f: f.ema(3), lambda c, v: ema(c, v, 3, True)),
    'ema recursive': (lambda f: f.ema(3, adjust=False), lambda c, v: ema(c, v, 3, False)),
    'lag': (lambda f: f.lag(1), lambda c, v: lag(c, v, 1)),
    'lag 2': (lambda f: f.lag(2), lambda c, v: lag(c, v, 2)),
    'apply': (lambda f: f.apply(scaled, 3, suffix='scaled'), lambda c, v: lift1(lambda c, x: x * 3 + 1)(c, v)),
    'apply kw': (lambda f: f.apply(scaled, by=2), lambda c, v: lift1(lambda c, x: x * 2 + 1)(c, v)),
    'apply same': (lambda f: f.apply(lambda s: s, suffix='same'), lambda c, v: v),
    '+c': (lambda f: f + 2, lambda c, v: lift1(lambda c, x: x + 2)(c, v)),
    'c+': (lambda f: 0.5 + f, lambda c, v: lift1(lambda c, x: x + c.x(0.5))(c, v)),
    '-c': (lambda f: f - 1.5, lambda c, v: lift1(lambda c, x: x - c.x(1.5))(c, v)),
    'c-': (lambda f: 3 - f, lambda c, v: lift1(lambda c, x: 3 - x)(c, v)),
    '*c': (lambda f: f * -2, lambda c, v: lift1(lambda c, x: x * -2)(c, v)),
    'c*': (lambda f: 4 * f, lambda c, v: lift1(lambda c, x: x * 4)(c, v)),
    '/c': (lambda f: f / 4, lambda c, v: lift1(lambda c, x: x / c.x(4.0))(c, v)),
    'c/': (lambda f: 2 / f, lambda c, v: lift1(lambda c, x: quo(c, c.x(2.0), x))(c, v)),
    'min c': (lambda f: Feature.min(f, 1), lambda c, v: lift1(lambda c, x: c.min(x, c.x(1)))(c, v)),
    'c min': (lambda f: Feature.min(-1.5, f), lambda c, v: lift1(lambda c, x: c.min(x, c.x(-1.5)))(c, v)),
    'max c': (lambda f: Feature.max(f, 0.5), lambda c, v: lift1(lambda c, x: c.max(x, c.x(0.5)))(c, v)),
    'c max': (lambda f: Feature.max(0, f), lambda c, v: lift1(lambda c, x: c.max(x, c.x(0)))(c, v)),
}
BIN = {
    '+': (lambda f, g: f + g, lift2(lambda c, x, y: x + y)),
    '-': (lambda f, g: f - g, lift2(lambda c, x, y: x - y)),
    '*': (lambda f, g: f * g, lift2(lambda c, x, y: x * y)),
    '/': (lambda f, g: f / g, lift2(lambda c, x, y: quo(c, x, y))),
    'min': (lambda f, g: Feature.min(f, g), lift2(lambda c, x, y: c.min(x, y))),
    'max': (lambda f, g: Feature.max(f, g), lift2(lambda c, x, y: c.max(x, y))),
}


def scaled(s, by):
    return s * by + 1


def ret(c, v, k, is_log):
    o = lag(c, v, k)
    return [nan if missing(x) or missing(y) else (c.log(quo(c, x, y)) if is_log else quo(c, x, y) - 1) for x, y in zip(v, o)]


LEAF = {
    'close': (lambda: Feature(tf.Identity('p')), lambda c, v: v['p']),
    'a': (lambda: Feature(tf.Identity('a')), lambda c, v: v['a']),
    'lagged': (lambda: Feature(tf.Lag(1, 'a')), lambda c, v: lag(c, v['a'], 1)),
    'return': (lambda: Feature(tf.Return(1, 'p')), lambda c, v: ret(c, v['p'], 1, False)),
    'log return': (lambda: Feature(tf.Return(1, 'p', is_log=True)), lambda c, v: ret(c, v['p'], 1, True)),
    'sma': (lambda: Feature(tf.SMA(2, 'a')), lambda c, v: window(mean)(c, v['a'], 2)),
    'roc': (lambda: Feature(tf.ROC(1, 'p')), lambda c, v: [nan] + [(v['p'][i] - v['p'][i - 1]) * 100 / v['p'][i - 1] for i in range(1, len(v['p']))]),
}


def build(e):
    """e: leaf name | (unary, e) | (binary, e, e)"""
    if isinstance(e, str):
        return LEAF[e][0]()
    return UN[e[0]][0](build(e[1])) if len(e) == 2 else BIN[e[0]][0](build(e[1]), build(e[2]))


def value(c, e, v):
    if isinstance(e, str):
        return LEAF[e][1](c, v)
    return UN[e[0]][1](c, value(c, e[1], v)) if len(e) == 2 else BIN[e[0]][1](c, value(c, e[1], v), value(c, e[2], v))
