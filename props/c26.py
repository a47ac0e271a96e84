"""C26: recursive smoothers equal their closed-form weighted sums."""
import itertools
import math
import numpy as np
from finmlkit.feature.core import ma, volatility, momentum, trend
from . import wiring
from .common import total, fmax
from .c25 import true_range

BOUNDS = ('series of up to 4 (quick) / 6 (thorough) values, spans 2..4, every pattern of missing values for the NaN-aware ones; '
          'time-decayed deviations: symbolic irregular timestamps (equal ones included), up to 4 (5) samples; ADX length 1..2; long inputs (40 to several hundred samples, concrete except at 1-3 symbolic positions)')
ASSUMPTIONS = ['exp is strictly increasing with exp 0 = 1 and positive; square roots are exact']
nan = math.nan


def ewma(c, n, span, miss=()):
    y = c.farr('y', n, nan=[i in miss for i in range(n)])
    r = c.xs(c.call(ma.ewma, y.a, span))
    b = c.x(1) - c.x(2) / c.x(span + 1) if c.sym else 1 - c.x(2) / (span + 1)
    for i in range(n):
        if i in miss:
            c.eq(r[i], r[i - 1] if i else math.nan, 'a missing sample leaves the mean as it was')
            continue
        J = [j for j in range(i + 1) if j not in miss]
        w = [b ** (i - j) for j in J]
        c.eq(r[i] * total(w), total([a * y.v[j] for a, j in zip(w, J)]), 'weighted mean with geometrically decaying weights')


def bad_span(c):
    y = c.farr('y', 3)
    r = c.call(ma.ewma, y.a, 0, raises=(ValueError,))
    c.prove(isinstance(r, ValueError), 'a span below one is rejected')
    r = c.xs(c.call(volatility.ewms, y.a, 1))
    c.prove(all(c.isnan(v) for v in r), 'no deviation for a span of one')


def wvar(c, w, y):
    """(sum w)^2, sum w^2, weighted squared deviation times sum w"""
    W, W2 = total(w), total([a * a for a in w])
    S, S2 = total([a * v for a, v in zip(w, y)]), total([a * v * v for a, v in zip(w, y)])
    return W, W2, S2 * W - S * S


def ewms(c, n, span, pat):
    y = c.farr('y', n, lo=-10, hi=10, nan=pat)
    r = c.xs(c.call(volatility.ewms, y.a, span))
    b = (c.x(span) - 1) / c.x(span + 1)
    for i in range(n):
        J = [j for j in range(i + 1) if not pat[j]]
        if len(J) < 2:
            c.eq(r[i], nan, 'no deviation before two valid values')
            continue
        W, W2, D = wvar(c, [b ** (i - j) for j in J], [y.v[j] for j in J])
        # var = D/W^2 * W^2/(W^2-W2)
        c.eq(r[i] * r[i] * (W * W - W2), D, 'bias-corrected weighted variance of the valid values', obs=False)
        c.prove(r[i] >= 0, 'deviation is never negative')


def times(c, n):
    ts = c.iarr('ts', n, 0, 10 ** 13, sort='asc')
    for a, b in zip(ts.v, ts.v[1:]):
        c.prefer(c.Or(a == b, b - a >= 2 * 10 ** 8))      # gaps that show against the half-life
    return ts


def decays(c, ts, hl):
    return [None] + [c.exp(-((c.x(ts.v[i]) - ts.v[i - 1]) / c.x(1e9)) / c.x(hl)) for i in range(1, len(ts.v))]


def ewmst0(c, n, hl, pat):
    ts, y = times(c, n), c.farr('y', n, lo=-10, hi=10, nan=pat)
    r = c.xs(c.call(volatility.ewmst_mean0, ts.a, y.a, hl))
    e = decays(c, ts, hl)
    c.eq(r[0], nan, 'undefined at the first sample')
    for i in range(1, n):
        w, v = [], []
        for j in range(1, i + 1):
            if not pat[j]:
                w.append((1 - e[j]) * (total_prod(e[j + 1:i + 1])))
                v.append(y.v[j])
        W = total(w, c.x(0.0))
        if not bool(W > 0):
            c.eq(r[i], nan, 'undefined without weighted observations', obs=False)
            continue
        V = total([a * b * b for a, b in zip(w, v)], c.x(0.0))
        c.eq(r[i] * r[i] * W, c.max(V, W * c.x(1e-12) * c.x(1e-12)), 'squared deviation is the time-decayed mean of squares', obs=False)
        c.prove(r[i] > 0, 'deviation stays above its floor')


def total_prod(xs):
    p = 1
    for x in xs:
        p = p * x
    return p


def ewmst(c, n, hl, pat):
    ts, y = times(c, n), c.farr('y', n, lo=-10, hi=10, nan=pat)
    r = c.xs(c.call(volatility.ewmst, ts.a, y.a, hl, 0.0))
    e = decays(c, ts, hl)
    c.eq(r[0], nan, 'undefined at the first sample')
    for i in range(1, n):
        J = [j for j in range(1, i + 1) if not pat[j]]
        w = [(1 - e[j]) * total_prod(e[j + 1:i + 1]) for j in J]
        W = total(w, c.x(0.0))
        if not bool(W > 0):
            c.eq(r[i], nan, 'undefined without weighted observations', obs=False)
            continue
        W, W2, D = wvar(c, w, [y.v[j] for j in J])
        if not bool(W * W - W2 > 0):
            c.eq(r[i], 0, 'a single weighted observation has no deviation', obs=False)
            continue
        c.eq(r[i] * r[i] * (W * W - W2), D, 'bias-corrected time-decayed variance of the valid observations', obs=False)
        c.prove(r[i] >= 0, 'deviation is never negative')


def rsi(c, n, w):
    p = c.farr('p', n, lo=0, hi=1000)
    r = c.xs(c.call(momentum.rsi_wilder, p.a, w))
    c.prove(len(r) == n, 'one value per bar')
    z = c.x(0)
    up = [z] + [c.max(z, p.v[i] - p.v[i - 1]) for i in range(1, n)]
    dn = [z] + [c.max(z, p.v[i - 1] - p.v[i]) for i in range(1, n)]
    for i in range(n):
        if i < w:
            c.eq(r[i], nan, 'strength index undefined before the window is full')
            continue
        b = c.x(w - 1) / c.x(w)
        wt = [1 if j <= w else 0 for j in range(i + 1)]
        g = total(up[1:w + 1]) / c.x(w)
        l = total(dn[1:w + 1]) / c.x(w)
        G = g * b ** (i - w) + total([up[j] * b ** (i - j) / c.x(w) for j in range(w + 1, i + 1)], z)
        L = l * b ** (i - w) + total([dn[j] * b ** (i - j) / c.x(w) for j in range(w + 1, i + 1)], z)
        if bool(L > 0):
            c.eq(r[i] * (G + L), G * 100, 'strength index is the gain share of smoothed moves')
        else:
            c.prove(c.isnan(r[i]) or r[i] == 100, 'no smoothed loss: undefined or one hundred')


def adx(c, n, L):
    h, l, cl = (c.farr(k, n, lo=1, hi=100) for k in 'hlc')
    for i in range(n):
        c.assume(c.And(l.v[i] <= cl.v[i], cl.v[i] <= h.v[i]))
    r = c.xs(c.call(trend.adx_core, h.a, l.a, cl.a, L))
    z = c.x(0)
    t = true_range(c, h.v, l.v, cl.v)
    pdm, mdm = [z], [z]
    for i in range(1, n):
        u, d = h.v[i] - h.v[i - 1], l.v[i - 1] - l.v[i]
        pdm.append(c.ite(c.And(u > d, u > 0), u, z))
        mdm.append(c.ite(c.And(d > u, d > 0), d, z))
    b = c.x(L - 1) / c.x(L)

    def sm(s, i):
        return total(s[1:L + 1]) * b ** (i - L) + total([s[j] * b ** (i - j) for j in range(L + 1, i + 1)], z)
    dx = []
    for i in range(n):
        if i < L:
            dx.append(z)
            continue
        P, M, T = sm(pdm, i), sm(mdm, i), sm(t, i)
        dx.append(c.x(100) * abs(P - M) / (P + M) if bool(T > 0) and bool(P + M > 0) else z)
    for i in range(n):
        if i < 2 * L - 1:
            c.prove(c.isnan(r[i]) or r[i] == 0, 'no trend strength before two windows')
        else:
            m = total(dx[L:2 * L]) / c.x(L)
            c.eq(r[i], m * b ** (i - 2 * L + 1) + total([dx[j] * b ** (i - j) / c.x(L) for j in range(2 * L, i + 1)], z),
                 'trend strength is the smoothed directional index')


def atr_ema(c, n, w, norm, hole):
    h, l, cl = (c.farr(k, n, lo=1, hi=100, nan=[hole == (k, i) for i in range(n)]) for k in 'hlc')
    t = true_range(c, h.v, l.v, cl.v)
    r = c.xs(c.call(volatility.atr, h.a, l.a, cl.a, w, True, norm))
    prev = nan
    for i in range(n):
        if i < w - 1:
            want = nan
        elif i == w - 1:
            W = [v for v in t[:w] if not c.isnan(v)]
            want = total(W) / c.x(len(W)) if W else nan
        elif c.isnan(prev) or c.isnan(t[i]):
            want = nan
        else:
            want = (prev * (w - 1) + t[i]) / c.x(w)
        prev = want
        if c.isnan(want):
            c.eq(r[i], nan, 'smoothed true range undefined during warm-up and after a missing bar')
        elif norm and not c.isnan(h.v[i]) and not c.isnan(l.v[i]):
            c.eq(r[i] * (h.v[i] + l.v[i]) / c.x(2), want, 'smoothed true range relative to the mid price')
        else:
            c.eq(r[i], want, 'smoothed true range')


def cases(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn, wt=1, **p):
        out.append(dict(name=name, fn=fn, params=p, weight=wt))
    for s in (1, 2, 3, 4):
        add(f'ewma-s{s}', ewma, n=4 if q else 7, span=s)
        for m in ((0,), (1,), (2, 3), (0, 2)):
            add(f'ewma-s{s}-missing-' + '-'.join(map(str, m)), ewma, n=5 if q else 7, span=s, miss=m)
    add('bad-span', bad_span)
    k = 4 if q else 5
    for pat in itertools.product((False, True), repeat=k):
        nm = ''.join('n' if x else '.' for x in pat)
        for s in ((3,) if q else (2, 3, 4)):
            add(f'ewms-{nm}-s{s}', ewms, 2, n=k, span=s, pat=pat)
    k = 3 if q else 4
    for pat in itertools.product((False, True), repeat=k):
        if pat[0] and not q:
            continue
        nm = ''.join('n' if x else '.' for x in pat)
        add(f'decay-zero-mean-{nm}', ewmst0, 3, n=k, hl=2.0, pat=pat)
        add(f'decay-{nm}', ewmst, 5, n=k, hl=2.0, pat=pat)
    for w in (1, 2, 3):
        add(f'rsi-w{w}', rsi, 3, n=(w + 2 if w < 3 else 5) if q else w + 3, w=w)
    add('rsi-short', rsi, n=2, w=2)
    add('adx-l1', adx, 5, n=3, L=1)
    add('adx-l2', adx, 9, n=4 if q else 5, L=2)
    add('adx-short', adx, n=3, L=2)
    for hole in (None, ('h', 0), ('c', 1), ('l', 3)):
        for w in (1, 2, 3):
            add(f'atr-ema-w{w}-hole-{hole}', atr_ema, n=4 if q else 5, w=w, norm=w == 2, hole=hole)

    def long(name, fn, at, fill={}, fix={}, rng={}, **p):      # long inputs: concrete except at a few positions
        out.append(dict(name=f'long-{name}', fn=fn, params=p, weight=40, thin=dict(at=at, fill=fill, fix=fix, rng=rng)))
    n = 80 if q else 200
    some = [i % 17 == 5 for i in range(n)]
    long('ewma', ewma, (3, n - 5), n=n, span=3, miss=tuple(i for i in range(n) if some[i]))
    long('ewms', ewms, (35,), n=40, span=3, pat=some[:40])
    long('rsi', rsi, (n // 2,), rng={'p': (100, 110)}, n=n, w=14)
    long('adx', adx, {'c': (30,)}, fill={'h': lambda i: 20 + i % 5 + i // 7, 'l': lambda i: 15 + i % 3 + i // 9, 'c': lambda i: 17 + i % 3 + i // 9}, n=n // 2, L=14)
    long('atr', atr_ema, {'h': (40,)}, fill={'h': lambda i: 20 + i % 5, 'l': lambda i: 15 + i % 3, 'c': lambda i: 17 + i % 3}, n=n, w=30, norm=True, hole=('c', 7))
    return out + wiring.cases('C26', tier)
