"""C41: candle, session, run and break features."""
import math
import numpy as np
import pandas as pd
from finmlkit.feature import transforms as tf
from finmlkit.feature.core.structural_break import cusum
from . import features as F
from .common import total, fmax, fmin

BOUNDS = ('candles: any prices, 3 rows; opening ranges and gaps: 5-8 rows over fixed quarter-hour stamps covering whole, late-starting, short and '
          'missing days; runs: up to 5 (quick) / 7 (thorough) returns of any sign, 126 of one sign; windows 1-3; breaks: any last two log returns, ages below 256; long inputs (40 to several hundred samples, concrete except at 1-3 symbolic positions)')
ASSUMPTIONS = ['index in UTC', 'square roots are known only by their order', "pandas' compiled rolling methods are replaced by their definition on symbolic columns",
               'candle ratios to within 1e-9 (the code guards the range by 1e-12)']
nan = math.nan
DAY = pd.Timestamp('2023-03-07')


def quarter(*spec):
    """(day, first quarter of an hour, count) ..."""
    return pd.DatetimeIndex([DAY + pd.Timedelta(days=d, minutes=15 * (q + k)) for d, q, m in spec for k in range(m)])


def candle(c, n):
    """low <= open, close <= high"""
    o, h, l, x, w = (c.farr(k, n, lo=1, hi=9) for k in ('o', 'h', 'l', 'x', 'w'))
    for i in range(n):
        c.assume(c.And(l.v[i] <= o.v[i], l.v[i] <= x.v[i], o.v[i] <= h.v[i], x.v[i] <= h.v[i]))
        if i:
            c.assume(h.v[i] - l.v[i] >= c.x(0.01))
        else:
            c.assume(h.v[i] == l.v[i])
    c.feasible()
    df = pd.DataFrame({'w': w.a, 'l': l.a, 'h': h.a, 'o': o.a, 'x': x.a}, index=quarter((0, 0, n)))
    r = c.call(tf.CandleShape(['o', 'h', 'l', 'x', 'w']), df)
    c.prove([s.name for s in r] == ['wick_up_ratio', 'wick_dn_ratio', 'body_ratio', 'vwap_drift'] and all(s.index.equals(df.index) for s in r), 'four named columns')
    r = [c.xs(s) for s in r]
    eps = c.x(1e-9)

    def near(u, v, what):
        c.prove(c.And(u - v <= eps, v - u <= eps), what)
    for i in range(n):
        rng = h.v[i] - l.v[i]
        top, bottom = c.max(o.v[i], x.v[i]), c.min(o.v[i], x.v[i])
        if i == 0:
            for k in range(3):
                near(r[k][i], c.x(0.0), 'no shape without a range')
        else:
            near(r[0][i] * rng, h.v[i] - top, 'upper wick over the range')
            near(r[1][i] * rng, bottom - l.v[i], 'lower wick over the range')
            near(r[2][i] * rng, top - bottom, 'body over the range')
        c.eq(r[3][i] * o.v[i], w.v[i] - o.v[i], 'distance of the average price from the open')
    for k, v in dict(o=o, h=h, l=l, x=x, w=w).items():
        c.eqs(df[k], v.v, 'the table is not modified', obs=False)


def orb(c, idx, tz):
    n = len(idx)
    h, l, x = (c.farr(k, n, lo=1, hi=9) for k in ('h', 'l', 'x'))
    for i in range(n):
        c.assume(l.v[i] <= h.v[i])
    if tz:
        idx = idx.tz_localize('UTC')
    df = pd.DataFrame({'x': x.a, 'l': l.a, 'h': h.a}, index=idx)
    r = c.call(tf.ORBBreak(['h', 'l', 'x']), df)
    c.prove([s.name for s in r] == ['orb_long', 'orb_short'] and all(s.index.equals(idx) for s in r), 'two named columns with the rows of the table')
    up, dn = c.xs(r[0]), c.xs(r[1])
    days = idx.normalize()
    for i in range(n):
        rows = [j for j in range(n) if days[j] == days[i]]
        first = rows[:4]
        if i in first or idx[rows[0]] != days[i]:
            c.eq(up[i], False, 'no break before the opening range is complete')
            c.eq(dn[i], False, 'no break before the opening range is complete')
        else:
            c.eq(up[i], x.v[i] > fmax(c, [h.v[j] for j in first]), 'close above the high of the first four bars')
            c.eq(dn[i], x.v[i] < fmin(c, [l.v[j] for j in first]), 'close below the low of the first four bars')
    c.eqs(df['x'], x.v, 'the table is not modified', obs=False)


def gap(c, idx, tz, miss=()):
    n = len(idx)
    x = c.farr('x', n, lo=1, hi=9, nan=[i in miss for i in range(n)])
    if tz:
        idx = idx.tz_localize('UTC')
    df = pd.DataFrame({'y': c.farr('y', n, lo=1, hi=9).a, 'x': x.a}, index=idx)
    r = c.call(tf.DailyGap('x'), df)
    c.prove(r.name == 'x_daily_gap' and r.index.equals(idx), 'a named column with the rows of the table')
    r = c.xs(r)
    days = idx.normalize()
    for i in range(n):
        prev = [j for j in range(n) if days[j] == days[i] - pd.Timedelta(days=1) and j not in miss]
        if idx[i] != days[i] or not prev or i in miss:
            c.eq(r[i], nan, 'a gap only at midnight, and only after a day with prices')
        else:
            c.eq(r[i] * x.v[prev[-1]], x.v[i] - x.v[prev[-1]], 'midnight price against the last one of the day before')
    c.eqs(df['x'], x.v, 'the table is not modified', obs=False)


def runs(c, n, first_nan):
    x = c.farr('x', n, lo=-3, hi=3, nan=[first_nan and i == 0 for i in range(n)])
    df = pd.DataFrame({'y': c.farr('y', n, lo=1, hi=9).a, 'x': x.a}, index=F.days(n))
    r = c.call(tf.DirRunLen('x'), df)
    c.prove(r.name == 'x_dir_run_len' and r.index.equals(df.index), 'a named column with the rows of the table')
    r = c.xs(r)
    sign = [None] + [1 if bool(v > 0) else -1 if bool(v < 0) else 0 for v in x.v[1:]]
    for i in range(n):
        if i == 0 or sign[i] == 0:
            c.eq(r[i], 0, 'no run at a zero return or before the first')
        else:
            k = i
            while k > 1 and sign[k - 1] == sign[i]:
                k -= 1
            c.eq(r[i], i - k + 1, 'length of the run of returns of one sign')


def long_run(c, n):
    """a run as long as the documented range of the counter"""
    a = c.f('a', lo=1, hi=2)
    v = [a] * n
    arr = SArrOf(c, v)
    r = c.xs(c.call(tf.DirRunLen('x'), pd.DataFrame({'x': arr}, index=pd.date_range('2023-01-01', periods=n, freq='h'))))
    for i in (1, 2, n - 2, n - 1):
        c.eq(r[i], i, 'length of the run of returns of one sign')


def SArrOf(c, v):
    from sx.arr import SArr
    return SArr(list(v), 'float64') if c.sym else np.array(v, dtype=float)


def zscore(c, n, w, miss=()):
    x = c.farr('x', n, lo=1, hi=9, nan=[i in miss for i in range(n)])
    df = pd.DataFrame({'y': c.farr('y', n, lo=1, hi=9).a, 'x': x.a}, index=F.days(n))
    r = c.call(tf.MeanReversionZScore(w, 'x'), df)
    c.prove(r.name == f'x_mr_z_{w}' and r.index.equals(df.index), 'a named column with the rows of the table')
    r = c.xs(r)
    for i in range(n):
        s = x.v[max(0, i - w + 1):i + 1]
        if i < w - 1 or any(F.missing(v) for v in s):
            c.eq(r[i], nan, 'undefined without a full window')
            continue
        m = F.mean(c, s)
        var = total([(v - m) * (v - m) for v in s]) / c.x(float(w - 1))
        if bool(var == 0):
            c.eq(r[i], nan, 'undefined without variation')
        else:
            sd = c.sqrt(var)
            c.eq(r[i] * sd, x.v[i] - m, 'distance from the mean in standard deviations', obs=False)


def bipower(c, n, w, miss=()):
    x = c.farr('x', n, lo=-3, hi=3, nan=[i in miss for i in range(n)])
    df = pd.DataFrame({'x': x.a, 'y': c.farr('y', n, lo=1, hi=9).a}, index=F.days(n))
    r = c.call(tf.BiPowerVariation(w, 'x'), df)
    c.prove(r.name == f'x_bv_{w}' and r.index.equals(df.index), 'a named column with the rows of the table')
    r = c.xs(r)
    for i in range(n):
        s = x.v[max(0, i - w):i + 1]
        if i < w or any(F.missing(v) for v in s):
            c.eq(r[i], nan, 'undefined without a full window')
        else:
            c.eq(r[i], c.x((np.pi / 2) ** 0.5) * total([c.max(u, -u) * c.max(v, -v) for u, v in zip(s, s[1:])]), 'scaled sum of products of neighbouring absolute returns', obs=False)


def followed(c, st, r, n, cap):
    """scores, flags and ages of both directions from the statistics and critical values"""
    for d in (0, 1):
        age = -1
        for i in range(n):
            s, k = st[d][i], st[2 + d][i]
            if F.missing(s) or F.missing(k):
                c.eq(r[d][i], nan, 'no score during warm-up')
                fired = False
            else:
                fired = bool(s > k)
                c.eq(r[d][i], c.max(c.min(s - k, c.x(10)), c.x(-10)), 'the excess over the critical value, within ten', obs=False)
            age = 0 if fired else age + 1
            c.eq(r[2 + d][i], fired, 'a break where the statistic exceeds its critical value')
            c.eq(r[4 + d][i], min(age, cap), 'rows since the last break, capped')


def tested(c, df, n, win, warm, cap):
    r = c.call(tf.CUSUMTest(win, warm, cap, 'p'), df)
    names = [f'cumote_{d}{win}_{k}' for k in ('score', 'flag', 'age') for d in ('up', 'down')]
    c.prove([s.name for s in r] == names and all(s.index.equals(df.index) for s in r), 'six named columns')
    return [c.xs(s) for s in r]


def breaks(c, n, win, warm, cap):
    """end to end: the test's own statistics on the named column"""
    p = c.parr('p', n)
    df = pd.DataFrame({'y': c.parr('y', n).a, 'p': p.a}, index=F.days(n))
    st = [c.xs(a) for a in c.call(cusum.cusum_test_rolling, p.a.copy(), win, warm)]
    followed(c, st, tested(c, df, n, win, warm, cap), n, cap)
    c.eqs(df['p'], p.v, 'the table is not modified', obs=False)


def flags(c, n, warm, cap, live):
    """arbitrary statistics and critical values in place of the test's own; live: direction varied"""
    st = []
    for d in (0, 1):
        for k, lo in ((f's{d}', 0), (f'k{d}', 2)):
            v = c.farr(k, n, lo=lo, hi=15, nan=[i < warm for i in range(n)])
            if d != live:
                for i in range(warm, n):
                    c.assume(v.v[i] == (1 if k[0] == 's' else 3))
            st.append(v)
    st = [st[0], st[2], st[1], st[3]]
    c.feasible()
    df = pd.DataFrame({'p': c.parr('p', n).a}, index=F.days(n))
    old = tf.cusum_test_rolling
    tf.cusum_test_rolling = lambda *a, **k: tuple(v.a.copy() for v in st)
    try:
        r = tested(c, df, n, 50, 30, cap)
    finally:
        tf.cusum_test_rolling = old
    followed(c, [v.v for v in st], r, n, cap)


def cases(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn, wt=5, **p):
        out.append(dict(name=name, fn=fn, params=p, weight=wt))
    add('candle', candle, n=3)
    Q = {'whole': quarter((0, 0, 6)), 'late': quarter((0, 1, 6)), 'short': quarter((0, 0, 3), (1, 0, 5)), 'two': quarter((0, 94, 2), (1, 0, 6)), 'evening': quarter((0, 0, 4), (0, 95, 1), (1, 0, 1), (2, 1, 1))}
    for k, idx in Q.items():
        add(f'opening-{k}', orb, 20, idx=idx, tz=False)
    add('opening-utc', orb, 20, idx=quarter((0, 0, 5)), tz=True)
    if not q:
        add('opening-three', orb, 20, idx=quarter((0, 0, 5), (1, 0, 5), (2, 2, 4)), tz=False)
    G = {'two': quarter((0, 94, 2), (1, 0, 3)), 'three': quarter((0, 93, 3), (1, 0, 2), (1, 94, 2), (2, 0, 2)), 'hole': quarter((0, 90, 2), (2, 0, 2), (3, 0, 1)), 'late': quarter((0, 90, 2), (1, 1, 3)),
         'short': quarter((0, 0, 1), (1, 0, 1), (2, 0, 1), (3, 0, 1))}
    for k, idx in G.items():
        add(f'gap-{k}', gap, idx=idx, tz=False)
    add('gap-utc', gap, idx=G['three'], tz=True)
    for m in ((1,), (2,), (0, 1)):
        add(f'gap-missing-{m[0]}', gap, idx=G['two'], tz=False, miss=m)
    for n in (2, 3, 4, 5) if q else (2, 3, 4, 5, 6, 7):
        add(f'run-{n}', runs, 10, n=n, first_nan=n % 2 == 0)
    add('run-long', long_run, n=127)
    for w in (2, 3):
        add(f'reversion-{w}', zscore, 10, n=w + 1 if q else w + 2, w=w)
    add('reversion-missing', zscore, n=5, w=2, miss=(1,))
    for w in (1, 2, 3):
        add(f'bipower-{w}', bipower, 10, n=w + 2, w=w)
    add('bipower-missing', bipower, n=5, w=1, miss=(1,))
    add('break-own', breaks, 30, n=4, win=3, warm=2, cap=1)
    if not q:
        add('break-own-5', breaks, 30, n=5, win=3, warm=2, cap=144)
    for live in (0, 1):
        for cap in (144, 2):
            add(f'break-flags-{live}-{cap}', flags, 20, n=6 if q else 8, warm=1 + live, cap=cap, live=live)
    def long(name, fn, at, fill={}, fix={}, rng={}, **p):      # long inputs: concrete except at a few positions
        out.append(dict(name=f'long-{name}', fn=fn, params=p, weight=40, thin=dict(at=at, fill=fill, fix=fix, rng=rng)))
    N = 170 if q else 320
    for live in (0, 1):
        st = {f's{d}': [1.0 + (i % 3) * 0.25 * (d == live) for i in range(N)] for d in (0, 1)}
        st.update({f'k{d}': [3.0] * N for d in (0, 1)})
        for k, cap in enumerate((144, 20, 160) if q else (144, 20, 160, 255)):
            long(f'break-flags-{live}-{cap}', flags, {f's{live}': (12 + k,), f'k{live}': (N - 4,), '*': ()}, fill=st, n=N, warm=10, cap=cap, live=live)
    long('reversion', zscore, {'x': (50,)}, n=100, w=24)
    long('bipower', bipower, {'x': (50,)}, n=100, w=24)
    long('runs', runs, {'x': (30, 60)}, fill={'x': [1.0] * 31 + [-0.5] * 40 + [0.0] * 2 + [0.3] * 7}, n=80, first_nan=True)
    return out
