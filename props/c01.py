"""C01: time bar boundaries."""
import numpy as np
from finmlkit.bar import logic

BOUNDS = ('1..3 trades (quick) / 1..4 (thorough) with any sorted int64 ns timestamps in [1e18, 2e18] spanning at most 3 (4) '
          'intervals; intervals 1 ms, 0.1 s, 0.25 s, 0.5 s, 1 s, 60 s, 1 h, 1 d')
ASSUMPTIONS = ['int64/float64 mixing is modelled bit-exactly for round-to-nearest-even (values above 2^53 are rounded)']


def run(c, n, sec, span):
    if c.sym:
        c.f64_ints = True
    I = round(sec * 10 ** 9)
    ts = c.iarr('ts', n, 10 ** 18, 2 * 10 ** 18, sort='asc')
    c.assume(ts.v[-1] - ts.v[0] <= span * I)
    clock, idx = c.call(logic._time_bar_indexer, ts.a, sec)
    clock, idx = c.xs(clock), c.xs(idx)
    with c.exact():
        c.prove(len(clock) == len(idx) and len(clock) >= 2, 'one close position per boundary')
        for k, t in enumerate(clock):
            c.prove((t % I) == 0, 'every boundary is an exact multiple of the interval')
            if k:
                c.prove(t - clock[k - 1] == I, 'consecutive boundaries are exactly one interval apart')
            cnt = c.x(0)
            for v in ts.v:
                cnt = cnt + c.num(v <= t)
            c.eq(idx[k], cnt - 1, 'close position is the last trade at or before the boundary', 0)
        c.prove(c.And(clock[0] <= ts.v[0], ts.v[0] < clock[0] + I), 'first boundary is the last multiple at or before the first trade')
        c.prove(clock[-1] >= ts.v[-1], 'the last boundary is not before the last trade')
        c.prove(clock[-1] < ts.v[-1] + 2 * I, 'no boundary two intervals past the last trade')


def cases(tier):
    out = []
    secs = [0.001, 0.1, 0.25, 0.5, 1.0, 60.0, 3600.0, 86400.0]
    for s in secs:
        for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)):
            out.append(dict(name=f'every-{s}s-n{n}', fn=run, params=dict(n=n, sec=s, span=3 if tier == 'quick' else 4), weight=n))
    return out
