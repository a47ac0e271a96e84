"""C18: triple-barrier labels."""
import math
import numpy as np
from finmlkit.label import tbm
from .common import fmax, total

BOUNDS = ('up to 4 prices (quick) / 5 (thorough), 1-2 events at every position, symbolic prices (exact logarithms), targets, barrier '
          'multipliers, vertical barrier and minimum holding time; timestamps symbolic and non-decreasing; '
          'clock cases: integer nanosecond timestamps around 1.6e18 with bit-exact int-to-float rounding; long inputs (40 to several hundred samples, concrete except at 1-3 symbolic positions)')
ASSUMPTIONS = ['log is strictly increasing with log 1 = 0; log-price differences are exact reals']


def run(c, n, ne, meta, lo='sym', up='sym', unit=False):
    p = c.parr('p', n)
    if unit:   # one tick of the clock per price
        t = c.fconst([10 ** 9 * k for k in range(n)], np.int64)
        vb = float(n - 1)
        c_vb = c.x(vb) * 10 ** 9
        mc, c_mc = 0.0, c.x(0.0)
    else:
        t = c.iarr('t', n, 0, 10 ** 8, sort='asc')
        kv, kh = c.i('vert_512ths', 1, 30), c.i('hold_512ths', 0, 30)      # seconds / 512: exact in nanoseconds and in binary
        vb, mc = kv / 512, kh / 512
        c_vb, c_mc = kv * 1953125, kh * 1953125
    ev = c.iarr('ev', ne, 0, n - 1, sort='asc')
    tg = c.farr('tgt', ne, pos=True, hi=10)
    ml = c.f('lower_mult', pos=True, hi=10) if lo == 'sym' else lo
    mu = c.f('upper_mult', pos=True, hi=10) if up == 'sym' else up
    s = c.iarr('side', ne, -1, 1, dtype=np.int8) if meta else None
    if meta:
        for x in s.v:
            c.assume(x != 0)
        mr = c.f('min_ret', lo=0, hi=1)
    else:
        mr = 0.0
    lb, ti, rt, rb = map(c.xs, c.call(tbm.triple_barrier, t.a, p.a, ev.a, tg.a, (ml, mu), vb, mc, s.a if meta else None, mr))
    lg = [c.log(x) for x in p.v]
    for e in range(ne):
        i0 = ev.v[e].__index__() if c.sym else int(ev.v[e])
        win = [j for j in range(i0 + 1, n) if bool(t.v[j] - t.v[i0] <= c_vb)]
        # equal timestamps: the window is everything not later than the vertical barrier
        if not win:
            c.prove(c.And(ti[e] >= 0, ti[e] <= n - 1), 'touch index of an event without a later price stays inside the series')
            c.eq(lb[e], 0, 'an event without a later price gets no label')
            continue
        el = [j for j in win if bool(t.v[j] - t.v[i0] >= c_mc)]
        r = {j: (lg[j] - lg[i0]) * (s.v[e] if meta else 1) for j in win}
        U = None if up != 'sym' else tg.v[e] * mu_(c, mu)
        L = None if lo != 'sym' else tg.v[e] * mu_(c, ml)
        hit = None
        for j in el:
            if (U is not None and bool(r[j] >= U)) or (L is not None and bool(r[j] <= -L)):
                hit = j
                break
        touch = hit if hit is not None else win[-1]
        c.eq(ti[e], touch, 'first barrier touched at or after the minimum holding time, else last price before the time barrier', 0)
        if not el:
            continue
        R = r[touch]
        c.eq(rt[e], R, 'return at the touch, signed by the side of the event', obs=False)
        if meta:
            c.eq(lb[e], c.num(R >= c.x(mr)), 'meta label says whether the signed return reached the minimum return')
        else:
            c.eq(lb[e], c.ite(R >= 0, c.x(1), c.x(-1)), 'label is the sign of the return at the touch')
        if hit is not None:
            c.eq(rb[e], 1, 'an event that hit a price barrier has full weight')
        else:
            path = [r[j] for j in el]
            pu = fmax(c, [c.x(0.0)] + [c.ite(x > 0, x, c.x(0.0)) / U for x in path]) if U is not None else c.x(0.0)
            pl = fmax(c, [c.x(0.0)] + [c.ite(x < 0, -x, c.x(0.0)) / L for x in path]) if L is not None else c.x(0.0)
            if bool(R > 0):
                w = pu / (1 + pl) if U is not None else math.nan
            else:
                w = pl / (1 + pu) if L is not None else math.nan
            c.eq(rb[e], w, 'weight of a timed-out event compares the closest approach to each barrier', obs=False)
            if U is not None and L is not None:
                c.prove(c.And(rb[e] >= 0, rb[e] <= 1), 'weights lie in [0, 1]')


def mu_(c, m):
    return c.x(m)


def clock(c, n, vert):
    """nanosecond-exact time barrier"""
    if c.sym:
        c.f64_ints = True
    b0 = 1600000000 * 10 ** 9
    t = c.iarr('t', n, b0, b0 + 10 ** 13, sort='asc')
    p = c.fconst([100.0 + (0.001 if k % 2 else 0.002) for k in range(n)])
    ev = c.fconst([0], np.int64)
    tg = c.fconst([1.0])
    r = c.call(tbm.triple_barrier, t.a, p.a, ev.a, tg.a, (10.0, 10.0), vert, 0.0, None, 0.0)
    vns = int(round(vert * 10 ** 9))
    win = [j for j in range(1, n) if bool(t.v[j] - t.v[0] <= vns)]
    if win:
        c.eq(c.xs(r[1])[0], win[-1], 'last price not later than the time barrier, to the nanosecond', 0)


def cases(tier):
    q = tier == 'quick'
    out = [dict(name='n1', fn=run, params=dict(n=1, ne=1, meta=False)),
           dict(name='n2', fn=run, params=dict(n=2, ne=1, meta=False), weight=2),
           dict(name='n2-meta', fn=run, params=dict(n=2, ne=1, meta=True), weight=3),
           dict(name='n3', fn=run, params=dict(n=3, ne=1, meta=False), weight=20),
           dict(name='n3-events2', fn=run, params=dict(n=3, ne=2, meta=False, unit=True), weight=22),
           dict(name='n3-meta', fn=run, params=dict(n=3, ne=1, meta=True, unit=True), weight=10),
           dict(name='n4-unit', fn=run, params=dict(n=4, ne=1, meta=False, unit=True), weight=25)]
    for nm, lo, up in (('lower-off', math.inf, 'sym'), ('lower-off-neg', -math.inf, 'sym'), ('upper-off', 'sym', math.inf),
                       ('both-off', -math.inf, math.inf)):
        out.append(dict(name='n3-' + nm, fn=run, params=dict(n=3, ne=1, meta=False, lo=lo, up=up, unit=True), weight=5))
    for vert in (0.001, 1.0, 60.0, 3600.0):
        out.append(dict(name=f'clock-{vert}', fn=clock, params=dict(n=3 if q else 4, vert=vert)))
    if not q:
        out += [dict(name='n4', fn=run, params=dict(n=4, ne=1, meta=False), weight=60),
                dict(name='n4-meta', fn=run, params=dict(n=4, ne=1, meta=True, unit=True), weight=40),
                dict(name='n5-unit', fn=run, params=dict(n=5, ne=1, meta=False, unit=True), weight=60),
                dict(name='n4-events2', fn=run, params=dict(n=4, ne=2, meta=False, unit=True), weight=60)]

    def long(name, fn, at, fill={}, fix={}, rng={}, **p):      # long inputs: concrete except at a few positions
        out.append(dict(name=f'long-{name}', fn=fn, params=p, weight=40, thin=dict(at=at, fill=fill, fix=fix, rng=rng)))
    n = 80 if q else 300
    long('path', run, {'p': (n // 2,), 'ev': ()}, fill={'ev': [0, 5], 'tgt': [1, 2]}, fix={'lower_mult': 3, 'upper_mult': 3}, n=n, ne=2, meta=False, unit=True)
    long('timeout', run, {'p': (n // 2,), 'ev': ()}, fill={'ev': [0, n - 2], 'tgt': [8, 1]}, fix={'lower_mult': 3, 'upper_mult': 3}, n=n, ne=2, meta=False, unit=True)
    long('events', run, {'p': (20,)}, fill={'ev': lambda i: i * 2, 'tgt': lambda i: 0.5 + i % 4}, fix={'lower_mult': 1, 'upper_mult': 2}, n=40, ne=20, meta=False, unit=True)
    return out
