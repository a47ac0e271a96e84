"""C14: the tick rule."""
import numpy as np
from finmlkit.bar import utils

BOUNDS = ('1..6 prices (quick) / 1..9 (thorough), any prices from 1e-6 to 1e6 whose consecutive differences are zero or at least 1e-9, and any from 2^-29 to 2^-20 differing by 2^-38 or more '
          '(the code treats differences below 1e-12 as equal); one-step rule for every previous side; long inputs (40 to several hundred samples, concrete except at 1-3 symbolic positions)')
ASSUMPTIONS = ['prices lie on a grid coarser than the 1e-12 guard of the code']


def grid(c, p, d=1e-9):
    for a, b in zip(p, p[1:]):
        c.assume(c.Or(a == b, a - b >= c.x(d), b - a >= c.x(d)))


def vector(c, n, small=False):
    p = c.farr('p', n, lo=2 ** -29, hi=2 ** -20) if small else c.farr('p', n, lo=1e-6, hi=10 ** 6)
    grid(c, p.v, 2 ** -38 if small else 1e-9)
    r = c.call(utils.comp_trade_side_vector, p.a)
    r = c.xs(r)
    c.prove(len(r) == n, 'one side per trade')
    s = 0
    for i in range(n):
        if i:
            if bool(p.v[i] > p.v[i - 1]):
                s = 1
            elif bool(p.v[i] < p.v[i - 1]):
                s = -1
        c.eq(r[i], s, 'buy after a rise, sell after a fall, previous side when unchanged, unknown before the first change', 0)


def far(c):
    """a move of any size against a large price level, in integer ticks"""
    k = c.iarr('ticks', 3, 1, 10 ** 9)
    s = c.choice('tick', 4)
    tick = [1.0, 0.5, 0.015625, 64.0][s]
    if c.sym:
        from sx.arr import SArr
        a = SArr([c.x(tick) * v for v in k.v], np.float64)
    else:
        a = np.array([float(tick * v) for v in k.v])
    r = c.xs(c.call(utils.comp_trade_side_vector, a))
    last = 0
    for i in range(1, 3):
        if bool(k.v[i] > k.v[i - 1]):
            last = 1
        elif bool(k.v[i] < k.v[i - 1]):
            last = -1
        c.eq(r[i], last, 'moves of any size count', 0)


def step(c):
    a, b = c.f('price', lo=1e-6, hi=10 ** 6), c.f('prev', lo=1e-6, hi=10 ** 6)
    grid(c, [c.x(a), c.x(b)])
    t = c.i('prev_side', -1, 1)
    r = c.x(c.call(utils.comp_trade_side, a, b, t))
    a, b, t = c.x(a), c.x(b), c.x(t)
    want = 1 if bool(a > b) else (-1 if bool(a < b) else t)
    c.eq(r, want, 'one-step tick rule', 0)


def cases(tier):
    top = 6 if tier == 'quick' else 9
    out = [dict(name=f'vector-n{n}', fn=vector, params=dict(n=n), weight=3 ** n) for n in range(1, top + 1)]

    def long(name, fn, at, fill={}, fix={}, rng={}, **p):      # long inputs: concrete except at a few positions
        out.append(dict(name=f'long-{name}', fn=fn, params=p, weight=40, thin=dict(at=at, fill=fill, fix=fix, rng=rng)))
    long('flat', vector, (70, 71), fill={'p': lambda i: 5 if i > 10 else 5 + i % 2}, n=200)
    long('any', vector, (70, 150), rng={'p': (1, 9)}, n=200)
    for n in (2, 3) if tier == 'quick' else (2, 3, 5):
        out.append(dict(name=f'small-n{n}', fn=vector, params=dict(n=n, small=True), weight=3 ** n))
    return out + [dict(name='step', fn=step), dict(name='far', fn=far)]
