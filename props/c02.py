"""C02: tick / volume / dollar bars close exactly at the threshold."""
import numpy as np
from finmlkit.bar import logic
from .common import total

BOUNDS = ('1..6 trades (quick) / 1..9 (thorough); any non-negative volumes, positive prices, threshold > 0 (tick: 1..n+1)'
          '; long inputs (40 to several hundred samples, concrete except at 1-3 symbolic positions)')


def tick(c, n):
    thr = c.i('thr', 1, n + 1)
    ts = c.iarr('ts', n, 0, 10 ** 6, sort='asc')
    out = c.xs(list(c.call(logic._tick_bar_indexer, ts.a, thr)))
    c.prove(len(out) >= 1 and out[0] == 0, 'the first trade opens the series')
    # number of trades seen since the last close (the first trade counts towards the first bar)
    cl = [int(v) if not c.sym else v.__index__() for v in out]
    for a, b in zip(cl, cl[1:]):
        seen = b - a + (1 if a == 0 else 0)
        if a == 0:
            c.prove(c.Or(seen == thr, c.And(thr <= 1, b == 1)), 'the first bar holds exactly threshold trades')
        else:
            c.prove(seen == thr, 'each later bar holds exactly threshold trades')
    left = n - 1 - cl[-1] + (1 if cl[-1] == 0 else 0)
    c.prove(c.Or(left < thr, c.And(n == 1, thr <= 1)), 'no threshold is left uncrossed at the end')


def volume(c, n):
    v = c.farr('v', n, lo=0)
    thr = c.f('thr', pos=True)
    out = c.xs(list(c.call(logic._volume_bar_indexer, v.a, thr)))
    thr = c.x(thr)
    cl = [v_.__index__() if c.sym else int(v_) for v_ in out]
    c.obs('close positions', len(cl))
    for v_ in cl:
        c.obs('close position', v_)
    c.prove(cl[0] == 0, 'the first trade opens the series')
    for k, a in enumerate(cl):
        lo = 0 if k == 0 else a + 1
        b = cl[k + 1] if k + 1 < len(cl) else n
        for j in range(max(a + 1, 1), min(b, n)):
            c.prove(total(v.v[lo:j + 1], c.x(0.0)) < thr, 'no close while the bar volume is below the threshold')
            c.prove(True, 'between closes')
        if b < n:
            c.prove(total(v.v[lo:b + 1], c.x(0.0)) >= thr, 'a bar closes only once its own volume reaches the threshold')


def dollar(c, n):
    v = c.farr('v', n, lo=0)
    p = c.farr('p', n, pos=True)
    thr = c.f('thr', pos=True)
    out = c.xs(list(c.call(logic._dollar_bar_indexer, p.a, v.a, thr)))
    thr = c.x(thr)
    cl = [v_.__index__() if c.sym else int(v_) for v_ in out]
    c.obs('close positions', len(cl))
    for v_ in cl:
        c.obs('close position', v_)
    c.prove(cl[0] == 0, 'the first trade opens the series')
    k = 0
    s = p.v[0] * v.v[0]
    for i in range(1, n):
        s = s + p.v[i] * v.v[i]
        if i in cl[1:]:
            c.prove(s - thr * k >= thr, 'closes only when traded value plus carried remainder reaches the threshold')
            k += 1
        else:
            c.prove(s - thr * k < thr, 'always closes when traded value plus carried remainder reaches the threshold')
    c.prove(all(a < b for a, b in zip(cl, cl[1:])) and k == len(cl) - 1, 'closes are strictly increasing')


def cases(tier):
    top = 5 if tier == 'quick' else 8
    out = []
    for n in range(1, top + 1):
        out.append(dict(name=f'tick-n{n}', fn=tick, params=dict(n=n)))
        out.append(dict(name=f'volume-n{n}', fn=volume, params=dict(n=n), weight=n))
        out.append(dict(name=f'dollar-n{n}', fn=dollar, params=dict(n=n), weight=n * 2))

    def long(name, fn, at, fill={}, fix={}, rng={}, **p):      # long inputs: concrete except at a few positions
        out.append(dict(name=f'long-{name}', fn=fn, params=p, weight=40, thin=dict(at=at, fill=fill, fix=fix, rng=rng)))
    N = 400 if tier == 'quick' else 2000
    for thr in (1, 7, 150, 300):
        long(f'tick-{thr}', tick, (), fix={'thr': thr}, n=N)
    long('volume', volume, (N // 2, -3), fix={'thr': 70}, rng={'v': (0, 20)}, n=N)
    long('volume-one', volume, (100,), fix={'thr': 1000}, rng={'v': (0, 8)}, n=N)
    long('dollar', dollar, {'v': (N // 2, -3)}, fix={'thr': 300}, rng={'v': (0, 6)}, n=N)
    long('dollar-one', dollar, {'p': (100,)}, fix={'thr': 2000}, rng={'p': (1, 4)}, n=N)
    return out
