"""C22: linear time decay."""
import numpy as np
from finmlkit.label import weights
from .common import total

BOUNDS = ('up to 4 events (quick) / 6 (thorough), any non-negative uniqueness with positive total, any decay parameter in [-1, 1]'
          '; long inputs (40 to several hundred samples, concrete except at 1-3 symbolic positions)')


def run(c, n, lw):
    u = c.farr('u', n, lo=0, hi=10)
    if c.sym or lw is not None:
        last = c.f('last', -1, 1) if lw is None else lw
    else:
        last = c.f('last', -1, 1)
    tot = total(u.v)
    c.assume(tot > 0.001)
    w = c.xs(c.call(weights.time_decay, u.a, last))
    L = c.x(last)
    cum, s = [], c.x(0.0)
    for x in u.v:
        s = s + x
        cum.append(s)
    c.eq(w[-1], 1, 'newest observation keeps full weight')
    for i in range(n):
        c.prove(c.And(w[i] >= -1e-9, w[i] <= 1 + 1e-9), 'weights lie in [0, 1]')
        if i:
            c.prove(w[i] >= w[i - 1] - 1e-9, 'weights never decrease with time')
        if bool(L >= 0):
            c.eq(w[i] * tot, L * tot + (1 - L) * cum[i], 'linear in cumulative uniqueness from the decay parameter to one')
        elif bool(L == -1):
            c.eq(w[i], c.ite(cum[i] >= tot, c.x(1.0), c.x(0.0)), 'full erasure keeps only the newest observation')
        elif bool(cum[i] <= -L * tot):
            c.eq(w[i], 0, 'the oldest portion is erased')
        else:
            c.eq(w[i] * (1 + L) * tot, cum[i] + L * tot, 'linear from zero at the erased portion to one')


def cases(tier):
    top = 3 if tier == 'quick' else 5
    out = []
    for n in range(1, top + 1):
        out.append(dict(name=f'n{n}', fn=run, params=dict(n=n, lw=None), weight=n))
        for lw in (-1.0, -0.5, 0.0, 1.0):
            out.append(dict(name=f'n{n}-last{lw}', fn=run, params=dict(n=n, lw=lw), weight=n))

    def long(name, fn, at, fill={}, fix={}, rng={}, **p):      # long inputs: concrete except at a few positions
        out.append(dict(name=f'long-{name}', fn=fn, params=p, weight=40, thin=dict(at=at, fill=fill, fix=fix, rng=rng)))
    for lw in (-0.5, 0.25):
        long(f'{lw}', run, {'u': (40, 100)}, n=150, lw=lw)
    return out
