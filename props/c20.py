"""C20: label concurrency, average uniqueness."""
import numpy as np
from finmlkit.label import weights
from .common import total

BOUNDS = ('up to 5 prices and 3 overlapping events (quick) / 6 prices, 4 events (thorough), every placement of event and touch positions'
          '; long inputs (40 to several hundred samples, concrete except at 1-3 symbolic positions)')


def spans(c, n, ne):
    ev = c.iarr('ev', ne, 0, n - 1)
    to = c.iarr('touch', ne, 0, n - 1)
    for a, b in zip(ev.v, to.v):
        c.assume(a <= b)
    return ev, to


def run(c, n, ne):
    ev, to = spans(c, n, ne)
    t = c.fconst([10 ** 9 * k for k in range(n)], np.int64)
    w, cc = c.call(weights.average_uniqueness, t.a, ev.a, to.a)
    w, cc = c.xs(w), c.xs(cc)
    for j in range(n):
        c.eq(cc[j], total([c.num(c.And(a <= j, j <= b)) for a, b in zip(ev.v, to.v)], c.x(0)),
             'concurrency counts the events whose span covers the price', 0)
    for e in range(ne):
        tot = c.x(0.0)
        ln = to.v[e] - ev.v[e] + 1
        for j in range(n):
            inside = c.And(ev.v[e] <= j, j <= to.v[e])
            tot = tot + c.ite(inside, c.x(1.0) / c.ite(cc[j] > 0, cc[j], c.x(1)), c.x(0.0))
        c.eq(w[e] * ln, tot, 'uniqueness is the mean reciprocal concurrency over the span')
        c.prove(c.And(w[e] > 0, w[e] <= 1), 'uniqueness lies in (0, 1]')
        alone = [c.Or(to.v[o] < ev.v[e], to.v[e] < ev.v[o]) for o in range(ne) if o != e]
        c.prove(c.Implies(c.And(True, *alone), w[e] == 1), 'an event that overlaps nothing has uniqueness one')


def cases(tier):
    ds = [(3, 1), (3, 2), (4, 2), (3, 3)] if tier == 'quick' else [(5, 2), (4, 3), (5, 3), (3, 4)]
    out = [dict(name=f'n{n}-events{e}', fn=run, params=dict(n=n, ne=e), weight=n * e * e) for n, e in ds]

    def long(name, fn, at, fill={}, fix={}, rng={}, **p):      # long inputs: concrete except at a few positions
        out.append(dict(name=f'long-{name}', fn=fn, params=p, weight=40, thin=dict(at=at, fill=fill, fix=fix, rng=rng)))
    # many labels over the same prices: more than 127 (255) alive at once
    for m in (140, 270) if tier == 'quick' else (140, 270, 600):
        long(f'stacked-{m}', run, {'touch': (m // 2,)}, fill={'ev': [0] * (m - 2) + [3, 3], 'touch': [2, 3] * (m // 2 - 1) + [3, 3]}, n=4, ne=m)
    long('spread', run, {'touch': (10,)}, fill={'ev': [3 * i for i in range(30)], 'touch': [min(99, 3 * i + i % 20) for i in range(30)]}, n=100, ne=30)
    return out
