"""C21: return attribution."""
import numpy as np
from finmlkit.label import weights
from .common import total
from .c20 import spans

BOUNDS = ('up to 4 prices (quick) / 5 (thorough), up to 2 (3) events, symbolic prices with exact logarithms, any positive concurrency or the computed one'
          '; long inputs (40 to several hundred samples, concrete except at 1-3 symbolic positions)')
ASSUMPTIONS = ['log is strictly increasing with log 1 = 0 and log(a/b) = log a - log b']


def run(c, n, ne, norm, own):
    p = c.parr('p', n)
    ev, to = spans(c, n, ne)
    if own:
        t = c.fconst(list(range(n)), np.int64)
        _, cc = c.call(weights.average_uniqueness, t.a, ev.a, to.a)
        cv = c.xs(cc)
    else:
        A = c.iarr('conc', n, 0, 4, dtype=np.int16)
        cc, cv = A.a, A.v
    r = c.call(weights.return_attribution, ev.a, to.a, p.a, cc, norm, raises=(ValueError,))
    lg = [c.log(x) for x in p.v]
    want = []
    for e in range(ne):
        a, b = (ev.v[e].__index__(), to.v[e].__index__()) if c.sym else (int(ev.v[e]), int(to.v[e]))
        s = c.x(0.0)
        for j in range(max(a, 1), b + 1):
            if bool(cv[j] > 0):
                s = s + (lg[j] - lg[j - 1]) / cv[j]
        want.append(abs(s))
    tot = total(want, c.x(0.0))
    if not norm:
        c.eqs(r, want, 'absolute return of the span, each step shared among the events alive')
        return
    if isinstance(r, Exception):
        c.prove(tot <= 1e-9, 'normalisation is refused only when no return was attributed')
        return
    g = c.xs(r)
    if not c.sym and tot < 1e-9:
        return
    for e in range(ne):
        c.eq(g[e] * tot, want[e] * ne, 'normalised weights keep the proportions and average one', obs=False)


def cases(tier):
    q = tier == 'quick'
    out = []
    for n, ne in ((2, 1), (3, 1), (3, 2)) if q else ((3, 2), (4, 2), (3, 3), (5, 1)):
        for norm in (False, True):
            out.append(dict(name=f'n{n}-events{ne}{"-norm" if norm else ""}', fn=run,
                            params=dict(n=n, ne=ne, norm=norm, own=True), weight=n * n * ne))
    out.append(dict(name='n4-any-concurrency', fn=run, params=dict(n=4, ne=1, norm=False, own=False), weight=30))

    def long(name, fn, at, fill={}, fix={}, rng={}, **p):      # long inputs: concrete except at a few positions
        out.append(dict(name=f'long-{name}', fn=fn, params=p, weight=40, thin=dict(at=at, fill=fill, fix=fix, rng=rng)))
    long('stacked', run, {'p': (2,)}, fill={'ev': [0] * 138 + [3, 3], 'touch': [2, 3] * 69 + [3, 3]}, n=4, ne=140, norm=False, own=True)
    long('spread', run, {'p': (100,)}, fill={'ev': lambda i: 3 * i, 'touch': lambda i: min(149, 3 * i + i % 40)}, n=150, ne=45, norm=False, own=True)
    return out
