"""C24: symmetric CUSUM event filter."""
import numpy as np
from finmlkit.sampling import filters

BOUNDS = ('series of 2..5 (quick) / 2..7 (thorough) positive prices; constant or per-sample thresholds >= 0'
          '; long inputs (40 to several hundred samples, concrete except at 1-3 symbolic positions)')
ASSUMPTIONS = ['logarithms of prices are any strictly increasing function values (l_i < l_j iff p_i < p_j, sign agrees with p vs 1)']


def events(c, logs, thr):
    """declarative: s+ at i is the largest rise ending at i that starts at or after the last upward event"""
    out = []
    up = dn = 0                      # position of the last upward / downward event
    for i in range(1, len(logs)):
        sp, sn = c.x(0), c.x(0)
        for j in range(up, i):
            sp = c.max(sp, logs[i] - logs[j])
        for j in range(dn, i):
            sn = c.min(sn, logs[i] - logs[j])
        if sn < -thr[i]:
            out.append(i)
            dn = i
        elif sp > thr[i]:
            out.append(i)
            up = i
    return out


def run(c, n, const):
    p = c.parr('p', n)
    t = c.farr('thr', 1 if const else n, lo=0, hi=100)
    ev = c.call(filters.cusum_filter, p.a, t.a)
    logs = [c.log(v) for v in p.v]
    # exploit p0 as the reference: only differences matter
    want = events(c, logs, [t.v[0]] * n if const else t.v)
    c.eqs(ev, want, 'event positions', 0)


def bad_len(c, n, m):
    p = c.parr('p', n)
    t = c.farr('thr', m, lo=0, hi=100)
    r = c.call(filters.cusum_filter, p.a, t.a, raises=(ValueError,))
    c.prove(isinstance(r, ValueError), 'mismatched threshold length is rejected')


def cases(tier):
    top = 4 if tier == 'quick' else 6
    out = []
    for n in range(2, top + 1):
        for const in (True, False):
            out.append(dict(name=f'n{n}-{"const" if const else "vary"}', fn=run, params=dict(n=n, const=const), weight=10 ** n))
    out.append(dict(name='bad-threshold-length', fn=bad_len, params=dict(n=4, m=2)))
    out.append(dict(name='too-short', fn=bad_len, params=dict(n=1, m=1)))

    def long(name, fn, at, fill={}, fix={}, rng={}, **p):      # long inputs: concrete except at a few positions
        out.append(dict(name=f'long-{name}', fn=fn, params=p, weight=40, thin=dict(at=at, fill=fill, fix=fix, rng=rng)))
    n = 60 if tier == 'quick' else 120
    long('const', run, {'p': (n // 2,)}, fill={'thr': [2]}, n=n, const=True)
    long('vary', run, {'p': (n // 2,)}, n=n, const=False)
    long('threshold', run, {'thr': (n // 2, n - 2)}, n=n, const=False)
    return out
