"""C03: CUSUM bars."""
import numpy as np
import itertools
from finmlkit.bar import logic, kit

BOUNDS = ('2..4 trades (quick) / 2..5 (thorough); any non-decreasing timestamps, positive prices, sigma >= 0 with every NaN pattern'
          '; long inputs (40 to several hundred samples, concrete except at 1-3 symbolic positions)')
ASSUMPTIONS = ['logarithms of prices are any strictly increasing function values (l_i < l_j iff p_i < p_j, sign agrees with p vs 1)']


def ffill(c, sig):
    first = 0
    for i, s in enumerate(sig):
        if not c.isnan(s):
            first = i
            break
    out, cur = [], None
    for i, s in enumerate(sig):
        cur = s if not c.isnan(s) else cur
        out.append(cur)
    return first, out


def want_closes(c, ts, logs, sig, floor, mult):
    first, f = ffill(c, sig)
    out = [first]
    up = dn = first
    n = len(ts)
    for i in range(first + 1, n):
        sp, sn = c.x(0), c.x(0)
        for j in range(up, i):
            sp = c.max(sp, logs[i] - logs[j])
        for j in range(dn, i):
            sn = c.min(sn, logs[i] - logs[j])
        if i + 1 < n and ts[i] == ts[i + 1]:
            continue
        lam = c.max(mult * f[i], floor)
        if sp >= lam:
            out.append(i)
            up = i
        elif sn <= -lam:
            out.append(i)
            dn = i
    return out


def run(c, n, pat):
    ts = c.iarr('ts', n, 0, 1000, sort='asc')
    p = c.parr('p', n)
    sg = c.farr('sigma', n, lo=0, hi=100, nan=pat)
    floor = c.f('floor', lo=0, hi=10)
    mult = c.f('mult', lo=0, hi=10)
    got = c.call(logic._cusum_bar_indexer, ts.a, p.a, sg.a, floor, mult)
    logs = [c.log(v) for v in p.v]
    want = want_closes(c, ts.v, logs, sg.v, c.x(floor), c.x(mult))
    got = c.xs(list(got))
    c.eqs(got, want, 'bar close positions', 0)
    for g in got[1:]:
        i = g.__index__() if c.sym else int(g)
        if i + 1 < n:
            c.prove(ts.v[i] < ts.v[i + 1], 'a bar never closes inside a block of identical timestamps')


def lens(c, a, b, d):
    ts = c.iarr('ts', a, 0, 1000, sort='asc')
    p = c.parr('p', b)
    sg = c.farr('sigma', d, lo=0, hi=100)
    r = c.call(logic._cusum_bar_indexer, ts.a, p.a, sg.a, c.cf(0.5), c.cf(1.0), raises=(ValueError,))
    c.prove(isinstance(r, ValueError), 'inputs of different lengths are rejected')


def cases(tier):
    out = []
    q = tier == 'quick'
    top = 3 if tier == 'quick' else 5
    for n in range(2, top + 1):
        for pat in itertools.product((False, True), repeat=n):
            if all(pat):
                continue
            if n >= 5 and sum(pat) > 2:
                continue
            out.append(dict(name=f'n{n}-nan' + ''.join('x' if q else '.' for q in pat), fn=run, params=dict(n=n, pat=list(pat)),
                            weight=10 * n - sum(pat)))
    if tier == 'quick':
        out.append(dict(name='n4-nan....', fn=run, params=dict(n=4, pat=[False] * 4), weight=60))
        out.append(dict(name='n4-nan.xx.', fn=run, params=dict(n=4, pat=[False, True, True, False]), weight=60))

    def long(name, fn, at, fill={}, fix={}, rng={}, **p):      # long inputs: concrete except at a few positions
        out.append(dict(name=f'long-{name}', fn=fn, params=p, weight=40, thin=dict(at=at, fill=fill, fix=fix, rng=rng)))
    N = 80 if q else 200
    px = [min(4, max(-4, (i * i // 9) % 9 - 4 + i % 2)) for i in range(N)]
    sg, tie = [1.25 + 0.25 * (i % 5) for i in range(N)], [3 * (i - i % 4) for i in range(N)]
    for nm, floor, mult, at, nan_ in (('quiet', 1, 0.5, N // 2, [3]), ('busy', 0.25, 0.125, 10, [0, 1, 2, 20, 21]), ('never', 50, 1, N - 3, [])):
        at |= 3
        F, X = {'ts': tie, 'p': px, 'sigma': sg}, {'floor': floor, 'mult': mult}
        nn = [i in nan_ for i in range(N)]
        long(nm, run, {'p': (at,)}, fill=F, fix=X, n=N, pat=nn)
        long(nm + '-sigma', run, {'sigma': (at - 8, at - 4, at)}, fill=F, fix=X, rng={'sigma': (0.01, 99)}, n=N, pat=nn)
        long(nm + '-time', run, {'ts': (at, at + 1)}, fill=F, fix=X, n=N, pat=nn)
    for a, b, d in ((3, 3, 2), (3, 2, 3), (2, 3, 3), (4, 3, 2)):
        out.append(dict(name=f'lengths-{a}-{b}-{d}', fn=lens, params=dict(a=a, b=b, d=d)))
    return out
