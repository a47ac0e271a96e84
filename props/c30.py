"""C30: volume profile kernels: aggregation, bucketing, point of control and value area."""
import numpy as np
from finmlkit.feature.core import volume
from .common import total, fmax

BOUNDS = ('profiles of 1..5 (quick) / 1..7 (thorough) price levels with any non-negative volumes, value-area share symbolic in (0, 100]; '
          'bucketing: 1..7 (9) levels into 1..4 bins; aggregation: 3 (4) bars of concrete overlapping level ranges, symbolic volumes, '
          'symbolic window bounds; long inputs (40 to several hundred samples, concrete except at 1-3 symbolic positions)')
ASSUMPTIONS = ['float32 volumes are exact reals in the encoding']


def greedy(c, V, thr):
    """value area: grow from the point of control by pairs of levels, larger pair first, both on a tie"""
    n = len(V)
    mx = fmax(c, V)
    p = next(k for k in range(n) if bool(V[k] == mx))
    lo = hi = p
    up, dn = p + 1, p - 1
    got = V[p]
    hi_, lo_ = p, p
    z = c.x(0.0)
    while bool(got < thr):
        u = total(V[up:up + 2], z) if up < n else None
        d = total(V[max(0, dn - 1):dn + 1], z) if dn >= 0 else None
        if u is None and d is None:
            break
        gu = d is None or (u is not None and bool(u >= d))
        gd = u is None or (d is not None and bool(d >= u))
        if gu:
            got = got + u
            hi_ = min(up + 1, n - 1)
            up += 2
        if gd:
            got = got + d
            lo_ = max(dn - 1, 0)
            dn -= 2
    return p, hi_, lo_


def area(c, n, base, pct):
    v = c.farr('v', n, lo=0, hi=100, dtype=np.float32)
    lv = c.iconst([base + k for k in range(n)], np.int32)
    pc = c.f('pct', 0, 100) if pct is None else pct
    c.assume(c.x(pc) > 0)
    poc, hva, lva = (c.x(x) for x in c.call(volume.comp_poc_hva_lva, lv.a, v.a, pc))
    V = v.v
    tot = total(V)
    p, h, l = greedy(c, V, tot * c.x(pc / 100.0))
    c.eq(poc, base + p, 'point of control is the lowest level with the largest volume', 0)
    c.eq(hva, base + h, 'upper bound of the value area', 0)
    c.eq(lva, base + l, 'lower bound of the value area', 0)
    inside = total([c.ite(c.And(lva <= base + k, base + k <= hva), V[k], c.x(0.0)) for k in range(n)])
    e = 0 if c.sym else 1e-3
    c.prove(inside + e >= tot * c.x(pc / 100.0), 'the value area holds at least its share of the volume')
    c.prove(c.And(lva <= poc, poc <= hva), 'the value area contains the point of control')
    c.prove(c.And(lva >= base, hva <= base + n - 1), 'the value area lies inside the profile')
    a = c.x(c.call(volume.calc_volume_percentage_above_poc, lv.a, v.a, poc if c.sym else int(poc)))
    if bool(tot > 0):
        c.eq(a * tot, total(V[p + 1:], c.x(0.0)), 'share of volume above the point of control', 1e-5)
    else:
        c.eq(a, 0, 'no volume, no share')


def bucket(c, n, nb, base):
    v = c.farr('v', n, lo=0, hi=100, dtype=np.float32)
    lv = c.iconst([base + k for k in range(n)], np.int32)
    P, B = (c.xs(x) for x in c.call(volume.bucket_price_levels, lv.a, v.a, nb))
    c.prove(len(P) == len(B), 'one volume per bucket')
    c.eq(total(B), total(v.v), 'bucketing conserves the volume', 1e-5)
    w = max(1, (n - 1) // nb)
    w += w % 2 == 0
    m = -(-(n) // w)
    c.prove(len(P) == m, 'number of buckets')
    if len(P) != m:
        return
    for k in range(m):
        c.eq(B[k], total(v.v[k * w:(k + 1) * w]), 'bucket volume is the volume of its levels', 1e-5)
        hi = base + min((k + 1) * w, n) - 1
        full = (k + 1) * w <= n
        if full:
            c.eq(P[k], base + k * w + (w - 1) // 2, 'bucket is represented by its middle level', 0)
        else:
            c.prove(c.And(P[k] >= base + k * w, P[k] < base + (k + 1) * w), 'a partial bucket is represented by a level of its range')


LEVELS = [[3, 4, 5], [4], [1, 2], [5, 6, 7]]


def agg(c, n, tick):
    levels = LEVELS[:n]
    ts = [10, 20, 20, 35][:n]
    B = [c.farr(f'b{k}', len(l), lo=0, hi=50, dtype=np.float32) for k, l in enumerate(levels)]
    S = [c.farr(f's{k}', len(l), lo=0, hi=50, dtype=np.float32) for k, l in enumerate(levels)]
    lv = [c.iconst(l, np.int32) for l in levels]
    hi = c.fconst([l[-1] * tick for l in levels])
    lo = c.fconst([l[0] * tick for l in levels])
    t = c.iconst(ts, np.int64)
    a = c.choice('start', 5) * 10 - 5
    b = c.choice('end', 4) * 10 + 10
    c.assume(a <= b)
    inside = [k for k in range(n) if a <= ts[k] <= b]
    c.assume(bool(inside))
    mk = (lambda L: L) if c.sym else volume.NumbaList
    r = c.call(volume.aggregate_footprint, t.a, hi.a, lo.a, mk([x.a for x in lv]), mk([x.a for x in B]), mk([x.a for x in S]), a, b, tick)
    P, AB, AS = (c.xs(x) for x in r)
    low, high = min(levels[k][0] for k in inside), max(levels[k][-1] for k in inside)
    c.eqs(P, list(range(low, high + 1)), 'levels are contiguous from the lowest low to the highest high of the window', 0)
    if len(P) != high - low + 1:
        return
    for j, p in enumerate(range(low, high + 1)):
        for nm, got, src in (('buy', AB, B), ('sell', AS, S)):
            c.eq(got[j], total([src[k].v[levels[k].index(p)] for k in inside if p in levels[k]], c.x(0.0)),
                 f'{nm} volume of a level is summed over the bars of the window', 1e-5)


def cases(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn, wt=1, **p):
        out.append(dict(name=name, fn=fn, params=p, weight=wt))
    for n in range(1, 6 if q else 8):
        for pct in ((None, 75.0) if n < 5 or not q else (75.0,)):
            add(f'area-{n}-{pct}', area, 3 ** n, n=n, base=100, pct=pct)
    for n in range(1, 8 if q else 10):
        for nb in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
            add(f'bucket-{n}-{nb}', bucket, n=n, nb=nb, base=50)
    for tick in (1.0, 0.01) if q else (1.0, 0.01, 0.25, 5.0):
        add(f'aggregate-{tick}', agg, 4, n=3 if q else 4, tick=tick)

    def long(name, fn, at, fill={}, fix={}, rng={}, **p):      # long inputs: concrete except at a few positions
        out.append(dict(name=f'long-{name}', fn=fn, params=p, weight=40, thin=dict(at=at, fill=fill, fix=fix, rng=rng)))
    hill = lambda i: 100 if i == 40 else 50 - abs(i - 40) % 23 + i % 3
    for b in (40000, 5 * 10 ** 6):
        long(f'area-{b}', area, (39, 44), fill={'v': hill}, rng={'v': (44, 60)}, n=90, base=b, pct=70.0)
        long(f'bucket-{b}', bucket, (5, 170), n=200, nb=20, base=b)
        add(f'bucket-high-{b}', bucket, n=5, nb=2, base=b)
    # equal pairs on both sides, then the last levels
    for n, p in ((8, 4), (9, 4), (10, 5)):
        flat = [10] * n
        flat[p] = 60
        long(f'ends-{n}-{p}', area, (0, 1, n - 2, n - 1), fill={'v': flat}, rng={'v': (0, 9)}, n=n, base=100, pct=None)
    return out
