"""C12: discontinuities in trade ids."""
import itertools
import numpy as np
from finmlkit.bar.data_model import TradesData

BOUNDS = ('2-3 (quick) / 4 (thorough) raw trades: any distinct or repeated ids within 0..2^31, any timestamps within a day after 2023-11-14 in each unit, '
          'in any order; gaps of exactly one minute included; long inputs (40 to several hundred samples, concrete except at 1-3 symbolic positions)')
ASSUMPTIONS = ['a pandas Timestamp or Timedelta is the integer number of nanoseconds it denotes (symbolic times carry that integer through pandas)']
B0 = 1_700_000_000
U = {'s': 10 ** 9, 'ms': 10 ** 6, 'us': 10 ** 3, 'ns': 1}
MIN = 60 * 10 ** 9


def val(c, x):
    """nanoseconds of a time or interval"""
    v = x.value if hasattr(x, 'value') else x
    return c.x(v)


def report(c, n, unit, dup, order):
    f = U[unit]
    lo = B0 * (10 ** 9 // f)
    ids = c.iarr('id', n, 0, 2 ** 31, sort=('asc' if dup else 'strict') if order else None)
    ts = c.iarr('ts', n, lo, lo + 86400 * (10 ** 9 // f), sort=None)
    if not dup and not order:
        for a, b in itertools.combinations(ids.v, 2):
            c.assume(c.Not(a == b))
    p = c.fconst([100.0 + k for k in range(n)])
    a = c.fconst([1.0] * n)
    d = c.call(TradesData, ts.a, p.a, a.a, ids.a, timestamp_unit=unit, preprocess=True)
    # oracle: first occurrence of every id, ordered by id
    first = []
    for j in range(n):
        if not any(bool(ids.v[j] == i) for i, _ in first):
            k = 0
            while k < len(first) and bool(first[k][0] < ids.v[j]):
                k += 1
            first.insert(k, (ids.v[j], ts.v[j] * f))
    want, miss = [], 0
    for (i, t), (j, s) in zip(first, first[1:]):
        if bool(j - i > 1):
            miss = miss + (j - i - 1)
            if bool(s - t > MIN):
                want.append((i, j, t, s))
    got = d.discontinuities
    c.prove(len(got) == len(want), 'a discontinuity for every skip of ids longer than a minute and for nothing else')
    for g, (i, j, t, s) in zip(got, want):
        c.eq(g['start_id'], i, 'last id before the gap', 0)
        c.eq(g['end_id'], j, 'first id after the gap', 0)
        c.eq(g['missing_ids'], j - i - 1, 'number of missing trades', 0)
        c.eq(val(c, g['pre_gap_time']), t, 'time before the gap', 0)
        c.eq(val(c, g['post_gap_time']), s, 'time after the gap', 0)
        c.eq(val(c, g['time_interval']), s - t, 'length of the gap', 0)
    c.eq(d.missing_pct * len(first), miss * 100, 'missing ids in percent of the distinct trades')
    c.prove(bool(d.data_ok) == (not want and len(first) == n), 'data are flagged exactly when ids repeat or a long gap misses ids')


def cases(tier):
    q = tier == 'quick'
    out = []

    def add(name, wt=10, **p):
        out.append(dict(name=name, fn=report, params=p, weight=wt))
    for unit in U:
        add(f'two-{unit}', n=2, unit=unit, dup=True, order=False)
    add('three-sorted', wt=30, n=3, unit='ms', dup=False, order=True)
    add('three-dups', wt=40, n=3, unit='ns', dup=True, order=True)
    add('three-any', wt=80, n=3, unit='s', dup=False, order=False)
    add('four-sorted', wt=200, n=4, unit='ms', dup=False, order=True)
    add('three-any-dups', wt=100, n=3, unit='us', dup=True, order=False)

    def long(name, at, fill={}, fix={}, rng={}, **p):      # long inputs: concrete except at a few positions
        out.append(dict(name=f'long-{name}', fn=report, params=p, weight=40, thin=dict(at=at, fill=fill, fix=fix, rng=rng)))
    M = 50 if q else 150
    for unit in ('s', 'ns'):
        f = 10 ** 9 // U[unit]
        t0 = [B0 * f + (i * 40 + (i // 10) * 30 + (i // 25) * 100) * f for i in range(M)]
        ids = [10 ** 6 + i + (i // 7) * (i % 7 == 0) + i // 7 for i in range(M)]
        for nm, at in (('id', {'id': (14,), '*': ()}), ('time', {'ts': (30,), '*': ()})):
            long(f'{nm}-{unit}', at, {'id': ids, 'ts': t0}, rng={'id': (10 ** 6, 10 ** 6 + 20)}, n=M, unit=unit, dup=True, order=False)
    if not q:
        add('four-dups', wt=300, n=4, unit='ms', dup=True, order=True)
    return out
