"""C11: preprocessing of raw trades."""
import itertools
import numpy as np
from finmlkit.bar.data_model import TradesData
from finmlkit.bar import utils

BOUNDS = ('2-3 (quick) / 4 (thorough) raw trades: every arrangement of ids over 3 values (duplicates, any order), timestamps over two or three instants, '
          'symbolic prices (equal or at least 2e-8 apart), amounts and maker flags or sides or neither, timestamp units and processing resolutions; '
          'merging kernel: up to 4 (5) trades with symbolic timestamps; long inputs (40 to several hundred samples, concrete except at 1-3 symbolic positions)')
SINGLE = True        # amounts are stored in single precision by design
ASSUMPTIONS = ['prices are equal or differ by more than the 1e-8 guard of the code', 'float32 amounts are exact reals in the encoding',
               'pandas sorts, de-duplicates and aligns the symbolic columns itself; ids and timestamps are concrete on each path']
B0 = 1_700_000_000
U = {'s': 10 ** 9, 'ms': 10 ** 6, 'us': 10 ** 3, 'ns': 1}


def separated(c, p):
    for a, b in itertools.combinations(p, 2):
        c.assume(c.Or(a == b, a - b >= c.x(2e-8), b - a >= c.x(2e-8)))


def merged(c, rows, sided):
    """rows: (ts, price, amount, side) in order -> merged rows"""
    out = []
    for ts, p, a, s in rows:
        if out and bool(out[-1][0] == ts) and bool(out[-1][1] == p) and (not sided or bool(out[-1][3] == s)):
            out[-1][2] = out[-1][2] + a
        else:
            out.append([ts, p, a, s])
    return out


def tick_rule(c, prices):
    s, out = 0, []
    for i, p in enumerate(prices):
        if i:
            s = 1 if bool(p > prices[i - 1]) else (-1 if bool(p < prices[i - 1]) else s)
        out.append(s)
    return out


def pipeline(c, n, ids, times, mode, unit, res=None, base=None):
    k = c.choice('ids', len(ids))
    I = list(ids[k])
    T = list(times[c.choice('times', len(times))])
    f = U[unit]
    base = base if base is not None else B0 * (10 ** 9 // f)
    raw = [base + t for t in T]
    p = c.farr('p', n, lo=1, hi=1000)
    separated(c, p.v)
    a = c.farr('a', n, lo=0, hi=1000)
    kw = {}
    sides = [0] * n
    if mode == 'maker':
        m = c.barr('maker', n)
        sides = [-1 if bool(x) else 1 for x in m.v]
        kw['is_buyer_maker'] = np.array([s == -1 for s in sides])
    elif mode == 'side':
        sides = [1 if c.choice(f's{i}', 2) else -1 for i in range(n)]
        kw['side'] = np.array(sides, dtype=np.int8)
    d = c.call(TradesData, np.array(raw, dtype=np.int64), p.a, a.a, np.array(I, dtype=np.int64), timestamp_unit=unit,
               preprocess=True, proc_res=res, **kw)
    df = d.data
    seen, keep = set(), []
    for j in range(n):
        if I[j] not in seen:
            seen.add(I[j])
            keep.append(j)
    keep.sort(key=lambda j: (raw[j], I[j]))
    rows = merged(c, [[raw[j] * f, p.v[j], a.v[j], sides[j]] for j in keep], mode is not None)
    q = U[res] if res and res != unit else 1
    c.prove(len(df) == len(rows), 'one row per trade after removing duplicate ids and merging split trades')
    if len(df) != len(rows):
        return
    c.eqs(df['timestamp'], [r[0] // q * q for r in rows], 'trades are in time order with their own time (at the requested resolution)', 0)
    c.eqs(df['price'], [r[1] for r in rows], 'price of the trade')
    c.eqs(df['amount'], [r[2] for r in rows], 'amount of the trade, split trades added up')
    want = [r[3] for r in rows] if mode else tick_rule(c, [r[1] for r in rows])
    c.eqs(df['side'], want, 'side of the trade', 0)
    c.prove([int(x.value) for x in df.index] == [r[0] // q * q for r in rows], 'the index is the time of the trade')
    c.prove(bool(d.data_ok) == (len(seen) == n and not big_gap(I, raw, f)), 'data are flagged exactly when ids repeat or a long gap misses ids')


def big_gap(I, raw, f):
    first = {}
    for j, i in enumerate(I):
        first.setdefault(i, raw[j] * f)
    s = sorted(first)
    return any(b - a > 1 and first[b] - first[a] > 60 * 10 ** 9 for a, b in zip(s, s[1:]))


def untouched(c, n):
    """without preprocessing the table is what was passed in"""
    t = c.fconst([B0 * 10 ** 9 + 5 - k for k in range(n)], np.int64)
    p, a = c.farr('p', n, lo=1, hi=1000), c.farr('a', n, lo=0, hi=1000)
    d = c.call(TradesData, np.array([B0 * 10 ** 9 + 5 - k for k in range(n)], dtype=np.int64), p.a, a.a, np.arange(n))
    c.eqs(d.data['timestamp'], t.v, 'timestamps as passed', 0)
    c.eqs(d.data['price'], p.v, 'prices as passed')
    c.eqs(d.data['amount'], a.v, 'amounts as passed')


def no_id(c):
    p = c.farr('p', 2, lo=1, hi=1000)
    r = c.call(TradesData, np.array([B0, B0 + 1], dtype=np.int64), p.a, np.ones(2), preprocess=True, raises=(ValueError,))
    c.prove(isinstance(r, ValueError), 'preprocessing without ids is refused')


def kernel(c, n, sided):
    t = c.iarr('t', n, B0 * 10 ** 9, B0 * 10 ** 9 + 10, sort='asc')
    p, a = c.farr('p', n, lo=1, hi=1000), c.farr('a', n, lo=0, hi=1000, dtype=np.float32)
    separated(c, p.v)
    m = c.barr('maker', n) if sided else None
    ts, px, am, sd = c.call(utils.merge_split_trades, t.a, p.a, a.a, m.a if sided else None)
    s = [c.ite(x, c.x(-1), c.x(1)) for x in m.v] if sided else [0] * n
    rows = merged(c, [[t.v[j], p.v[j], a.v[j], s[j]] for j in range(n)], sided)
    ts = c.xs(ts)
    c.prove(len(ts) == len(rows), 'trades of equal time, price and side are merged, others are not')
    if len(ts) != len(rows):
        return
    c.eqs(ts, [r[0] for r in rows], 'time', 0)
    c.eqs(px, [r[1] for r in rows], 'price')
    c.eqs(am, [r[2] for r in rows], 'amounts of merged trades are added')
    if sided:
        c.eqs(sd, [r[3] for r in rows], 'side')


def cases(tier):
    q = tier == 'quick'
    I2 = list(itertools.product((0, 1), repeat=2))
    I3 = list(itertools.product((0, 1, 2), repeat=3))
    T3 = list(itertools.product((0, 1), repeat=3))
    out = []

    def add(name, fn=pipeline, wt=5, **p):
        out.append(dict(name=name, fn=fn, params=p, weight=wt))
    for mode in (None, 'maker', 'side'):
        add(f'two-{mode}', n=2, ids=I2, times=list(itertools.product((0, 1), repeat=2)), mode=mode, unit='ms')
    add('order-none', wt=30, n=3, ids=I3, times=[(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 1, 1), (1, 2, 0)], mode=None, unit='ms')
    add('order-maker-a', wt=60, n=3, ids=[(0, 1, 2), (2, 0, 1), (1, 1, 2), (2, 1, 1), (0, 2, 0)], times=[(0, 0, 0), (1, 0, 0), (0, 0, 1)], mode='maker', unit='ms')
    add('order-side-a', wt=60, n=3, ids=[(0, 1, 2), (2, 1, 0), (1, 1, 2), (2, 1, 1)], times=[(0, 0, 0), (0, 1, 0)], mode='side', unit='us')
    for unit in U:
        for res in (None, 's', 'ms', 'us', 'ns'):
            if unit == 's' and res is None or res in ('s', 'ms', 'us', 'ns'):
                b = B0 * (10 ** 9 // U[unit]) + 123456789 % (10 ** 9 // U[unit]) - (1 if unit != 's' else 0)
                add(f'unit-{unit}-{res}', n=2, ids=[(0, 1), (1, 0)], times=[(0, 0), (0, 1), (0, 1000), (1, 0)], mode=None, unit=unit, res=res, base=b)
    add('gaps', n=3, ids=[(0, 1, 2), (0, 1, 3), (0, 2, 3), (3, 9, 5)], times=[(0, 60, 121), (0, 61, 122), (0, 60, 120)], mode=None, unit='s')
    add('untouched', untouched, n=3)
    add('no-id', no_id)
    for n in range(1, 4 if q else 6):
        for sided in (False, True):
            add(f'merge-{n}-{sided}', kernel, 3 ** n, n=n, sided=sided)
    def long(name, fn, at, fill={}, fix={}, rng={}, **p):      # long inputs: concrete except at a few positions
        out.append(dict(name=f'long-{name}', fn=fn, params=p, weight=40, thin=dict(at=at, fill=fill, fix=fix, rng=rng)))
    N = 60 if q else 200
    T = B0 * 10 ** 9
    grid = {'t': [T + i // 6 for i in range(N)], 'p': [100 + i // 3 % 4 for i in range(N)], 'maker': [i // 12 % 2 for i in range(N)], 'a': [1 + i % 5 for i in range(N)]}
    for sided in (False, True):
        for nm, at in (('p', {'p': (N // 2, -1)}), ('maker', {'maker': (N // 2 + 1, -1)}), ('t', {'t': (N // 2, N // 2 + 1)}), ('a', {'a': (5, N // 2)})):
            if sided or nm != 'maker':
                long(f'merge-{nm}-{sided}', kernel, at, fill=grid, n=N, sided=sided)
    # many trades out of order, with repeated ids and ties in time
    M = 40 if q else 120
    ids = [(i * 17 + 5) % (M - 3) for i in range(M)]
    fill = {'p': [100 + (i // 2) % 3 for i in range(M)], 'a': [1 + i % 5 for i in range(M)], 'maker': [i // 3 % 2 for i in range(M)]}
    for mode in (None, 'maker'):
        for nm, tm in (('ties', [ids[i] // 6 for i in range(M)]), ('shuffled', [(i * 13) % 7 for i in range(M)]), ('sorted', [i // 3 for i in range(M)])):
            long(f'pipeline-{nm}-{mode}', pipeline, {'p': (9,), 'a': (20,)}, fill=fill, n=M, ids=[ids], times=[tm], mode=mode, unit='ms')
    # a long block of one trade split many times
    for sided in (False, True):
        long(f'one-block-{sided}', kernel, {'p': (N // 2,), 'a': (3,)}, fill={'t': [T] * N, 'p': [7] * N, 'maker': [0] * N, 'a': [2] * N}, n=N, sided=sided)
    if not q:
        I4 = [(0, 1, 2, 3), (3, 2, 1, 0), (1, 0, 3, 2), (0, 0, 1, 2), (2, 0, 1, 0), (1, 2, 1, 2)]
        for mode in (None, 'maker'):
            add(f'order4-{mode}', wt=200, n=4, ids=I4, times=[(0, 0, 0, 0), (0, 1, 0, 1), (1, 1, 0, 0), (0, 0, 1, 1)], mode=mode, unit='ms')
    return out
