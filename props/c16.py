"""C16: trades written to and read from HDF5."""
import contextlib
import itertools
import os
import shutil
import tempfile
import numpy as np
import pandas as pd
from finmlkit.bar.data_model import TradesData
from finmlkit.bar.io import H5Inspector

BOUNDS = ('histories of 1-3 saves (overwriting, appending, rewriting the file) of 1-2 trades each at any nanosecond of two adjacent months in any relation to each '
          'other, any query range or none, by range or by month key, every completion order of the parallel readers; '
          'long histories of 60 (300) trades with many equal times, two of them with symbolic price and amount')
SINGLE = True        # amounts are stored in single precision by design
ASSUMPTIONS = ['the HDF5 library stores and returns tables faithfully and selects rows by exact index comparison (an in-memory store stands in for it while '
               'exploring; every counterexample and every sampled path is replayed against real HDF5 files)',
               'trades of one save, and all trades of a history with month keys of the caller, have distinct timestamps in the symbolic histories']
LO, HI = pd.Timestamp('2023-11-20').value, pd.Timestamp('2023-12-12').value
SIDES = [1, -1, 1, -1, -1, 1]


@contextlib.contextmanager
def place(c, order=None):
    if c.sym:
        from sx import store
        with store.installed(order) as p:
            yield p
    else:
        d = tempfile.mkdtemp(prefix='sxh5')
        try:
            yield os.path.join(d, 'trades.h5')
        finally:
            shutil.rmtree(d, ignore_errors=True)


def stamp(c, v):
    """a pandas time from nanoseconds"""
    if c.sym:
        from sx.times import SymTS
        return SymTS(v)
    return pd.Timestamp(int(v))


def month(v):
    t = v if hasattr(v, 'month') else pd.Timestamp(int(v))
    return f'{t.year:04d}-{t.month:02d}'


def chunk(c, k, n, off, pre):
    ts = c.iarr(f't{k}', n, LO, HI, sort='strict')
    px = c.farr(f'p{k}', n, lo=1, hi=1000)
    am = c.farr(f'a{k}', n, lo=0, hi=1000)
    sd = SIDES[off:off + n]
    d = c.call(TradesData, ts.a, px.a, am.a, np.arange(n) + off if pre else None, side=np.array(sd, dtype=np.int8), timestamp_unit='ns', preprocess=pre)
    return d, [[ts.v[i], px.v[i], am.v[i], sd[i]] for i in range(n)]


def distinct(c, rows):
    for a, b in itertools.combinations(rows, 2):
        c.assume(c.Not(a[0] == b[0]))


def ordered(rows):
    out = []
    for r in rows:
        k = 0
        while k < len(out) and bool(out[k][0] <= r[0]):
            k += 1
        out.insert(k, r)
    return out


def compare(c, d, rows, what=''):
    df = d.data
    c.prove(len(df) == len(rows), f'exactly the stored trades in the range{what}')
    if len(df) != len(rows):
        return
    c.eqs(df['timestamp'], [r[0] for r in rows], f'times of the stored trades in time order{what}', 0)
    c.eqs(df['price'], [r[1] for r in rows], f'prices{what}')
    c.eqs(df['amount'], [r[2] for r in rows], f'amounts{what}')
    c.eqs(df['side'], [r[3] for r in rows], f'sides{what}', 0)
    c.eqs([x.value for x in df.index], [r[0] for r in rows], f'the index is the time of the trade{what}', 0)


def save(c, path, d, rows, model, how, key=None):
    """how: 0 overwrite the month, 1 append to the month, 2 rewrite the file"""
    m = key or month(stamp(c, rows[0][0]))
    kw = dict(month_key=key) if key else {}
    r = c.call(d.save_h5, path, overwrite_month=how != 1, mode='w' if how == 2 else 'a', **kw)
    c.prove(r == f'/trades/{m}', 'the key of the month of the first trade')
    if how == 2:
        model.clear()
    model[m] = (model.get(m, []) if how == 1 else []) + rows


def check_meta(c, path, model):
    ins = c.call(H5Inspector, path)
    keys = c.call(ins.list_keys)
    c.prove(sorted(keys) == sorted(f'/trades/{m}' for m in model), 'one group per stored month')
    for m, rows in model.items():
        g = c.call(ins.get_metadata, f'/trades/{m}')
        o = ordered(rows)
        c.eq(g['record_count'], len(rows), 'metadata: number of stored trades', 0)
        c.eq(g['first_timestamp'], o[0][0], 'metadata: first stored time', 0)
        c.eq(g['last_timestamp'], o[-1][0], 'metadata: last stored time', 0)


def history(c, chunks, how, query, pre=False, meta=False, mp=False, keys=None):
    c.f64_ints = 'big'
    order = None
    if mp:
        perms = list(itertools.permutations(range(2)))
        k = c.choice('completion', len(perms))
        order = (lambda n: perms[k] if n == 2 else range(n))
    with place(c, order) as path:
        model, made, off = {}, [], 0
        for k, n in enumerate(chunks):
            made.append(chunk(c, k, n, off, pre))
            off += n
        if keys:                               # across groups of other names the order of equal times is open
            distinct(c, [r for _, rows in made for r in rows])
        for k, (d, rows) in enumerate(made):
            h = c.choice(f'how{k}', len(how))
            save(c, path, d, rows, model, how[h], keys[k] if keys else None)
        if meta:
            check_meta(c, path, model)
        read(c, path, model, query, mp)


def read(c, path, model, query, mp):
    kw = {}
    s = c.i('start', LO, HI) if 's' in query else None
    e = c.i('end', LO, HI) if 'e' in query else None
    if s is not None:
        kw['start_time'] = stamp(c, s)
    if e is not None:
        kw['end_time'] = stamp(c, e)
    pool = [r for _, rows in sorted(model.items()) for r in rows]
    if 'k' in query:
        m = sorted(model)[0]
        kw['key'], pool = m, model[m]
    rows = ordered([r for r in pool if (s is None or bool(r[0] >= c.x(s))) and (e is None or bool(r[0] <= c.x(e)))])
    d = c.call(TradesData.load_trades_h5, path, enable_multiprocessing=mp, n_workers=2, raises=() if rows else (KeyError, ValueError), **kw)
    if rows:
        compare(c, d, rows)
    else:
        c.prove(isinstance(d, Exception), 'a range without trades is reported')


def ties(c, times, cuts, query=None, mp=False, pre=False):
    """many trades at the same times: the stored order is kept among equal times"""
    n = len(times)
    px = c.farr('p', n, lo=1, hi=1000)
    am = c.farr('a', n, lo=0, hi=1000)
    sd = np.array([SIDES[i % 6] for i in range(n)], dtype=np.int8)
    ts = np.array([LO + t * 10 ** 9 for t in times], dtype=np.int64)
    with place(c, (lambda n: range(n)) if mp else None) as path:
        for lo, hi in zip([0] + cuts, cuts + [n]):
            d = c.call(TradesData, ts[lo:hi], px.a[lo:hi], am.a[lo:hi], np.arange(lo, hi) if pre else None, side=sd[lo:hi], timestamp_unit='ns', preprocess=pre)
            c.call(d.save_h5, path, overwrite_month=False)
        order = sorted(range(n), key=lambda i: ts[i])        # stable
        kw = {}
        if query:
            kw = dict(start_time=pd.Timestamp(LO + query[0] * 10 ** 9), end_time=pd.Timestamp(LO + query[1] * 10 ** 9))
            order = [i for i in order if query[0] <= times[i] <= query[1]]
        d = c.call(TradesData.load_trades_h5, path, enable_multiprocessing=mp, n_workers=2, **kw)
        compare(c, d, [[int(ts[i]), px.v[i], am.v[i], int(sd[i])] for i in order], ', equal times in stored order')


def missing_key(c):
    with place(c) as path:
        d, rows = chunk(c, 0, 1, 0, False)
        save(c, path, d, rows, {}, 0)
        r = c.call(TradesData.load_trades_h5, path, key='2020-01', raises=(KeyError,))
        c.prove(isinstance(r, KeyError), 'a month that is not stored is refused')


def cases(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn=history, wt=20, **p):
        out.append(dict(name=name, fn=fn, params=p, weight=wt))
    add('one-range', chunks=[2], how=[0], query='se', pre=False)
    add('one-range-pre', chunks=[2], how=[0], query='se', pre=True)
    add('one-meta', chunks=[2], how=[0], query='', pre=False, meta=True)
    add('one-meta-pre', chunks=[2], how=[0, 2], query='k', pre=True, meta=True)
    for pre in (False, True):
        add(f'two-append-{pre}', wt=60, chunks=[1, 1], how=[1], query='se', pre=pre)
        add(f'two-meta-{pre}', wt=40, chunks=[2, 1], how=[1], query='', pre=pre, meta=True)
    add('two-overwrite', wt=60, chunks=[2, 1], how=[0, 1], query='s', pre=True)
    add('two-rewrite', wt=60, chunks=[1, 1], how=[1, 2], query='e', pre=True)
    add('two-key', wt=40, chunks=[1, 2], how=[0, 1], query='ks', pre=True)
    add('own-keys', wt=40, chunks=[2, 1], how=[1], query='se', pre=True, keys=['b', 'a'], mp=True)
    add('parallel', wt=60, chunks=[1, 2], how=[1], query='se', pre=True, mp=True)
    add('no-such-month', missing_key)

    def long(name, at, fill={}, fix={}, rng={}, **p):      # long inputs: concrete except at a few positions
        out.append(dict(name=f'long-{name}', fn=ties, params=p, weight=40, thin=dict(at=at, fill=fill, fix=fix, rng=rng)))
    M = 60 if q else 300
    month_ = 86400 * 31
    for mp in (False, True):
        long(f'ties-one-{mp}', (20, 41), times=[i // 5 for i in range(M)], cuts=[], mp=mp)
        long(f'ties-months-{mp}', (20, 41), times=[i // 5 + (month_ // 2 if i > M // 2 else 0) for i in range(M)], cuts=[M // 2 + 1], mp=mp)
        long(f'ties-range-{mp}', (20, 41), times=[i // 5 for i in range(M)], cuts=[12], mp=mp, query=(2, 9))
        long(f'ties-appended-{mp}', (20, 41), times=[(i + M // 2) % M // 5 for i in range(M)], cuts=[M // 2], mp=mp)
    if not q:
        add('two-se', wt=100, chunks=[2, 2], how=[0, 1, 2], query='se', pre=True)
        add('three-append', wt=200, chunks=[1, 1, 1], how=[1], query='se', pre=True, meta=True)
        add('three-mixed', wt=200, chunks=[1, 1, 1], how=[0, 1, 2], query='s', pre=False, meta=True)
        add('three-parallel', wt=200, chunks=[1, 1, 1], how=[1], query='e', pre=True, mp=True)
    return out
