"""C13: timestamp units."""
import numpy as np
from finmlkit.bar.data_model import TradesData

BOUNDS = ('1-2 timestamps of every supported unit stored as int64, int32, uint32, uint64 or uint8/int16 where the unit fits: every value whose instant lies in '
          '1970..2262; unit inference: every instant from 2001-09-09 01:46:41 to 2262; every resolution')
ASSUMPTIONS = ['a pandas Timestamp is the integer number of nanoseconds it denotes']
U = {'s': 10 ** 9, 'ms': 10 ** 6, 'us': 10 ** 3, 'ns': 1}
TOP = 2 ** 63 - 1


def table(c, ts, unit, pre=True, res=None, mode=None):
    n = len(ts.v)
    p = c.fconst([100.0 + k for k in range(n)])
    a = c.fconst([1.0] * n)
    return c.call(TradesData, ts.a, p.a, a.a, np.arange(n) if mode is None else mode, timestamp_unit=unit, preprocess=pre, proc_res=res)


def convert(c, n, unit, dtype, res):
    f = U[unit]
    dt = np.dtype(dtype)
    ts = c.iarr('ts', n, 0, min(TOP // f, int(np.iinfo(dt).max)), dtype=dt, sort='asc')
    d = table(c, ts, unit, res=res)
    q = U[res] if res and res != unit else 1
    df = d.data
    c.prove(len(df) == n, 'every trade is kept')
    c.eqs(df['timestamp'], [t * f // q * q for t in ts.v], 'nanoseconds = timestamp times the exact factor, truncated to the requested resolution', 0)
    c.eqs([x.value for x in df.index], [t * f // q * q for t in ts.v], 'the index is the same instant', 0)
    c.prove(d.orig_timestamp_unit == unit, 'the given unit is remembered')


def infer(c, n, unit, dtype, pre):
    f = U[unit]
    dt = np.dtype(dtype)
    lo = (10 ** 9 + 1) * (10 ** 9 // f)
    ts = c.iarr('ts', n, lo, min(TOP // f, int(np.iinfo(dt).max)), dtype=dt, sort='asc')
    d = table(c, ts, None, pre=pre)
    c.prove(d.orig_timestamp_unit == unit, 'the unit in which the timestamps denote a date after September 2001 is inferred')
    if pre:
        c.eqs(d.data['timestamp'], [t * f for t in ts.v], 'inferred timestamps are converted exactly', 0)


def early_last(c, unit, rev):
    """only the latest timestamp decides"""
    f = U[unit]
    lo = (10 ** 9 + 1) * (10 ** 9 // f)
    a = c.i('early', 0, lo)
    b = c.i('late', lo, TOP // f)
    if c.sym:
        from sx.arr import SArr
        ts = SArr([c.x(b), c.x(a)][::rev], np.int64)
    else:
        ts = np.array([b, a][::rev], dtype=np.int64)
    d = c.call(TradesData, ts, c.fconst([1.0, 2.0]).a, c.fconst([1.0, 1.0]).a)
    c.prove(d.orig_timestamp_unit == unit, 'the latest timestamp decides the unit')


def bad(c, unit, res):
    ts = c.iarr('ts', 1, 0, 2 ** 31)
    r = c.call(TradesData, ts.a, c.fconst([1.0]).a, c.fconst([1.0]).a, np.arange(1), timestamp_unit=unit, preprocess=True, proc_res=res, raises=(ValueError,))
    c.prove(isinstance(r, ValueError), 'an unknown unit or resolution is refused')


def cases(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn, wt=5, **p):
        out.append(dict(name=name, fn=fn, params=p, weight=wt))
    types = {'s': ['int64', 'int32', 'uint32', 'uint64', 'int16', 'uint8'], 'ms': ['int64', 'uint64', 'int32', 'uint32'], 'us': ['int64', 'uint64', 'int32'],
             'ns': ['int64', 'uint64', 'int32']}
    for unit in U:
        for dt in types[unit]:
            for res in (None, 's', 'ms', 'us', 'ns') if dt == 'int64' else (None,):
                add(f'convert-{unit}-{dt}-{res}', convert, n=2, unit=unit, dtype=dt, res=res)
    for unit in U:
        for dt in (['int64', 'uint64'] + (['int32', 'uint32'] if unit == 's' else [])):
            for pre in (False, True):
                add(f'infer-{unit}-{dt}-{pre}', infer, n=2, unit=unit, dtype=dt, pre=pre)
        for rev in (1, -1):
            add(f'latest-{unit}' + ('' if rev == 1 else '-last'), early_last, unit=unit, rev=rev)
    for u, r in (('x', None), ('min', None), ('ms', 'h'), ('s', 'x')):
        add(f'refused-{u}-{r}', bad, unit=u, res=r)
    if not q:
        for unit in U:
            add(f'convert3-{unit}', convert, 30, n=3, unit=unit, dtype='int64', res='s')
            add(f'infer3-{unit}', infer, 30, n=4, unit=unit, dtype='int64', pre=True)
    return out
