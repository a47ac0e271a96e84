"""C43: the view range of a trades object."""
import numpy as np
import pandas as pd
from finmlkit.bar.data_model import TradesData
from finmlkit.bar.kit import TickBarKit, TimeBarKit
from .c16 import stamp, LO, HI

BOUNDS = ('up to 3 (quick) / 5 (thorough) trades at any nanoseconds in time order (equal times included), any start and end of the view in any relation to them, '
          'views set once, twice, from times or from text')
SINGLE = True        # amounts are stored in single precision by design
ASSUMPTIONS = ['pandas sorted-index slicing compares exactly']


def build(c, n, pre):
    ts = c.iarr('t', n, LO, HI, sort='strict' if pre else 'asc')
    px = c.farr('p', n, lo=1, hi=1000)
    am = c.farr('a', n, lo=0, hi=1000)
    sd = [1, -1, 1, -1, 1][:n]
    d = c.call(TradesData, ts.a, px.a, am.a, np.arange(n), side=np.array(sd, dtype=np.int8), timestamp_unit='ns', preprocess=pre)
    return d, [[ts.v[i], px.v[i], am.v[i], sd[i]] for i in range(n)]


def same(c, df, rows, what):
    c.prove(len(df) == len(rows), f'exactly the trades of the view ({what})')
    if len(df) != len(rows):
        return
    for j, nm in enumerate(('timestamp', 'price', 'amount', 'side')):
        c.eqs(df[nm], [r[j] for r in rows], f'{nm} of the trades of the view ({what})', 1e-6 if j in (1, 2) else 0)


def inside(c, rows, s, e):
    return [r for r in rows if bool(r[0] >= c.x(s)) and bool(r[0] <= c.x(e))]


def view(c, n, pre, twice=False):
    c.f64_ints = 'big'
    d, rows = build(c, n, pre)
    same(c, d.data, rows, 'no view')
    for k in range(2 if twice else 1):
        s, e = c.i(f's{k}', LO, HI), c.i(f'e{k}', LO, HI)
        r = c.call(d.set_view_range, stamp(c, s), stamp(c, e), raises=(ValueError,))
        if not bool(c.x(s) < c.x(e)):
            c.prove(isinstance(r, ValueError), 'an empty view is refused')
            return
        c.prove(not isinstance(r, Exception), 'a view is accepted')
        c.prove(d.start_date == stamp(c, s), 'start of the view')
        c.prove(d.end_date == stamp(c, e), 'end of the view')
        same(c, d.data, inside(c, rows, s, e), 'second view' if k else 'view')


def text(c, n):
    d, rows = build(c, n, False)
    c.call(d.set_view_range, '2023-11-25 10:00', '2023-12-01 00:00:00.5')
    same(c, d.data, inside(c, rows, pd.Timestamp('2023-11-25 10:00').value, pd.Timestamp('2023-12-01 00:00:00.5').value), 'text')


def kit(c, n):
    """bars under a view are made of the trades of the view only"""
    d, rows = build(c, n, False)
    s, e = c.i('s', LO, HI), c.i('e', LO, HI)
    c.assume(c.x(s) < c.x(e))
    c.call(d.set_view_range, stamp(c, s), stamp(c, e))
    v = inside(c, rows, s, e)
    if len(v) < 2:
        return
    k = c.call(TickBarKit, d, 1)
    o = c.call(k.build_ohlcv)
    c.prove(len(o) == len(v) - 1, 'one bar per trade of the view after the opening one')
    c.eqs(o['close'], [r[1] for r in v[1:]], 'closes are prices of the view')
    c.eqs([x.value for x in o.index], [r[0] for r in v[1:]], 'bars end at trades of the view', 0)


def cases(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn, wt=10, **p):
        out.append(dict(name=name, fn=fn, params=p, weight=wt))
    for n in ((1, 2, 3) if q else (1, 2, 3, 4, 5)):
        add(f'view-{n}', view, 3 ** n, n=n, pre=False)
    add('view-pre', view, 20, n=2, pre=True)
    add('twice', view, 30, n=2 if q else 3, pre=False, twice=True)
    add('text', text, 10, n=3)
    add('bars', kit, 30, n=3 if q else 4)
    return out
