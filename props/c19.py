"""C19: triple-barrier labelling through the label kit (event filtering, alignment, outputs)."""
import math
import numpy as np
import pandas as pd
from finmlkit.bar.data_model import TradesData
from finmlkit.label.kit import TBMLabel, SampleWeights
from finmlkit.label import tbm, weights

BOUNDS = ('4-5 trades with fixed irregular timestamps and symbolic prices, 2 (quick) / 3 (thorough) events whose times are chosen by '
          'the solver among positions before, at, between and after trades; symbolic targets incl. leading NaN, symbolic minimum return')
ASSUMPTIONS = ['pandas indexing and alignment run on the symbolic values themselves; event and trade timestamps are concrete on each path']

B0 = 1700000000 * 10 ** 9
SEC = 10 ** 9


def run(c, ts, grid, ne, vert, nan, meta, mults, col, unit='ns', hold=0, mid=(), other=0, first=None, norm=False):
    n = len(ts)
    p = c.parr('p', n)
    tn = np.array([B0 + int(x * SEC) for x in ts], dtype=np.int64)
    # solver picks increasing event times
    ks = [c.choice(f'k{e}', len(grid)) for e in range(ne)]
    for a, b in zip(ks, ks[1:]):
        c.assume(a < b)
    et = [B0 + int(grid[k] * SEC) for k in ks]
    tg = c.farr('tgt', ne, lo=-1, hi=1, nan=[e < nan or e in mid for e in range(ne)])
    mr = c.f('min_ret', lo=0, hi=1)
    d = {'vol': tg.a}
    if other:
        d = {'other': np.array([math.nan] * other + [1.] * (ne - other)), 'vol': tg.a}
    side = None
    if meta:
        s0 = 1 if c.choice('s0', 2) else -1    # opposite sides in turn
        sv = [s0 * (-1) ** e for e in range(ne)]
        d['side'] = np.array(sv, dtype=np.int64)
    if col:   # explicit positions: one trade later than the lookup would give
        d['event_idx'] = np.array([min(np.searchsorted(tn, x), n - 1) for x in et], dtype=np.int64)
    X = pd.DataFrame(d, index=pd.to_datetime(et).as_unit(unit))
    trades = TradesData(tn, p.a, np.ones(n))
    # events that must survive
    mx = max(mults)
    keep = []
    for e in range(ne):
        if e < max(nan, other) or e in mid:
            continue
        if not bool(abs(tg.v[e]) * c.x(mx) >= c.x(mr)):
            continue
        keep.append(e)
    o = c.call(TBMLabel, X, 'vol', mr, mults, pd.Timedelta(seconds=vert), pd.Timedelta(seconds=hold), meta, raises=(ValueError,))
    if isinstance(o, Exception):
        c.prove(not keep, 'refused only when no event has a sufficient target')
        return
    c.prove(bool(keep), 'refused when no event has a sufficient target')
    ev = [e for e in keep if et[e] + int(vert * SEC) <= tn[-1]]
    if first:    # the same object labelled earlier trades before
        c.call(o.compute_labels, TradesData(tn[:first], p.a[:first], np.ones(first)), raises=(ValueError,))
    r = c.call(o.compute_labels, trades, raises=(ValueError,))
    if isinstance(r, Exception):
        c.prove(not ev, 'labelling is refused only when no event can be evaluated')
        return
    feats, out = r
    c.prove(list(out.index.as_unit('ns').asi8 if hasattr(out.index, 'as_unit') else out.index) == [et[e] for e in ev],
            'labelled events are those with a sufficient target whose time barrier lies inside the trades')
    if len(out) != len(ev):
        return
    c.prove(list(feats.index) == list(out.index) and o.event_count == len(ev), 'features and labels share one index')
    idx = [int(np.searchsorted(tn, et[e])) for e in ev]
    c.eqs(out['event_idx'], idx, 'event position is the first trade at or after the event', 0)
    k = c.call(tbm.triple_barrier, tn, p.a, np.array(idx, dtype=np.int64), c_arr(c, [tg.v[e] for e in ev]), mults, float(vert), float(hold),
               np.array([sv[e] for e in ev], dtype=np.int8) if meta else None, mr)
    touch = c.xs(k[1])
    ti = [t.__index__() if c.sym else int(t) for t in touch]
    c.eqs(out['touch_idx'], ti, 'touch position', 0)
    c.eqs(out['labels'], c.xs(k[0]), 'label of the event', 0)
    c.eqs(out['returns'], c.xs(k[2]), 'return of the event', obs=False)
    c.eqs(out['vertical_touch_weights'], c.xs(k[3]), 'time-out weight of the event', obs=False)
    c.prove([pd.Timestamp(x).value for x in out['touch_time']] == [int(tn[t]) for t in ti], 'touch time is the timestamp of the touch position')
    c.prove(list(o.labels.index) == list(out.index) and list(o.event_returns.index) == list(out.index) and list(o.target_returns.index) == list(out.index)
            and o.first_event_timestamp == out.index[0] and o.last_event_timestamp == out.index[-1], 'accessors refer to the labelled events')
    c.eqs(o.labels, c.xs(k[0]), 'labels accessor', 0)
    c.eqs(o.event_returns, c.xs(k[2]), 'returns accessor', obs=False)
    c.eqs(o.target_returns, [tg.v[e] for e in ev], 'targets accessor')
    c.eqs(o.full_output['labels'], c.xs(k[0]), 'full output', 0)
    w = c.call(o.compute_weights, trades, norm, raises=(ValueError,))
    if isinstance(w, Exception):
        return
    u, cc = c.call(weights.average_uniqueness, tn, np.array(idx, dtype=np.int64), np.array(ti, dtype=np.int64))
    ra = c.call(weights.return_attribution, np.array(idx, dtype=np.int64), np.array(ti, dtype=np.int64), p.a, cc, norm)
    c.prove(list(w.index) == list(out.index), 'weights share the index of the labels')
    c.eqs(w['avg_uniqueness'], c.xs(u), 'uniqueness of the event')
    c.eqs(w['return_attribution'], c.xs(ra), 'attributed return of the event', obs=False)


def c_arr(c, vals):
    if c.sym:
        from sx.arr import SArr
        return SArr(list(vals), np.float64)
    return np.array([float(x) for x in vals])


def cases(tier):
    q = tier == 'quick'
    ts = [0, 1, 1, 2.5, 4] if not q else [0, 1, 2.5, 4]
    grid = [-1, 0, 0.5, 1, 2.5, 3] if not q else [-1, 0.5, 1, 3]
    ne = 2
    out = []
    for nm, kw in {'sides': dict(), 'leading-nan': dict(nan=1), 'meta': dict(meta=True), 'explicit-positions': dict(col=True),
                   'short': dict(vert=1), 'asymmetric': dict(mults=(0.5, 3.0)), 'no-stop': dict(mults=(-math.inf, 1.0))}.items():
        a = dict(ts=ts, grid=grid, ne=ne, vert=2, nan=0, meta=False, mults=(1.0, 1.0), col=False)
        a.update(kw)
        if q and nm in ('meta', 'explicit-positions', 'asymmetric'):
            a.update(ts=[0, 1, 3], grid=[0, 0.5])
        out.append(dict(name=nm, fn=run, params=a, weight=3))
    for u in ('us', 'ms'):
        out.append(dict(name=f'index-{u}', fn=run, params=dict(ts=[0, 1, 3], grid=[0, 0.5], ne=2, vert=2, nan=0, meta=False, mults=(1.0, 1.0), col=False, unit=u), weight=3))
    base = dict(ts=[0, 1, 3], grid=[0, 0.5], ne=2, vert=2, nan=0, meta=False, mults=(1.0, 1.0), col=False)
    for nm, kw in {'hold': dict(hold=1.5), 'hold-fraction': dict(ts=[0, 0.2, 0.7, 1.5], grid=[0, 0.1], vert=1.25, hold=0.5),
                   'days': dict(ts=[0, 100000, 200000], grid=[0, 5, 60000], vert=90061, hold=86460), 'late-feature': dict(other=1),
                   'missing-target': dict(grid=[0, 0.25, 0.5], ne=3, mid=(1,)), 'again': dict(ts=[0, 1, 2.5], first=2), 'normalised': dict(norm=True, grid=[0, 1])}.items():
        out.append(dict(name=nm, fn=run, params=dict(base, **kw), weight=3))
    if not q:
        out.append(dict(name='events3', fn=run, params=dict(ts=[0, 1, 2.5, 4], grid=[0, 0.5, 1, 2], ne=3, vert=2, nan=0, meta=False,
                                                          mults=(1.0, 1.0), col=False), weight=9))
    return out
