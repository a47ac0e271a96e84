"""C42: what the HDF5 inspector reports about stored trades."""
import contextlib
import io
import numpy as np
import pandas as pd
from finmlkit.bar.data_model import TradesData
from finmlkit.bar.io import H5Inspector
from .c16 import place, stamp, month, distinct, LO, HI, SIDES

BOUNDS = ('histories of 1-3 saves (overwriting, appending, rewriting the file) of 1-3 trades at any nanosecond of two adjacent months, trade ids with and without '
          'missing or duplicate ids, any relation of the time gaps to the one-minute and to the requested limit')
ASSUMPTIONS = ['the HDF5 library stores and returns tables faithfully (an in-memory store stands in for it while exploring; every counterexample and every sampled '
               'path is replayed against real HDF5 files)', 'trades of one history have distinct timestamps; all trades of one save fall into one month']
MIN = 60 * 10 ** 9


def chunk(c, k, ids, mono=True):
    n = len(ids)
    ts = c.iarr(f't{k}', n, LO, HI, sort='strict' if mono else None)
    px = c.farr(f'p{k}', n, lo=1, hi=1000)
    am = c.farr(f'a{k}', n, lo=0, hi=1000)
    d = c.call(TradesData, ts.a, px.a, am.a, np.array(ids), side=np.array(SIDES[:n], dtype=np.int8), timestamp_unit='ns', preprocess=True)
    return d, ts.v, px.v, am.v


def text(c, t):
    """the stored text of a time or duration as nanoseconds"""
    if c.sym:
        from sx.times import TOKENS
        return TOKENS[t].value if t in TOKENS else (pd.Timestamp(t).value if '-' in str(t)[:6] else pd.Timedelta(t).value)
    t = str(t)
    return pd.Timedelta(t).value if 'day' in t else pd.Timestamp(t).value


def fold(f, v):
    r = v[0]
    for x in v[1:]:
        r = f(r, x)
    return r


class Month:
    def __init__(self): self.ok, self.missing, self.gaps, self.rows = True, 0, [], []


def save(c, path, made, model, how):
    """how: 0 overwrite the month, 1 append to the month, 2 rewrite the file"""
    d, ts, px, am, ids = made
    m = month(stamp(c, ts[0]))
    c.call(d.save_h5, path, overwrite_month=how != 1, mode='w' if how == 2 else 'a')
    if how == 2:
        model.clear()
    r = model.setdefault(m, Month()) if how == 1 else model.update({m: Month()}) or model[m]
    seen, keep = set(), []
    for i, k in enumerate(ids):
        if k in seen:
            r.ok = False
        else:
            seen.add(k)
            keep.append(i)
    for i, j in zip(keep, keep[1:]):
        miss = ids[j] - ids[i] - 1
        if miss > 0:
            r.missing += miss
            if bool(ts[j] - ts[i] > MIN):
                r.ok = False
                r.gaps.append((ids[i], ids[j], miss, ts[i], ts[j], ts[j] - ts[i]))
    r.rows += [(ts[i], px[i], am[i]) for i in keep]


def history(c, chunks, how, what, verbose=False):
    c.f64_ints = 'big'
    with place(c) as path:
        model, made = {}, []
        for k, ids in enumerate(chunks):
            made.append(chunk(c, k, ids) + (ids,))
        distinct(c, [[t] for m in made for t in m[1]])
        for m in made:
            if len(m[1]) > 1:
                c.assume(month(stamp(c, m[1][0])) == month(stamp(c, m[1][-1])))
        for k, m in enumerate(made):
            save(c, path, m, model, how[k][c.choice(f'how{k}', len(how[k]))])
        ins = c.call(H5Inspector, path)
        c.prove(sorted(c.call(ins.list_keys)) == sorted(f'/trades/{m}' for m in model), 'one key per stored month')
        what(c, ins, model, verbose)


def same_gaps(c, df, gaps, lab):
    if not gaps:
        c.prove(df is None or len(df) == 0, f'no discontinuities without missing trades ({lab})')
        return
    c.prove(df is not None and len(df) == len(gaps), f'one row per discontinuity ({lab})')
    if df is None or len(df) != len(gaps):
        return
    for i, nm in enumerate(('start_id', 'end_id', 'missing_ids')):
        c.prove([int(x) for x in df[nm]] == [g[i] for g in gaps], f'{nm} of the discontinuity ({lab})')
    for i, nm in enumerate(('pre_gap_time_str', 'post_gap_time_str', 'time_interval_str')):
        c.eqs([text(c, x) for x in df[nm]], [g[3 + i] for g in gaps], f'{nm} of the discontinuity ({lab})', 0)


def integrity(c, ins, model, verbose):
    for m, r in model.items():
        key = f'/trades/{m}'
        g = c.call(ins.get_metadata, key)
        c.prove(bool(g['data_integrity_ok']) == r.ok, 'integrity flag: no duplicates and no long gap with missing trades')
        c.eq(g['missing_pct'], r.missing / len(r.rows) * 100, 'missing trades per stored trade in percent')
        c.eq(g['record_count'], len(r.rows), 'number of stored trades', 0)
        same_gaps(c, c.call(ins.get_integrity_info, key), r.gaps, 'details')
    with contextlib.redirect_stdout(io.StringIO()):
        s = c.call(ins.get_integrity_summary, verbose)
    bad = {m: r for m, r in model.items() if not r.ok}
    if not bad:
        c.prove(s is None, 'nothing to report when every month passed')
        return
    c.prove(s is not None and sorted(s) == sorted(bad), 'the summary lists exactly the months with problems')
    if s is None or sorted(s) != sorted(bad):
        return
    for m, r in bad.items():
        c.prove(s[m]['key'] == f'/trades/{m}', 'key of the month in the summary')
        c.eq(s[m]['metadata']['missing_pct'], r.missing / len(r.rows) * 100, 'missing percentage in the summary')
        same_gaps(c, s[m]['discontinuities'], r.gaps, 'summary')


def statistics(c, ins, model, verbose):
    for m, r in model.items():
        s = c.call(ins.get_statistics, f'/trades/{m}')
        c.prove(int(s['record_count']) == len(r.rows), 'statistics: number of trades')
        for nm, j in (('timestamp', 0), ('price', 1), ('amount', 2)):
            lo, hi = (s['first_timestamp'], s['last_timestamp']) if j == 0 else s[f'{nm}_range']
            v = [x[j] for x in r.rows]
            c.eq(lo, fold(c.min, v), f'statistics: smallest {nm}', 0 if j == 0 else 1e-6)
            c.eq(hi, fold(c.max, v), f'statistics: largest {nm}', 0 if j == 0 else 1e-6)


def gaps(c, ins, model, verbose):
    lim = c.i('limit', 1, 40 * 86400 * 10 ** 9)
    if c.sym:
        from sx.times import SymTD
        mg = SymTD(lim)
    else:
        mg = pd.Timedelta(int(lim))
    g = c.call(ins.inspect_gaps, mg, 2)
    c.prove(sorted(g) == sorted(f'/trades/{m}' for m in model), 'every stored month is inspected')
    if sorted(g) != sorted(f'/trades/{m}' for m in model):
        return
    for m, r in model.items():
        t = []
        for x in r.rows:
            k = 0
            while k < len(t) and bool(t[k] < x[0]):
                k += 1
            t.insert(k, x[0])
        want = [(b, b - a) for a, b in zip(t, t[1:]) if bool(b - a > lim)]
        got = g[f'/trades/{m}']
        c.prove(len(got) == len(want), 'exactly the gaps longer than the limit')
        if len(got) != len(want):
            continue
        c.eqs([x[0].value for x in got], [x[0] for x in want], 'time at which the gap ends', 0)
        c.eqs([x[1].value for x in got], [x[1] for x in want], 'length of the gap', 0)


def unknown_key(c, fn):
    with place(c) as path:
        d = chunk(c, 0, [1])
        save(c, path, d + ([1],), {}, 0)
        ins = c.call(H5Inspector, path)
        r = c.call(getattr(ins, fn), '/trades/2020-01', raises=(KeyError,))
        c.prove(isinstance(r, KeyError), 'a month that is not stored is refused')


def cases(tier):
    q = tier == 'quick'
    out = []

    def add(name, what, chunks, how, wt=20, verbose=False):
        out.append(dict(name=name, fn=history, params=dict(chunks=chunks, how=how, what=what, verbose=verbose), weight=wt))
    for nm, ids in {'complete': [5, 6, 7], 'missing': [5, 8, 9], 'two-gaps': [5, 7, 10], 'duplicate': [5, 6, 6], 'one': [5]}.items():
        add(f'integrity-{nm}', integrity, [ids], [[0]], verbose=nm == 'two-gaps')
    add('integrity-append', integrity, [[1, 3], [7, 8]], [[0], [1]], 50)
    add('integrity-append-both', integrity, [[1, 3], [7, 9]], [[0], [1]], 60)
    add('integrity-append-clean-first', integrity, [[1, 2], [7, 9]], [[0], [1]], 50)
    add('integrity-overwrite', integrity, [[1, 3], [7, 8]], [[0], [0, 2]], 50)
    add('integrity-overwrite-bad', integrity, [[1, 2], [7, 9]], [[0], [0, 2]], 50)
    add('statistics', statistics, [[1, 2]], [[0]])
    add('statistics-append', statistics, [[1, 2], [3]], [[0], [0, 1]], 50)
    add('gaps', gaps, [[1, 2, 3]], [[0]], 20)
    add('gaps-append', gaps, [[1, 2], [3]], [[0], [1]], 50)
    add('gaps-months', gaps, [[1], [2]], [[0], [0, 1, 2]], 20)
    for fn in ('get_metadata', 'get_integrity_info', 'get_statistics'):
        out.append(dict(name=f'unknown-{fn}', fn=unknown_key, params=dict(fn=fn)))
    if not q:
        add('integrity-three', integrity, [[1, 3], [7, 8], [10, 12]], [[0], [1], [0, 1]], 300)
        add('gaps-three', gaps, [[1, 2], [3, 4]], [[0], [1]], 300)
    return out
