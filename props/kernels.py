"""Every compiled kernel of the package with a symbolic call: name -> (function, arguments(c), names of result parts)."""
import numpy as np
from finmlkit.bar import base, logic, utils as butils
from finmlkit.feature.core import (correlation, ma, momentum, reversion, time as ftime, trend, utils, volatility, volume)
from finmlkit.feature.core.structural_break import cusum
from finmlkit.feature import transforms
from finmlkit.label import tbm, weights
from finmlkit.sampling import filters

S9 = 10 ** 9
T0 = 1_700_000_000 * S9


def _close_idx(c, n):
    """bar boundaries: every non-decreasing choice over n trades with 3 bars, the first bar opening at trade 0"""
    a, b = c.choice('cut1', n), c.choice('cut2', n)
    if a > b:
        c.assume(False)
    return c.iconst([0, a, b, n - 1], np.int64).a


def px(c, n, nm='p', **k):
    return c.parr(nm, n).a


def mixed(c, head, a):
    if c.sym:
        from sx.arr import SArr
        return SArr([c.x(v) for v in head] + list(a.raw), np.float64)
    return np.concatenate([np.array(head), a])


def levels(c, n):
    from .c31 import data
    lv, B, S, LP, LB, LS, hi, lo = data(c, n, 1.0)
    ts = c.iconst([T0 + k * S9 for k in range(n)], np.int64).a
    f = lambda v: c.fconst(list(map(float, v))).a
    return ts, f(hi), f(lo), LP, LB, LS


def sides(c, n):
    return c.iconst([1 if c.choice(f'side{k}', 2) else -1 for k in range(n)], np.int8).a


K = {}


def k(name, fn, args, n=(4,), weight=10):
    K[name] = (fn, args, n, weight)


f = lambda c, n, nm='x', **kw: c.farr(nm, n, **kw).a
nanf = lambda c, n, nm='x', **kw: c.farr(nm, n, nan=lambda i: c.choice(f'nan_{nm}{i}', 2), **kw).a

k('bar.base.comp_bar_ohlcv', base.comp_bar_ohlcv, lambda c, n: (f(c, n, 'p', lo=1, hi=100), f(c, n, 'v', lo=0, hi=10), _close_idx(c, n)), (5,), 60)
k('bar.base.comp_bar_directional_features', base.comp_bar_directional_features,
  lambda c, n: (f(c, n, 'p', lo=1, hi=100), f(c, n, 'v', lo=0, hi=10), _close_idx(c, n), c.iconst([1, -1, -1, 1, -1][:n], np.int8).a), (4,), 60)
k('bar.base.comp_bar_trade_size_features', base.comp_bar_trade_size_features,
  lambda c, n: (f(c, n, 'v', lo=0.1, hi=10), f(c, 3, 'th', lo=0.1, hi=10), _close_idx(c, n), 2.0), (4,), 60)
k('bar.base.comp_bar_footprints', base.comp_bar_footprints,
  lambda c, n: (c.fconst([10., 11., 10., 12.][:n]).a, f(c, n, 'v', lo=0.1, hi=10), c.iconst([0, 2, n - 1], np.int64).a, c.iconst([1, -1, 1, -1][:n], np.int8).a,
                1.0, c.fconst([10., 12.]).a, c.fconst([11., 12.]).a, 3.0), (4,), 40)
k('bar.base.comp_footprint_features', base.comp_footprint_features,
  lambda c, n: (c.iconst([3, 4, 5, 6][:n], np.int32).a, f(c, n, 'b', lo=0, hi=10, dtype=np.float32), f(c, n, 's', lo=0, hi=10, dtype=np.float32), 3.0), (3,), 40)
k('bar.logic._time_bar_indexer', logic._time_bar_indexer, lambda c, n: (c.iarr('t', n, T0, T0 + 4 * S9, sort='asc').a, 1.0), (3,), 30)
k('bar.logic._tick_bar_indexer', logic._tick_bar_indexer, lambda c, n: (c.iarr('t', n, T0, T0 + 4 * S9, sort='asc').a, 2), (4,))
k('bar.logic._volume_bar_indexer', logic._volume_bar_indexer, lambda c, n: (f(c, n, 'v', lo=0, hi=10), 5.0), (4,))
k('bar.logic._dollar_bar_indexer', logic._dollar_bar_indexer,
  lambda c, n: (f(c, n, 'p', lo=1, hi=10), f(c, n, 'v', lo=0, hi=10), 20.0), (3,))
k('bar.logic._cusum_bar_indexer', logic._cusum_bar_indexer,
  lambda c, n: (c.iarr('t', n, T0, T0 + 4 * S9, sort='asc').a, px(c, n), f(c, n, 'sg', lo=0.01, hi=1), 0.01, 2.0), (3,), 20)
k('bar.utils.comp_trade_side_vector', butils.comp_trade_side_vector, lambda c, n: (f(c, n, 'p', lo=1, hi=10),), (4,))
k('bar.utils.comp_price_tick_size', butils.comp_price_tick_size, lambda c, n: (c.fconst([1.0000000000004, 1.5, 1.25][:n]).a,), (3,))
k('bar.utils.check_timestamps_order', butils.check_timestamps_order, lambda c, n: (c.iarr('t', n, 0, 100).a,), (4,))
k('bar.utils.fast_sort_trades', butils.fast_sort_trades,
  lambda c, n: (c.iarr('t', n, 0, 100).a, f(c, n, 'p', lo=1, hi=10), f(c, n, 'v', lo=0, hi=10, dtype=np.float32), c.barr('m', n).a), (2,), 40)
k('bar.utils.merge_split_trades', butils.merge_split_trades,
  lambda c, n: (c.iarr('t', n, 0, 100, sort='asc').a, f(c, n, 'p', lo=1, hi=10), f(c, n, 'v', lo=0, hi=10, dtype=np.float32), c.barr('m', n).a), (3,), 30)
k('feature.core.correlation.rolling_price_volume_correlation', correlation.rolling_price_volume_correlation,
  lambda c, n: (f(c, n, 'p', lo=1, hi=10), f(c, n, 'v', lo=0, hi=10), 2), (4,), 20)
k('feature.core.ma.ewma', ma.ewma, lambda c, n: (nanf(c, n), 3), (4,), 20)
k('feature.core.ma.sma', ma.sma, lambda c, n: (f(c, n), 2), (4,))
k('feature.core.momentum.roc', momentum.roc, lambda c, n: (f(c, n, lo=1, hi=10), 2), (4,))
k('feature.core.momentum.rsi_wilder', momentum.rsi_wilder, lambda c, n: (nanf(c, n, lo=1, hi=10), 2), (4,), 30)
k('feature.core.momentum.stoch_k', momentum.stoch_k, lambda c, n: (f(c, n, 'c'), f(c, n, 'l'), f(c, n, 'h'), 2), (4,), 40)
k('feature.core.reversion.vwap_distance', reversion.vwap_distance, lambda c, n: (f(c, n, 'c', lo=1, hi=10), f(c, n, 'v', lo=0, hi=10), 2, False), (4,), 20)
k('feature.core.trend.adx_core', trend.adx_core, lambda c, n: (f(c, n, 'h'), f(c, n, 'l'), f(c, n, 'c'), 2), (4,), 60)
k('feature.core.time.time_cues', ftime.time_cues, lambda c, n: (c.iarr('t', n, T0, T0 + 10 * S9).a,), (3,), 20)
k('feature.core.utils.comp_lagged_returns', utils.comp_lagged_returns,
  lambda c, n: (c.iarr('t', n, T0, T0 + 10 * S9, sort='strict').a, f(c, n, 'c', lo=1, hi=10), 2.0, False), (4,), 30)
k('feature.core.utils.comp_zscore', utils.comp_zscore, lambda c, n: (f(c, n), 2, 1), (4,), 20)
k('feature.core.utils.comp_burst_ratio', utils.comp_burst_ratio, lambda c, n: (f(c, n, lo=0, hi=10), 3), (4,), 30)
k('feature.core.utils.pct_change', utils.pct_change, lambda c, n: (f(c, n, lo=0, hi=10), 2), (4,))
k('feature.core.volatility.ewms', volatility.ewms, lambda c, n: (nanf(c, n), 3), (4,), 40)
k('feature.core.volatility.ewmst_mean0', volatility.ewmst_mean0, lambda c, n: (c.iconst([T0, T0 + S9, T0 + 3 * S9, T0 + 4 * S9][:n], np.int64).a, nanf(c, n), 2.0), (4,), 40)
k('feature.core.volatility.ewmst', volatility.ewmst, lambda c, n: (c.iconst([T0, T0 + S9, T0 + 3 * S9, T0 + 4 * S9][:n], np.int64).a, nanf(c, n), 2.0), (3,), 40)
k('feature.core.volatility.true_range', volatility.true_range, lambda c, n: (nanf(c, n, 'h'), f(c, n, 'l'), nanf(c, n, 'c')), (3,), 30)
k('feature.core.volatility.realized_vol', volatility.realized_vol, lambda c, n: (nanf(c, n), 2, True), (4,), 30)
k('feature.core.volatility.bollinger_percent_b', volatility.bollinger_percent_b, lambda c, n: (f(c, n, lo=1, hi=10), 2, 2.0), (4,), 20)
k('feature.core.volatility.parkinson_range', volatility.parkinson_range, lambda c, n: (f(c, n, 'h', lo=1, hi=10), f(c, n, 'l', lo=1, hi=10)), (3,))
k('feature.core.volatility.atr', volatility.atr, lambda c, n: (f(c, n, 'h'), f(c, n, 'l'), f(c, n, 'c'), 2, True, False), (4,), 30)
k('feature.core.volatility.rolling_variance_nb', volatility.rolling_variance_nb, lambda c, n: (nanf(c, n), 2, 1, 1), (4,), 30)
k('feature.core.volatility.variance_ratio_1_4_core', volatility.variance_ratio_1_4_core, lambda c, n: (f(c, n, lo=1, hi=10), 3, 1, 'simple'), (6,), 40)
k('feature.core.structural_break.cusum.cusum_test_developing', cusum.cusum_test_developing, lambda c, n: (px(c, n), 2), (4,), 60)
k('feature.core.structural_break.cusum.cusum_test_last', cusum.cusum_test_last, lambda c, n: (px(c, n),), (4,), 60)
k('feature.core.structural_break.cusum.cusum_test_rolling', cusum.cusum_test_rolling, lambda c, n: (mixed(c, [1.0, 2.0, 1.0, 0.5, 1.0, 2.0, 1.0][:n - 2], px(c, 2)), 4, 2), (6,), 80)
k('feature.core.volume.comp_flow_acceleration', volume.comp_flow_acceleration, lambda c, n: (f(c, n, lo=0, hi=10), 3, 1), (5,), 30)
k('feature.core.volume.vpin', volume.vpin, lambda c, n: (nanf(c, n, 'b', lo=0, hi=10), nanf(c, n, 's', lo=0, hi=10), 2), (3,), 30)
k('feature.core.volume.bucket_price_levels', volume.bucket_price_levels, lambda c, n: (c.iconst(list(range(3, 3 + n)), np.int32).a, f(c, n, 'v', lo=0, hi=10), 2), (4,))
k('feature.core.volume.comp_poc_hva_lva', volume.comp_poc_hva_lva, lambda c, n: (c.iconst(list(range(3, 3 + n)), np.int32).a, f(c, n, 'v', lo=0.1, hi=10), 68.34), (3,), 40)
k('feature.core.volume.calc_volume_percentage_above_poc', volume.calc_volume_percentage_above_poc,
  lambda c, n: (c.iconst(list(range(3, 3 + n)), np.int32).a, f(c, n, 'v', lo=0.1, hi=10), 4), (3,))
k('feature.core.volume.trim_trailing_zeros', volume.trim_trailing_zeros,
  lambda c, n: (c.iconst(list(range(3, 3 + n)), np.int32).a, c.fconst([0.0, 2.0, 0.0, 1.0, 0.0][:n]).a), (5,))
k('feature.core.volume.aggregate_footprint', volume.aggregate_footprint, lambda c, n: (lambda d: d + (T0, T0 + S9, 1.0))(levels(c, n)), (3,), 30)
k('feature.core.volume.volume_profile_rolling', volume.volume_profile_rolling, lambda c, n: levels(c, n) + (1.0, None, 1.0, 68.34), (3,), 90)
k('feature.core.volume.volume_profile_developing', volume.volume_profile_developing, lambda c, n: levels(c, n) + (T0, T0 + 2 * S9, None, 1.0, 68.34), (2,), 60)
k('feature.transforms.DirRunLen.numba_core', transforms.DirRunLen.numba_core, lambda c, n: (f(c, n),), (3,))
k('label.tbm.triple_barrier', tbm.triple_barrier,
  lambda c, n: (c.iconst([T0 + j * S9 for j in range(n)], np.int64).a, px(c, n), c.iconst([0, 1], np.int64).a, f(c, 2, 'tgt', lo=0.01, hi=1), (1.0, 1.0), 2.0, 0.0, None, 0.0), (4,), 90)
k('label.tbm.triple_barrier#hold', tbm.triple_barrier,
  lambda c, n: (c.iconst([T0, T0 + 2 * S9, T0 + 25 * S9 // 10, T0 + 49 * S9 // 10], np.int64).a, px(c, n), c.iconst([0, 1], np.int64).a, f(c, 2, 'tgt', lo=0.01, hi=1), (1.0, 1.0), 2.5, 1.0, None, 0.0), (4,), 90)
k('label.weights.average_uniqueness', weights.average_uniqueness,
  lambda c, n: (c.iconst(list(range(n)), np.int64).a, c.iconst([0, 1, 2], np.int64).a, c.iconst([c.choice(f'd{j}', 3) + j if j < 2 else 3 for j in range(3)], np.int64).a), (5,), 20)
k('label.weights.return_attribution', weights.return_attribution,
  lambda c, n: (c.iconst([0, 1, 2], np.int64).a, c.iconst([2, 3, 3], np.int64).a, px(c, n), c.iconst([1, 2, 3, 2][:n], np.int16).a, False), (4,), 30)
k('label.weights.time_decay', weights.time_decay, lambda c, n: (f(c, n, 'u', lo=0.01, hi=1), -0.5), (4,))
k('label.weights.class_balance_weights', weights.class_balance_weights,
  lambda c, n: (c.iconst([c.choice(f'l{j}', 3) - 1 for j in range(n)], np.int8).a, f(c, n, 'w', lo=0, hi=10)), (3,), 20)
k('sampling.filters.cusum_filter', filters.cusum_filter, lambda c, n: (px(c, n), f(c, n, 'th', lo=0.01, hi=1)), (4,), 40)


def kernels():
    """names of all compiled functions of the package, from the source"""
    import ast, glob, os
    out = set()
    for p in glob.glob('/repo/finmlkit/**/*.py', recursive=True):
        t = ast.parse(open(p).read())
        mod = os.path.relpath(p, '/repo/finmlkit')[:-3].replace('/', '.')

        def walk(n, pre):
            for ch in ast.iter_child_nodes(n):
                if isinstance(ch, ast.FunctionDef):
                    if any('jit' in ast.dump(d) for d in ch.decorator_list):
                        out.add(f'{mod}.{pre}{ch.name}')
                elif isinstance(ch, ast.ClassDef):
                    walk(ch, pre + ch.name + '.')
        walk(t, '')
    return out
