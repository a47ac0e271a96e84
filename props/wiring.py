"""Transforms against the kernels they wrap: used by the properties of the kernels and by C40.

Each entry evaluates a transform on a table with symbolic columns (listed in another order than
the transform takes them, among unrelated columns) and the kernel on the arrays of exactly the
columns named, in the documented order."""
import numpy as np
import pandas as pd
from finmlkit.feature import transforms as tf
from finmlkit.feature.core import utils, ma, volatility, momentum, trend, reversion, volume, correlation
from finmlkit.feature.core import time as ftime
from finmlkit.feature.core.structural_break import cusum

SEC = 10 ** 9
START = pd.Timestamp('2023-03-05 23:59:57').value
# whole seconds, unevenly spaced, crossing midnight from Sunday to Monday
STAMPS = [START + s * SEC for s in (0, 2, 3, 7, 8, 20, 21, 25, 40, 41)]
FINE = [START + t for t in (0, 1, 1_000_000_001, 1_000_000_003, 2_500_000_000, 2_500_000_001, 4 * SEC, 5 * SEC, 6 * SEC, 7 * SEC)]
T = pd.Timedelta
H, L, C, V, X = 'hh', 'll', 'cc', 'vv', 'xx'

# property -> entries (name, transform on the columns, columns, kernel on (timestamps, arrays), rows, exact)
E = {
    'C25': [
        ('sma', lambda: tf.SMA(2, X), [X], lambda ts, x: ma.sma(x, 2), 4, True),
        ('zscore', lambda: tf.ZScore(2, X, ddof=1), [X], lambda ts, x: utils.comp_zscore(x, 2, 1), 3, False),
        ('zscore0', lambda: tf.ZScore(3, X), [X], lambda ts, x: utils.comp_zscore(x, 3, 0), 3, False),
        ('burst', lambda: tf.BurstRatio(2, X), [X], lambda ts, x: utils.comp_burst_ratio(x, 2), 4, True),
        ('realized', lambda: tf.RealizedVolatility(2, True, X), [X], lambda ts, x: volatility.realized_vol(x, 2, True), 4, False),
        ('realized0', lambda: tf.RealizedVolatility(3, input_col=X), [X], lambda ts, x: volatility.realized_vol(x, 3, False), 4, False),
        ('bollinger', lambda: tf.BollingerPercentB(2, 1.5, X), [X], lambda ts, x: volatility.bollinger_percent_b(x, 2, 1.5), 3, False),
        ('variance-ratio', lambda: tf.VarianceRatio14(2, X, 'simple', 1), [X], lambda ts, x: volatility.variance_ratio_1_4_core(x, 2, 1, 'simple'), 6, False),
        ('variance-ratio-log', lambda: tf.VarianceRatio14(2, X), [X], lambda ts, x: volatility.variance_ratio_1_4_core(x, 2, 0, 'log'), 6, False),
        ('parkinson', lambda: tf.ParkinsonRange([H, L]), [H, L], lambda ts, h, l: volatility.parkinson_range(h, l), 2, False),
        ('atr', lambda: tf.ATR(2, False, False, [H, L, C]), [H, L, C], lambda ts, h, l, x: volatility.atr(h, l, x, 2, False, False), 3, True),
        ('atr-normalised', lambda: tf.ATR(2, normalize=True, input_cols=[H, L, C]), [H, L, C], lambda ts, h, l, x: volatility.atr(h, l, x, 2, False, True), 3, True),
    ],
    'C26': [
        ('ewma', lambda: tf.EWMA(3, X), [X], lambda ts, x: ma.ewma(x, 3), 4, True),
        ('decay', lambda: tf.EWMST(T(seconds=2), X), [X], lambda ts, x: volatility.ewmst(ts, x, 2.0), 3, False),
        ('decay-ms', lambda: tf.EWMST(T(milliseconds=1500), X), [X], lambda ts, x: volatility.ewmst(ts, x, 1.5), 3, False),
        ('rsi', lambda: tf.RSIWilder(2, X), [X], lambda ts, x: momentum.rsi_wilder(x, 2), 4, True),
        ('adx', lambda: tf.ADX(2, [H, L, C]), [H, L, C], lambda ts, h, l, x: trend.adx_core(h, l, x, 2), 4, True),
        ('atr-ema', lambda: tf.ATR(2, True, False, [H, L, C]), [H, L, C], lambda ts, h, l, x: volatility.atr(h, l, x, 2, True, False), 3, True),
        ('atr-ema-normalised', lambda: tf.ATR(2, True, True, [H, L, C]), [H, L, C], lambda ts, h, l, x: volatility.atr(h, l, x, 2, True, True), 3, True),
    ],
    'C27': [
        ('lagged', lambda: tf.ReturnT(T(seconds=2), False, X), [X], lambda ts, x: utils.comp_lagged_returns(ts, x, 2.0, False), 4, True),
        ('lagged-log', lambda: tf.ReturnT(T(seconds=5), True, X), [X], lambda ts, x: utils.comp_lagged_returns(ts, x, 5.0, True), 4, False),
        ('lagged-tick', lambda: tf.ReturnT(input_col=X), [X], lambda ts, x: utils.comp_lagged_returns(ts, x, 1e-6, False), 3, True),
        ('pct', lambda: tf.PctChange(2, X), [X], lambda ts, x: utils.pct_change(x, 2), 4, True),
        ('roc', lambda: tf.ROC(2, X), [X], lambda ts, x: momentum.roc(x, 2), 4, True),
        ('stochastic', lambda: tf.StochK(2, [H, L, C]), [H, L, C], lambda ts, h, l, x: momentum.stoch_k(x, l, h, 2), 3, True),
        ('vwap', lambda: tf.VWAPDistance(2, False, [C, V]), [C, V], lambda ts, x, v: reversion.vwap_distance(x, v, 2, False), 3, True),
        ('vwap-log', lambda: tf.VWAPDistance(2, True, [C, V]), [C, V], lambda ts, x, v: reversion.vwap_distance(x, v, 2, True), 3, False),
    ],
    'C32': [('cues', lambda: tf.TimeCues(X), [X], lambda ts, x: ftime.time_cues(ts), 4, True)],
    'C39': [
        ('vpin', lambda: tf.VPIN(2, [V, X]), [V, X], lambda ts, b, s: volume.vpin(b, s, 2), 4, True),
        ('flow', lambda: tf.FlowAcceleration(3, 1, V), [V], lambda ts, v: volume.comp_flow_acceleration(v, 3, 1), 4, False),
        ('flow-2', lambda: tf.FlowAcceleration(3, 2, V), [V], lambda ts, v: volume.comp_flow_acceleration(v, 3, 2), 4, False),
        ('correlation', lambda: tf.PriceVolumeCorrelation(2, [C, V]), [C, V], lambda ts, x, v: correlation.rolling_price_volume_correlation(x, v, 2), 3, False),
    ],
}
DEFAULTS = [('stochastic', lambda: tf.StochK(3), ['high', 'low', 'close'], 'stochk3'), ('vwap', lambda: tf.VWAPDistance(4), ['close', 'volume'], 'vwapd4'),
            ('parkinson', lambda: tf.ParkinsonRange(), ['high', 'low'], 'parkrange'), ('atr', lambda: tf.ATR(5, True, True), ['high', 'low', 'close'], 'atr5_ema_norm'),
            ('corr', lambda: tf.PriceVolumeCorrelation(6), ['close', 'volume'], 'corr_pv_6'), ('vpin', lambda: tf.VPIN(7), ['volume_buy', 'volume_sell'], 'vpin_7'),
            ('adx', lambda: tf.ADX(8), ['high', 'low', 'close'], 'adx_8'), ('orb', lambda: tf.ORBBreak(), ['high', 'low', 'close'], None),
            ('candle', lambda: tf.CandleShape(), ['open', 'high', 'low', 'close', 'vwap'], None)]


def table(c, cols, n, unit='ns', stamps=STAMPS, tz=None):
    v = {k: c.farr(k, n, lo=1, hi=9) for k in cols}
    other = c.farr('other', n, lo=1, hi=9)
    order = [('first', other)] + [(k, v[k]) for k in reversed(cols)] + [('last', other)]
    idx = pd.DatetimeIndex(np.array(stamps[:n], dtype='datetime64[ns]')).as_unit(unit)
    if tz:
        idx = idx.tz_localize('UTC').tz_convert(tz)
    df = pd.DataFrame({k: x.a for k, x in order}, index=idx)
    return df, v, other, idx


def wired(c, make, cols, kernel, n, exact, unit='ns', backend='nb', fine=False, tz=None):
    stamps = FINE if fine else STAMPS
    df, v, other, idx = table(c, cols, n, unit, stamps, tz)
    t = make()
    want = c.call(kernel, np.array(stamps[:n], dtype=np.int64), *[v[k].a.copy() for k in cols])
    c.feasible()
    r = c.call(t, df, backend=backend)
    rs = r if isinstance(r, tuple) else (r,)
    ws = want if isinstance(want, tuple) else (want,)
    names = t.output_name if isinstance(t.output_name, (list, tuple)) else [t.output_name]
    c.prove(len(rs) == len(ws) == len(names), 'one column per output')
    for x, w, nm in zip(rs, ws, names):
        c.prove(isinstance(x, pd.Series) and x.name == nm and x.index.equals(idx), 'named columns with the rows of the table')
        c.eqs(x, c.xs(w), 'the indicator on the named columns', obs=exact)
    c.prove(list(df.columns) == ['first'] + list(reversed(cols)) + ['last'], 'the table is not modified')
    for k in cols:
        c.eqs(df[k], v[k].v, 'the table is not modified', obs=False)


PD_TOO = ('sma', 'realized', 'realized0', 'ewma', 'rsi', 'pct', 'vpin', 'correlation')       # separate data-frame implementation: C38
TIMED = ('lagged', 'lagged-log', 'lagged-tick', 'decay', 'decay-ms', 'cues')


def cases(pid, tier, every=False):
    """wiring cases of one property"""
    out = []
    for name, make, cols, kernel, n, exact in E.get(pid, ()):
        n = n if tier == 'quick' or name in ('correlation', 'bollinger', 'zscore', 'adx') else n + 1
        p = dict(make=make, cols=cols, kernel=kernel, n=n, exact=exact)
        out.append(dict(name=f'transform-{name}', fn=wired, params=p, weight=3))
        if name not in PD_TOO and every:
            out.append(dict(name=f'transform-{name}-fallback', fn=wired, params=dict(p, backend='pd'), weight=3))
        if name in TIMED:
            out.append(dict(name=f'transform-{name}-fine', fn=wired, params=dict(p, fine=True), weight=3))
            for u in ('us', 's') if not every else ('us', 'ms', 's'):
                out.append(dict(name=f'transform-{name}-unit-{u}', fn=wired, params=dict(p, unit=u), weight=3))
            out.append(dict(name=f'transform-{name}-zone', fn=wired, params=dict(p, tz='America/New_York'), weight=3))
    return out
