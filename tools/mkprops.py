#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json.  P(id, title, statement, over, quantifier, why, files, mechanism, observe, note)"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], {}


def P(id, title, statement, quant, why, mech, observe, tech='', note='', over=('inputs',), na=None):
    assert len(title) <= 80, (id, len(title))
    files = sorted({w.split('::')[0] for _, w in mech})
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=quant), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe),
                                   hook_needed=None)))
    if na:
        NA[id] = na
    PROPS[-1]['_tech'], PROPS[-1]['_note'] = tech, note


B = 'finmlkit/bar/'
F = 'finmlkit/feature/'
FC = 'finmlkit/feature/core/'
LB = 'finmlkit/label/'

# ------------------------------------------------------------------ bars
P('C01', 'Time bars: exact interval grid and half-open bar membership',
  'For sorted nanosecond timestamps and a bar interval, the bar boundaries are consecutive exact multiples of the interval (sub-second '
  'intervals included), starting at or before the first trade and ending after the last one; the trade index reported for a boundary is '
  'that of the last trade at or before it (-1 before the first trade).',
  'every sorted series of int64 nanosecond timestamps and every interval, including timestamps on and next to a boundary and gaps of '
  'several intervals',
  'Tests use a few round timestamps; boundaries one nanosecond away and epoch-scale values that float64 cannot represent are not reached.',
  [('boundary grid and trade lookup', B + 'logic.py::_time_bar_indexer')], ['returned clock and index arrays'])
P('C02', 'Tick, volume and dollar bars close at the first trade reaching the threshold',
  'A tick, volume or dollar bar closes at exactly the first trade at which the accumulated count, volume or notional reaches the '
  'threshold; for dollar bars the excess over the threshold carries over into the next bar, for tick and volume bars counting restarts at zero, and the first trade opens the series.',
  'every sequence of non-negative volumes, positive prices and positive thresholds', 'Tests sample a handful of sequences; equality with the '
  'threshold, trades larger than several thresholds and the first trade are where accounting errors hide.',
  [('tick', B + 'logic.py::_tick_bar_indexer'), ('volume', B + 'logic.py::_volume_bar_indexer'), ('dollar', B + 'logic.py::_dollar_bar_indexer')],
  ['returned close indices'])
P('C03', 'CUSUM bars: close when a one-sided log-return sum reaches the adaptive threshold',
  'A CUSUM bar closes exactly when the positive or the negative cumulative log-return sum reaches the threshold '
  '(the multiplier times the latest known volatility, but at least the floor), after which the sum that reached it restarts at zero; a bar never closes inside a block of identical timestamps, missing volatilities take the last known '
  'value without changing the caller\'s array, and inputs of different lengths are rejected.',
  'every price path, volatility path with any missing-value pattern, floor and multiplier', 'Tests use one or two synthetic paths; resets, '
  'simultaneous timestamps and missing volatilities interact over whole histories.',
  [('CUSUM bars', B + 'logic.py::_cusum_bar_indexer'), ('kit', B + 'kit.py::CUSUMBarKit')], ['returned close indices'])
P('C04', 'OHLCV bars equal the aggregate of exactly their own trades',
  'Each bar\'s open, high, low, close, volume, VWAP, trade count and median trade size are computed from exactly the trades after the previous '
  'close up to and including its own close; an empty bar carries the previous close price with zero volume and zero trades.',
  'every price/volume sequence and every placement of bar closes, empty bars included', 'Tests cover a few fixed partitions; off-by-one '
  'membership and empty or single-trade bars need all partitions.',
  [('aggregation', B + 'base.py::comp_bar_ohlcv')], ['OHLCV arrays'])
P('C05', 'Order-flow bar features equal their definition over the bar\'s own trades',
  'Buy/sell trade counts, volumes and notionals, mean and largest spread, and the running minima and maxima of signed counts, volume and notional of a bar '
  'equal their definition over exactly the bar\'s own trades and sides (the spread of a side change uses the preceding trade); an empty bar reports zeros; large '
  'notionals do not overflow.',
  'every price/volume/side sequence and every placement of bar closes', 'The expected values in tests are computed for two fixed '
  'sequences; running extremes and first/single-trade bars need all histories.',
  [('order flow', B + 'base.py::comp_bar_directional_features')], ['feature arrays'])
P('C06', 'Trade-size features equal their definition over the bar\'s own trades',
  'For each bar the log-relative mean and 95th percentile trade size (relative to the block threshold, reference size times multiplier), the share of volume in trades larger than '
  'the threshold, and the size concentration (one minus the sum of squared volume shares) are computed from exactly the bar\'s own trades; they are undefined where the bar is empty or its reference size is zero.',
  'every volume sequence, reference size and placement of bar closes', 'Order independence and percentile interpolation are sampled once in tests.',
  [('trade size features', B + 'base.py::comp_bar_trade_size_features')], ['feature arrays'])
P('C07', 'Footprint conserves volume and trades per price level and side',
  'The footprint of a bar lists every tick level between the bar\'s low and high once in ascending order; each level holds exactly the volume and '
  'number of buys and sells traded at that price, so the level sums equal the bar totals and no trade is lost, duplicated or put on the wrong side or level.',
  'every price (on any tick grid), volume, side sequence and bar partition', 'Tests have a few bars at one tick size; rounding of '
  'price to level depends on the values of price and tick.',
  [('footprint', B + 'base.py::comp_bar_footprints'), ('driver', B + 'base.py::comp_bar_footprints')], ['footprint lists'])
P('C08', 'Footprint statistics: imbalances, longest runs, commitment level, concentration',
  'Buy and sell imbalance flags follow the diagonal comparison with the multiplier (top and bottom levels have no diagonal and are never flagged), '
  'the reported run is the signed length of the longest same-sign run of imbalances, the commitment level is the lowest level with the largest total volume, and concentration is one minus the sum of squared volume shares.',
  'every level count, volume vector and multiplier', 'Tests use two volume vectors; ties, zero volumes and edge levels are value dependent.',
  [('imbalance', B + 'base.py::comp_footprint_features')], ['imbalance flags, runs, COT, skew, gini'])
P('C09', 'Inferred tick size is the price grid\'s step',
  'The tick size inferred from prices on a decimal grid is the greatest common step of the observed prices, so every price difference is a whole multiple of it, '
  'whatever the order of prices; a single distinct price yields zero.',
  'every set of prices on a decimal grid', 'Float rounding and the particular differences observed decide the result; tests use three sets.',
  [('tick size', B + 'utils.py::comp_price_tick_size')], ['returned tick'])
P('C10', 'Bar tables: every builder output is aligned row by row to the same bars',
  'Whatever bar type is chosen, the OHLCV, order-flow, trade-size and footprint outputs of one builder have one row per bar with the bar\'s close time, '
  'each row describing the same trades, and building one output before another, or twice, does not change any of them.',
  'every trade table, bar type and order of build calls', 'Tests build each table once for fixed data; row misalignment depends on the data and call order.',
  [('builder', B + 'base.py::BarBuilderBase'), ('kits', B + 'kit.py::TimeBarKit')], ['returned data frames'], over=('inputs', 'histories'))
P('C11', 'Preprocessing keeps every traded unit: sorting, de-duplication, merging',
  'Preprocessing orders trades by time (then id), keeps of each trade id exactly the first occurrence, and merges only adjacent trades of equal time, price and side (side from the supplied side, the buyer-maker flag or else the tick rule); '
  'total volume, buy volume, notional and every price level\'s volume are preserved, and each remaining trade keeps its own side, time and price.',
  'every raw trade table: unsorted, duplicated ids, split orders, missing side column', 'Interactions of sort, duplicate removal and merging need combinations tests do not sample.',
  [('merge', B + 'utils.py::merge_split_trades'), ('pipeline', B + 'data_model.py::TradesData')], ['preprocessed trades frame'])
P('C12', 'Discontinuities in trade ids are reported exactly',
  'Data validation reports a discontinuity for exactly those adjacent trades whose ids skip values and which lie more than one minute apart, with the number of missing ids and the start and end time of each gap; the missing share counts all skipped ids, and the data-quality flag is false exactly when such a gap or a duplicated id exists.',
  'every sequence of trade ids and timestamps', 'Tests use one gap in one place.',
  [('validation', B + 'data_model.py::TradesData._validate_data')], ['discontinuities list, data-quality flag'])
P('C13', 'Timestamp unit conversion is exact and unit inference picks the right unit',
  'Converting timestamps of any supported unit to nanoseconds multiplies by the unit\'s exact factor without loss or overflow whatever the stored integer width, the unit inferred for timestamps later than 2001-09-09 01:46:41 is the one they are in, and resampling to a coarser resolution truncates to that resolution.',
  'every integer timestamp array in every unit', 'Loss shows only for particular widths and magnitudes; tests use one array per unit.',
  [('conversion', B + 'data_model.py::TradesData')], ['timestamp column'])
P('C14', 'Inferred trade sides follow the tick rule',
  'A trade\'s inferred side is buy after a price rise, sell after a price fall, and the previous side when the price is unchanged (unknown until the first change).',
  'every price path', 'A whole history of equal prices determines a side; tests use one path.',
  [('tick rule', B + 'utils.py::comp_trade_side_vector')], ['side vector'])
P('C15', 'Footprint tables and views keep level data aligned with bars',
  'Slicing a footprint container by a position slice or by a start and end time keeps for each retained bar exactly its own levels, volumes and ticks; the tabular view has one row per bar and level with the '
  'same values; validity checks accept exactly the containers whose lists match in length.',
  'every footprint content and slice', 'Tests slice one fixture.',
  [('container', B + 'data_model.py::FootprintData')], ['sliced containers, data frames'])
P('C16', 'Saved trades come back: any range load equals the filter of everything saved',
  'After any sequence of saves and appends of trades, loading a time range or month returns exactly the stored trades in it with their sides, prices, amounts and times, in time order (trades of the same time in stored order), and the stored metadata of each month gives the count and the first and last time of its stored trades.',
  'every sequence of save and append operations and every query range', 'Tests save once or twice with fixed data.',
  [('save', B + 'data_model.py::TradesData.save_h5'), ('load', B + 'data_model.py::TradesData.load_trades_h5'), ('append', B + 'io.py::AddTimeBarH5')],
  ['loaded frames'], over=('inputs', 'histories'))
P('C17', 'Resampling stored bars conserves trading',
  'Resampled bars read from storage aggregate exactly the stored bars in each interval: first open, highest high, lowest low, last close, summed volume and trades, volume-weighted VWAP, over the requested '
  'range with no stored bar dropped (a requested final day may be left out of daily bars while the stored bars do not reach its end); the stored one-second bars are those of the stored trades.',
  'every stored bar series and target interval', 'Tests use one series and one interval.',
  [('reader', B + 'io.py::TimeBarReader')], ['resampled frame'])

# ------------------------------------------------------------------ labels
P('C18', 'Triple-barrier labels: first barrier touched decides label, time and return',
  'For every event the label, touch time and return are those of the first barrier touched after the minimum holding time: the horizontal barriers are target times multiplier from the event price in log returns, '
  'the vertical barrier is exactly its duration after the event in nanoseconds and closes with the last price at or before it; disabled (infinite) barriers are never touched, meta-labels report whether the side was right, and '
  'events whose horizon runs past the data are dropped without shifting others.',
  'every price path, event set, target, barrier multipliers, vertical and minimum time', 'Tests use a few paths; equality with a barrier, simultaneous barriers and events near the end need all values.',
  [('labelling', LB + 'tbm.py::triple_barrier')], ['labels, touch indices, returns, max ratios'])
P('C19', 'Triple-barrier label table: events, features and labels stay aligned',
  'The label table has one row per kept event, at that event\'s timestamp, with the features and target of that event and the label, touch time and return of exactly that event; events with missing target or below the minimum return are dropped and nothing else, '
  'whether events fall on, between or after trades.',
  'every trade series, event set (incl. missing targets) and option combination', 'Alignment after dropping depends on which events are dropped; tests drop none or the first.',
  [('label kit', LB + 'kit.py::TBMLabel')], ['features, labels, event return frames'])
P('C20', 'Label concurrency and average uniqueness equal the overlap count',
  'The concurrency of each time step is the number of label spans covering it, and the average uniqueness of a label is the mean of the reciprocal concurrency over its own span, always in (0, 1].',
  'every set of label spans', 'Overlap patterns grow combinatorially; tests use three spans.',
  [('uniqueness', LB + 'weights.py::average_uniqueness')], ['uniqueness and concurrency arrays'])
P('C21', 'Return attribution: absolute concurrency-weighted log return over the span',
  'The return-attribution weight of a label is the absolute value of the sum of log returns over its span, each divided by the concurrency at that step; normalised weights are those scaled to sum to the number of labels.',
  'every price path and set of label spans', 'Which steps belong to a span and which concurrency applies depends on span overlaps; tests use one arrangement.',
  [('attribution', LB + 'weights.py::return_attribution')], ['weights'])
P('C22', 'Time decay: newest label weighs 1, linear in cumulative uniqueness, in [0, 1]',
  'Time-decay weights are a linear function of cumulative uniqueness, one at the newest label; for a positive parameter the line starts at that value at zero uniqueness, for a negative parameter weights are zero over that share of '
  'the oldest uniqueness, and weights are never negative, decreasing or undefined.',
  'every uniqueness vector and decay parameter in [-1, 1]', 'Tests use a few parameters and uniform uniqueness.',
  [('time decay', LB + 'weights.py::time_decay')], ['weights'])
P('C23', 'Final sample weights: product of enabled parts, class totals balanced',
  'Class-balanced weights give every label class that has mass the same share of the total weight, and the final sample weight of an event is the product of its time decay and exactly the supplied components (return attribution, or uniqueness when absent, and vertical-touch weight), scaled to mean one '
  'and class balanced when labels are given, aligned with the event index.',
  'every label and weight vector and option combination', 'Empty classes, zero weights and options combine; tests use a few.',
  [('class balance', LB + 'weights.py::class_balance_weights'), ('kit', LB + 'kit.py::SampleWeights')], ['weight frames'])
P('C24', 'CUSUM event filter: events exactly at threshold crossings',
  'The symmetric CUSUM filter reports exactly the samples where the accumulated upward or downward log return since that side\'s last event exceeds the threshold in force, with constant or per-sample thresholds; invalid input is rejected.',
  'every price path and threshold vector', 'Resets depend on the whole path; tests use two.',
  [('filter', 'finmlkit/sampling/filters.py::cusum_filter')], ['event indices'])

# ------------------------------------------------------------------ features
P('C25', 'Windowed statistics equal their window-by-window definition',
  'Simple moving averages, z-scores, realised volatility, rolling variance, Bollinger percent, variance ratio, Parkinson range, true range and SMA-based ATR at each position equal their textbook definition over exactly the window ending '
  'there, are undefined before a full window, and treat missing values alike at every position.',
  'every series, window and missing-value pattern', 'Running-sum implementations drift or mis-handle entering and leaving values; tests compare a few series.',
  [('utils', FC + 'utils.py::comp_zscore'), ('ma', FC + 'ma.py::sma'), ('volatility', FC + 'volatility.py::realized_vol')], ['returned arrays'])
P('C26', 'Recursive smoothers equal their closed-form weighted sums',
  'Exponentially weighted means and deviations (by sample and by elapsed time), RSI, ADX and EMA-based ATR equal their closed-form weighted sums over all earlier samples, with missing samples given no weight.',
  'every series, span or half-life, timestamp sequence and missing-value pattern', 'Recursions mix the whole history; tests compare one or two series at loose tolerance.',
  [('ma', FC + 'ma.py::ewma'), ('volatility', FC + 'volatility.py::ewms'), ('rsi', FC + 'momentum.py::rsi_wilder'), ('adx', FC + 'trend.py::adx_core')], ['returned arrays'])
P('C27', 'Returns and momentum look back exactly the stated lag',
  'Time-lagged returns use the last price at or before exactly the lag ago (nanosecond exact) and are undefined without one; percentage change, rate of change, stochastic oscillator and VWAP distance use exactly the stated number of samples back.',
  'every price series, timestamp sequence, window and lag', 'Exact-lag ties and epoch-scale timestamps are not sampled.',
  [('lagged returns', FC + 'utils.py::comp_lagged_returns'), ('momentum', FC + 'momentum.py::roc')], ['returned arrays'])
P('C28', 'Bounded indicators never leave their range',
  'RSI, stochastic oscillator and ADX stay within 0 to 100, VPIN within 0 to 1, and rolling correlation within -1 to 1, or are undefined.',
  'every price and volume series', 'A range claim is universal; tests check a few values.',
  [('momentum', FC + 'momentum.py::rsi_wilder'), ('adx', FC + 'trend.py::adx_core'), ('vpin', FC + 'volume.py::vpin'), ('correlation', FC + 'correlation.py::rolling_price_volume_correlation')], ['returned arrays'])
P('C29', 'No look-ahead: a feature value never depends on later samples',
  'For every feature kernel, bar indexer and event filter, the outputs for a prefix of the input equal the prefix of the outputs for the full input (for time bars: of the bars closed by then; for CUSUM bars: prefixes that end between trading instants): data arriving later never changes an earlier value.',
  'every series and every continuation of it', 'Needs comparison over all continuations; tests never vary the future.',
  [('feature kernels', FC + 'utils.py::comp_zscore'), ('bars', B + 'logic.py::_volume_bar_indexer')], ['returned arrays'], over=('inputs', 'histories'))
P('C30', 'Volume profile kernels: bucketing, point of control, value area',
  'Aggregating and bucketing a profile conserves total buy and sell volume per level, the point of control is the (lowest) level of largest volume, and the value area is the range grown greedily from it that first holds the requested share.',
  'every volume vector, share and bucket count', 'Greedy growth with ties and edges is value dependent; tests use three profiles.',
  [('profile kernels', FC + 'volume.py::comp_poc_hva_lva')], ['bucketed volumes, levels'])
P('C31', 'Rolling and developing volume profiles cover exactly their window of bars',
  'At every bar the rolling profile statistics are those of the bars within the time window ending there, and developing ones those of the bars from the start up to it; bars outside the window and later bars have no influence.',
  'every volume content of the bars, window and range', 'Add/remove bookkeeping depends on the whole history; tests use one fixture.',
  [('rolling', FC + 'volume.py::volume_profile_rolling'), ('developing', FC + 'volume.py::volume_profile_developing'), ('class', FC + 'volume.py::VolumePro')], ['level and share arrays'])
P('C32', 'Calendar cues match the timestamp\'s calendar',
  'Session flags (Asian 00-08, European 07-15, US 13-21 UTC), session-opening minute and first minute of the hour are those of the sample\'s UTC timestamp, and the cyclical encodings are sine and cosine of exactly the elapsed seconds of the day and the Monday-based weekday.',
  'every nanosecond timestamp from 1970 to 2096', 'Tests check a handful of dates.',
  [('cues', FC + 'time.py::time_cues')], ['cue arrays'])
P('C33', 'Structural-break CUSUM: largest standardised departure over all reference points',
  'The structural-break statistics (expanding, rolling and last-value) are the largest standardised one-sided departure of the log price from any admissible earlier reference point in the window, with the critical value of exactly '
  'that reference point, and are undefined during warm-up.',
  'every price path and window', 'Maximisation over reference points with ties and windows sliding is sampled on one random path.',
  [('CUSUM tests', FC + 'structural_break/cusum.py::_comp_max_s_nt')], ['statistic arrays'])
P('C34', 'Feature algebra: combining features equals combining their values',
  'Arithmetic, minimum and maximum, clipping, lagging, rolling and other operators on features compute exactly the same operation on the underlying values, element by element, whatever the nesting, without changing the input data.',
  'every feature expression and input table', 'Expressions nest; tests check single operators.',
  [('operators', F + 'kit.py::Feature'), ('base', F + 'base.py::BinaryOpTransform')], ['feature series'], over=('inputs', 'programs'))
P('C35', 'Feature sets: results do not depend on build order or caching',
  'Building a set of features yields for each feature the same values as computing it alone, whatever the order of features, shared intermediate columns, or the requested build mode, and the input table is not modified; a dependency graph is ordered so that each node follows everything it depends on.',
  'every feature set, order and input table', 'Cache collisions depend on which features are combined.',
  [('kit', F + 'kit.py::FeatureKit'), ('graph', F + 'kit.py::ComputationGraph')], ['built frame'], over=('inputs', 'programs'))
P('C36', 'A saved feature configuration computes the same features when loaded',
  'Serialising a feature set and loading it back yields features with the same names and parameters that compute the same values on every input.',
  'every feature set and parameter choice', 'Lost parameters show only for non-default choices.',
  [('serialisation', F + 'kit.py::FeatureKit')], ['built frame'], over=('inputs', 'configurations'))
P('C37', 'Composed transforms equal applying the steps one after another',
  'A composition of transforms computes exactly what applying its steps in sequence computes, and names its output accordingly, without altering the input.',
  'every composition and input', 'Column routing depends on the combination of step types.',
  [('compose', F + 'kit.py::Compose')], ['output series'], over=('inputs', 'programs'))
P('C38', 'Compiled and data-frame implementations of a feature agree',
  'Every feature available both as a compiled kernel and as a data-frame implementation gives the same values, under the same name and index, on the same input, missing values included.',
  'every table of positive values and missing-value pattern', 'Tests compare on one random table.',
  [('backends', F + 'base.py::BaseTransform')], ['output series'])
P('C39', 'VPIN, flow acceleration and price-volume correlation follow their definition',
  'VPIN, flow acceleration and rolling price-volume correlation at each bar equal their definition over exactly the window ending there, are undefined before a full window or where the denominator vanishes, and treat missing values as stated.',
  'every price and volume series and missing-value pattern', 'Tests use one or two series; missing values enter and leave windows.',
  [('vpin', FC + 'volume.py::vpin'), ('flow', FC + 'volume.py::comp_flow_acceleration'), ('correlation', FC + 'correlation.py::rolling_price_volume_correlation')], ['returned arrays'])
P('C40', 'Transforms compute their indicator on the named columns, row aligned',
  'Every feature transform computes the indicator it names from exactly the columns and parameters it was given, in the documented column order, with one value per input row under the index of the input and the documented output names, '
  'without modifying the table; times are those of the index whatever its resolution or time zone; missing columns, inputs that are no tables and unknown backends are refused. '
  'Rolling kurtosis is the fourth standardised moment minus three, the trend slope the angle of the least-squares slope of the log price, the Hurst exponent the slope of log dispersion over log lag (1, 2, 4, 8) of the window\'s cumulative sums.',
  'every table content, index resolution and parameter choice of the listed transforms', 'Swapped columns and lost parameters show only where the columns differ enough; tests use one random table per transform.',
  [('transforms', F + 'transforms.py::StochK'), ('base', F + 'base.py::CoreTransform')], ['output series'], over=('inputs', 'configurations'))
P('C41', 'Candle, session, run and break features follow their definition',
  'Candle-shape ratios, opening-range breakouts, daily gaps (midnight price against the last price of the day before), directional run lengths, mean-reversion z-scores, bi-power variation and structural-break flags, scores and ages '
  'equal their documented definition row by row, using only the day or window they are defined over.',
  'every price content of the listed tables', 'Day edges, missing days, ties and first rows are not sampled.',
  [('candles', F + 'transforms.py::CandleShape'), ('opening range', F + 'transforms.py::ORBBreak'), ('gap', F + 'transforms.py::DailyGap'), ('runs', F + 'transforms.py::DirRunLen')], ['output series'])
P('C42', 'The HDF5 inspector reports exactly what is stored',
  'After any sequence of saves, appends and overwrites, the inspector lists one key per stored month; per month it reports the integrity flag (false iff ids were duplicated or missing across more than a minute), '
  'the missing trades in percent, every recorded discontinuity, and count and ranges of time, price and amount; the summary names exactly the failed months (None if all passed); gap inspection returns exactly the '
  'neighbouring trades (in time order) further apart than the limit; unknown months are refused.',
  'every sequence of saves, every trade time and gap length', 'Tests inspect one or two saved files.',
  [('inspector', B + 'io.py::H5Inspector'), ('gaps', B + 'io.py::_find_gaps'), ('metadata', B + 'data_model.py::TradesData.save_h5')], ['reported dictionaries and frames'], over=('inputs', 'histories'))
P('C43', 'A view range exposes exactly the trades inside it',
  'With a view range set, the trades data contains exactly the trades with start <= time <= end, in order and unchanged, bars built from it use those trades only, a later view replaces an earlier one, '
  'and a view whose start is not before its end is refused.',
  'every trade sequence and every view range', 'Tests set one or two ranges; bounds on a trade, ties and empty views are not covered.',
  [('view', B + 'data_model.py::TradesData.set_view_range'), ('data', B + 'data_model.py::TradesData.data')], ['data frame'])
P('C44', 'Parallel loops give the same result under every schedule',
  'The result of every compiled function with a parallel loop does not depend on the order in which the iterations run or on how they interleave: no iteration reads or writes memory that '
  'another iteration writes, and no value is carried from one iteration to the next.',
  'every input and every schedule of the iterations', 'Tests see the schedules that happen to occur, on inputs so small that one thread is done before the next starts.',
  [('kernels', B + 'base.py::comp_bar_ohlcv'), ('labels', 'finmlkit/label/tbm.py::triple_barrier'), ('weights', 'finmlkit/label/weights.py::average_uniqueness'),
   ('features', 'finmlkit/feature/core/volume.py::volume_profile_rolling'), ('filters', 'finmlkit/sampling/filters.py::cusum_filter')], ['race'])
P('C45', 'Calculations leave the data they are given unchanged',
  'No kernel, transform, feature set, bar builder, trades constructor, labelling or weighting function changes the arrays, series, tables or trades passed to it (nor adds columns to them); '
  'the documented effect of a view range on its own trades object is the only exception.',
  'every input of every public calculation', 'Tests rarely look at their inputs after a call.',
  [('kernels', 'finmlkit/feature/core/volatility.py::ewms'), ('transforms', 'finmlkit/feature/base.py::SISOTransform'), ('builders', B + 'base.py::BarBuilderBase'),
   ('labels', 'finmlkit/label/kit.py::TBMLabel'), ('features', 'finmlkit/feature/kit.py::FeatureKit')], ['frame condition'])


def main():
    import importlib.util
    checks, na = [], []
    for p in PROPS:
        t, n = p.pop('_tech'), p.pop('_note')
        path = os.path.join(V, 'props', p['id'].lower() + '.py')
        if p['id'] in NA:
            na.append(dict(property=p['id'], reason=NA[p['id']]))
        elif not os.path.exists(path):
            na.append(dict(property=p['id'], reason='no check built yet'))
        else:
            src = open(path).read()
            ns = {}
            import ast
            for node in ast.parse(src).body:
                if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') in ('BOUNDS', 'ASSUMPTIONS'):
                    ns[node.targets[0].id] = ast.literal_eval(node.value)
            note = ('Every path of the real functions within the bounds is explored and every obligation decided by the solver. Bounds: '
                    + ns['BOUNDS'] + '. ' + ('Assumed: ' + '; '.join(ns['ASSUMPTIONS']) + '. ' if ns.get('ASSUMPTIONS') else '')
                    + 'Floats are exact reals unless stated; nothing is claimed outside the bounds.')
            checks.append(dict(property=p['id'], quick_cmd=f'./check.sh {p["id"]} quick', thorough_cmd=f'./check.sh {p["id"]} thorough',
                               technique=t or 'path-exhaustive symbolic execution of the real Python source with z3 deciding every branch and obligation',
                               level='model_checking', level_note=note))
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
                   notes='No hooks: the engine runs the unmodified source of /repo with NUMBA_DISABLE_JIT=1 on symbolic arrays.'),
              open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(PROPS), 'properties', len(checks), 'checks', len(na), 'not applicable')


main()
