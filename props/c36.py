"""C36: saving and loading feature sets."""
import json
import os
import tempfile
import pandas as pd
from finmlkit.feature import transforms as tf
from finmlkit.feature.base import ConstantOpTransform
from finmlkit.feature.kit import Compose, FeatureKit
from . import features as F, c34, c35
from .features import DAYS, Feature

BOUNDS = ('tables of 4 rows (quick) / 5 (thorough); every operator over every base feature, nested expressions, every transform class with '
          'non-default parameters, compositions, external and applied functions, custom names; dictionary, JSON text and file round trips; symbolic constants')
SINGLE = True        # some indicators are single precision by design
ASSUMPTIONS = ['functions given to apply() or ExternalFunction can be imported by name (library operators need not)',
               'for the approximate entropy transform only the parameters are compared (its package is not installed)',
               "pandas' compiled rolling, exponential and clipping methods are replaced by their definition on symbolic columns"]
T = pd.Timedelta
TR = {
    'identity': [lambda: tf.Identity('a')],
    'lag': [lambda: tf.Lag(2, 'a'), lambda: tf.Lag(input_col='p')],
    'ret': [lambda: tf.Return(2, 'p'), lambda: tf.Return(1, 'p', is_log=True), lambda: tf.Return(2, 'p', True)],
    'returnt': [lambda: tf.ReturnT(T(days=1), input_col='p'), lambda: tf.ReturnT(T(days=2), True, 'p'), lambda: tf.ReturnT(T(hours=30), False, 'q'), lambda: tf.ReturnT(input_col='p')],
    'roc': [lambda: tf.ROC(2, 'p')],
    'pct': [lambda: tf.PctChange(2, 'p')],
    'rsi': [lambda: tf.RSIWilder(2, 'p')],
    'stoch': [lambda: tf.StochK(2, ['p', 'a', 'q'])],
    'ewmst': [lambda: tf.EWMST(T(days=2), 'a'), lambda: tf.EWMST(T(hours=36), 'p')],
    'z': [lambda: tf.ZScore(3, 'a', ddof=1), lambda: tf.ZScore(3, 'a')],
    'burst': [lambda: tf.BurstRatio(2, 'p')],
    'vwap': [lambda: tf.VWAPDistance(2, input_cols=['p', 'q']), lambda: tf.VWAPDistance(2, is_log=True, input_cols=['q', 'p'])],
    'cues': [lambda: tf.TimeCues('p')],
    'rv': [lambda: tf.RealizedVolatility(3, True, 'a'), lambda: tf.RealizedVolatility(2, input_col='a')],
    'boll': [lambda: tf.BollingerPercentB(2, 1.5, 'p')],
    'park': [lambda: tf.ParkinsonRange(['p', 'q'])],
    'sma': [lambda: tf.SMA(3, 'a')],
    'ewma': [lambda: tf.EWMA(4, 'a')],
    'flow': [lambda: tf.FlowAcceleration(3, 2, 'p')],
    'atr': [lambda e=e, m=m: tf.ATR(2, e, m, ['p', 'q', 'a']) for e in (False, True) for m in (False, True)],
    'corr': [lambda: tf.PriceVolumeCorrelation(3, ['p', 'q'])],
    'vpin': [lambda: tf.VPIN(2, ['q', 'p'])],
    'adx': [lambda: tf.ADX(2, ['p', 'q', 'a'])],
    'mrz': [lambda: tf.MeanReversionZScore(2, 'p')],
    'rate': [lambda: tf.BarRate(T(days=2), 'p'), lambda: tf.BarRate(T(seconds=86430), 'p')],
    'candle': [lambda: tf.CandleShape(['p', 'q', 'a', 'p', 'q'])],
    'dur': [lambda: tf.BarDuration(2, 'p'), lambda: tf.BarDurationEWMA(3, 'a')],
    'bv': [lambda: tf.BiPowerVariation(1, 'a')],
    'dirrun': [lambda: tf.DirRunLen('a')],
    'kurt': [lambda: tf.KurtosisTransform(3, 'a')], 'trend': [lambda: tf.TrendSlope(2, 'p')], 'hurst': [lambda: tf.HurstExponent(4, 'a')],
    'ext': [lambda: tf.ExternalFunction(F.scaled, 'a', 'out', args=[3]), lambda: tf.ExternalFunction('props.features.scaled', 'p', kwargs={'by': 2}),
            lambda: tf.ExternalFunction(F.scaled, 'a', args=[0.5], pass_numpy=True), lambda: tf.ExternalFunction(c35.diff, ['p', 'a'], ['one']),
            lambda: tf.ExternalFunction(c35.two, 'a', ['u2', 'u1'], args=[2]), lambda: tf.ExternalFunction(c35.two, 'a', ('u2', 'u1'), args=(2,))],
    'compose': [lambda: Compose(tf.Lag(2, 'p'), tf.SMA(3, 'y')), lambda: Compose(tf.Return(1, 'p', is_log=True), tf.EWMA(3, 'y'), tf.Lag(1, 'y')),
                lambda: Compose(tf.SMA(2, 'p'), tf.VWAPDistance(2, is_log=True, input_cols=['p_sma2', 'q'])),
                lambda: Compose(tf.SMA(2, 'p'), Compose(tf.Lag(1, 'y'), tf.SMA(2, 'y')))],
}
OPAQUE = [lambda: tf.KurtosisTransform(5, 'a'), lambda: tf.TrendSlope(7, 'p'), lambda: tf.HurstExponent(11, 'a'),
          lambda: tf.ApproximateEntropy(12, 3, 0.35, 'a'),
          lambda: tf.CUSUMTest(12, 7, 21, 'p'), lambda: tf.VarianceRatio14(9, 'p', 'simple', 1), lambda: tf.ORBBreak(['p', 'q', 'a']), lambda: tf.DailyGap('p')]
OPS = [
    lambda f: f.clip(-0.25, 1e-05), lambda f: f.clip(lower=-3), lambda f: f.clip(upper=1.5e3), lambda f: f.clip(0, 0), lambda f: f.clip(), lambda f: f.clip(-1e20, 2.5e-9),
    lambda f: f.ema(5, adjust=False), lambda f: f.ema(2), lambda f: f.lag(3), lambda f: f.lag(-1), lambda f: f.rolling_mean(3), lambda f: f.rolling_sum(3), lambda f: f.rolling_std(3),
    lambda f: f.apply(F.scaled, 4), lambda f: f.apply(F.scaled, by=4, suffix='rmean3'), lambda f: f.apply(F.scaled, 4, suffix='odd(name)'), lambda f: f.apply(F.scaled, -1, suffix='clip_1_2'),
    lambda f: f + 1e-12, lambda f: -1e20 - f, lambda f: f * 0.1, lambda f: 1 / (f * f + 1), lambda f: f - True, lambda f: Feature.min(f, -0.0), lambda f: Feature.max(3, f),
    lambda f: (f - f.lag(1)).abs(), lambda f: abs(f) - (2 - f), lambda f: Feature.max(f.lag(1), f) / 3, lambda f: Feature.min(f * 2, f.rolling_mean(2) + f),
]


def load(kit, how):
    if how == 'dict':
        return FeatureKit.from_dict(kit.to_config())
    if how == 'json':
        return FeatureKit.from_dict(json.loads(json.dumps(kit.to_config())))
    if how == 'again':
        return load(load(kit, 'json'), 'json')
    fd, path = tempfile.mkstemp(suffix='.json')
    os.close(fd)
    try:
        kit.save_config(path)
        return FeatureKit.from_config(path)
    finally:
        os.unlink(path)


def same(c, f, g, df, n, backend, obs):
    c.prove(g.name == f.name and type(g.name) is type(f.name), 'the loaded feature has the name')
    c.prove(g.transform.output_name == f.transform.output_name, 'the loaded feature has the output name')
    c.prove(list(g.transform.requires) == list(f.transform.requires), 'the loaded feature has the inputs')
    r = c.call(f, df.copy(), backend=backend)
    s = c.call(g, df.copy(), backend=backend)
    rs, ss = (r, s) if isinstance(r, tuple) else ((r,), (s,))
    c.prove(type(r) is type(s) and len(rs) == len(ss), 'the loaded feature has the outputs')
    for x, y in zip(rs, ss):
        c.prove(x.name == y.name and x.index.equals(y.index), 'the loaded feature has the outputs')
        c.eqs(y, c.xs(x), 'the loaded feature computes the same values', obs=obs)


def run(c, makers, n, how='json', backend='nb', custom=False, nans=None, obs=True, ordered=False):
    m = makers[c.choice('feature', len(makers))]
    f = c.call(m) if not isinstance(m, (str, tuple)) else c.call(F.build, m)
    if not isinstance(f, Feature):
        f = Feature(f)
    if custom:
        f.name = 'custom name' if isinstance(f.name, str) else [f'custom {i}' for i in range(len(f.name))]
    df, v = F.frame(c, n, ('a', 'p', 'q'), nans=nans)
    if ordered:
        for i in range(n):
            c.assume(c.And(v['p'][i] > v['q'][i], v['q'][i] > v['a'][i], v['q'][i] * 2 > v['a'][i] * 3))
    kit = FeatureKit([f], retain=['q'])
    k2 = c.call(load, kit, how)
    c.prove(len(k2.features) == 1 and list(k2.retain) == ['q'], 'the loaded set has the features and retained columns')
    g = k2.features[0]
    e = m if isinstance(m, (str, tuple)) else None
    if e is not None:
        F.value(c, e, v)            # domain: nonzero divisors
        c.feasible()
    same(c, f, g, df, n, backend, obs)
    F.untouched(c, df, v, n)


def constants(c, n):
    """constants of any value survive"""
    k = c.f('k', lo=-5, hi=5)
    ops = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y, 'div': lambda x, y: x / y, 'rsub': lambda x, y: y - x, 'rdiv': lambda x, y: y / x,
           'min': lambda x, y: c.min(x, y), 'max': lambda x, y: c.max(x, y)}
    op = list(ops)[c.choice('op', len(ops))]
    c.assume(c.Not(k == 0))
    df, v = F.frame(c, n, ('p',))
    f = Feature(ConstantOpTransform(tf.Identity('p'), k, op, None))
    g = FeatureKit.from_dict(FeatureKit([f]).to_config()).features[0]
    c.eqs(c.call(g, df), [ops[op](x, k) for x in v['p']], 'the loaded feature applies the constant')
    h = Feature(tf.ExternalFunction(F.scaled, 'p', args=[0], kwargs={}))
    cfg = FeatureKit([h]).to_config()
    cfg['features'][0]['transform']['args'] = [k]
    g = FeatureKit.from_dict(cfg).features[0]
    c.eqs(c.call(g, df), [x * k + 1 for x in v['p']], 'the loaded function has the arguments')


def params(c):
    m = OPAQUE[c.choice('transform', len(OPAQUE))]
    how = ('json', 'file', 'dict')[c.choice('how', 3)]
    t = m()
    g = load(FeatureKit([Feature(t)]), how).features[0].transform
    c.prove(type(g) is type(t) and g.output_name == t.output_name and list(g.requires) == list(t.requires), 'the loaded feature has the name')
    for a in ('window', 'm', 'tolerance', 'window_size', 'warmup_period', 'max_age', 'ret_type', 'ddof'):
        c.prove(getattr(t, a, None) == getattr(g, a, None) and type(getattr(t, a, None)) is type(getattr(g, a, None)), 'the loaded feature has the parameters')


def kits(c, sets, n, how):
    keys = sets[c.choice('set', len(sets))]
    feats = c35.named(c, keys)
    kit = FeatureKit(feats, retain=['a'] if 'id' not in keys else ['q'])
    k2 = c.call(load, kit, how)
    df, v = F.frame(c, n, ('a', 'p', 'q'))
    mode = ('defined', 'topo')[c.choice('mode', 2)]
    r, s = c.call(kit.build, df, order=mode), c.call(k2.build, df, order=mode)
    c.prove(list(r.columns) == list(s.columns), 'the loaded set has the columns')
    for k in r.columns:
        c.eqs(s[k], c.xs(r[k]), 'the loaded set computes the same values', obs='log' not in str(keys) and 'cues' not in str(keys))
    c.prove(k2.topological_order() == kit.topological_order(), 'the loaded set has the dependencies')


def cases(tier):
    q = tier == 'quick'
    n = 4 if q else 5
    out = []

    def add(name, fn, wt=5, **p):
        out.append(dict(name=name, fn=fn, params=p, weight=wt))
    inexact = ('flow', 'returnt', 'ret', 'vwap', 'cues', 'z', 'rv', 'boll', 'park', 'corr', 'mrz', 'dur', 'rate', 'ewmst', 'bv', 'compose', 'adx', 'trend', 'hurst')
    for k, ms in TR.items():
        for b in ('nb', 'pd') if k in ('rsi', 'ret', 'sma', 'ewma', 'vpin', 'roc', 'lag', 'rv', 'pct') else ('nb',):
            add(f'{k}-{b}', run, 10, makers=ms, n=(3 if k in ('rsi', 'adx', 'boll', 'corr', 'mrz') and q else 4), how='json' if b == 'nb' else 'file', backend=b, obs=k not in inexact,
                ordered=k in ('candle', 'adx', 'atr', 'stoch', 'park', 'dirrun', 'burst'))
        add(f'{k}-custom', run, 10, makers=ms, n=3, how='again', custom=True, obs=k not in inexact, ordered=k in ('candle', 'adx', 'atr', 'stoch', 'park', 'dirrun', 'burst'))
    hard = ('exp', 'log', 'log1p', 'sqrt', 'rolling_std')
    for o in F.UN:
        if o == 'apply same':
            continue
        add(f'un-{o}', run, 5, makers=[(o, l) for l in F.LEAF], n=n, how='file' if len(o) % 2 else 'json', obs=o not in hard)
        add(f'nested-{o}', run, 5, makers=[(o, (i, 'a')) for i in F.UN if i != 'apply same' and not (o in hard and i in hard) and not (o in hard and i in ('c/', 'ema', 'ema recursive'))], n=n, obs=False)
    for o in F.BIN:
        add(f'bin-{o}', run, 5, makers=[(o, l, r) for l in c34.SEC for r in c34.SEC], n=3, how='json', obs=False)
        add(f'bin-custom-{o}', run, 5, makers=[(o, ('lag', 'a'), 'close'), (o, 'return', ('c-', 'a'))], n=3, how='again', custom=True, obs=False)
    for k, e in enumerate(c34.DEEP):
        if 'apply same' not in str(e):
            add(f'deep-{k}', run, 5, makers=[e], n=n, how=('file', 'again', 'json')[k % 3], obs=False)
    for l in ('a', 'close', 'lagged'):
        add(f'ops-{l}', run, 10, makers=[lambda o=o, l=l: o(F.LEAF[l][0]()) for o in OPS], n=n, how='json', obs=False)
    add('missing', run, 10, makers=[('ema', 'a'), ('ema recursive', 'a'), ('rolling_sum', 'a'), lambda: tf.SMA(2, 'a'), lambda: tf.EWMA(3, 'a'), ('min', 'a', 'close')], n=4, nans={'a': (1,), 'p': (2,)}, obs=False)
    add('constants', constants, n=2)
    add('params', params)
    ks = [k for k in c35.POOL if k not in ('same', 'candle') and k.split()[0] not in ('times', 'plus', 'kw')]
    add('kit-pairs', kits, 20, sets=[[ks[i], ks[(i * 7 + 3) % len(ks)]] for i in range(len(ks)) if ks[i] != ks[(i * 7 + 3) % len(ks)]], n=3, how='json')
    for i, s in enumerate([['ret', 'logret', 'ret-logret'], ['lag', 'lag,sma', 'lag,sma,ewma'], ['apply 2', 'apply 3', 'max apply 2'], ['two', 'two 3', 'ext y'], ['ema rec', 'ema', 'lag ema', 'lag ema rec']]):
        add(f'kit-{i}', kits, 10, sets=[s], n=n, how=('file', 'json')[i % 2])
    return out
