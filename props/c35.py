"""C35: FeatureKit."""
import contextlib
import io
import itertools
import numpy as np
import pandas as pd
from finmlkit.feature import transforms as tf
from finmlkit.feature.kit import Compose, FeatureKit
from . import features as F
from .features import DAYS, Feature

BOUNDS = ('dependency graphs of 3 nodes (4-5 if acyclic) with any edges; tables of 3 rows (quick) / 4 (thorough); every pair of 44 features - including features whose outputs or intermediate results carry '
          'the same name but differ in meaning - in both orders and both build modes, plus lists of larger sets; both backends')
SINGLE = True        # some indicators are single precision by design
ASSUMPTIONS = ['features of a set carry distinct names and no input column is named like an output of the set',
               'a feature that names another feature\'s output column as its input is built after it (defined mode) or in topological mode',
               "pandas' compiled rolling, exponential and shift methods are replaced by their definition on symbolic columns"]
I = lambda col='p': Feature(tf.Identity(col))


def two(s, k):
    return s + k, s * k


def diff(u, v):
    return u - v


def times(k):
    def by(s):
        return s * k
    return by


def plus(k):
    def by(s, k=k):
        return s + k
    return by


def plus_kw(k):
    def by(s, *, k=k):
        return s + k
    return by


POOL = {
    'ret': lambda: Feature(tf.Return(1, 'p')),
    'logret': lambda: Feature(tf.Return(1, 'p', is_log=True)),
    'ret+1': lambda: Feature(tf.Return(1, 'p')) + 1,
    'logret+1': lambda: Feature(tf.Return(1, 'p', is_log=True)) + 1,
    'abs ret': lambda: abs(Feature(tf.Return(1, 'p'))),
    'abs logret': lambda: Feature(tf.Return(1, 'p', is_log=True)).abs(),
    'ret-logret': lambda: Feature(tf.Return(1, 'p')) - Feature(tf.Return(1, 'p', is_log=True)),
    'ema': lambda: I().ema(3),
    'ema rec': lambda: I().ema(3, adjust=False),
    'lag ema': lambda: I().ema(3).lag(1),
    'lag ema rec': lambda: I().ema(3, adjust=False).lag(1),
    'apply 3': lambda: I().apply(F.scaled, 3, suffix='scaled'),
    'apply 2': lambda: I().apply(F.scaled, 2, suffix='scaled'),
    'max apply 2': lambda: Feature.max(I().apply(F.scaled, 2, suffix='scaled'), I('a')),
    'same': lambda: I().apply(lambda s: s, suffix='same'),
    'id': lambda: I('a'),
    'lag': lambda: Feature(tf.Lag(1, 'p')),
    'lag of lag': lambda: Feature(tf.Lag(1, 'p')).lag(1),
    'sma': lambda: Feature(tf.SMA(2, 'p')),
    'sma a': lambda: Feature(tf.SMA(2, 'a')),
    'min': lambda: Feature.min(Feature(tf.SMA(2, 'a')), Feature(tf.Lag(1, 'p'))),
    'max 1': lambda: Feature.max(Feature(tf.SMA(2, 'a')), 1),
    'quot': lambda: I() / Feature(tf.SMA(2, 'p')),
    'scaled sma': lambda: 2 * Feature(tf.SMA(2, 'p')),
    '2-sma': lambda: 2 - Feature(tf.SMA(2, 'p')),
    'sma-2': lambda: Feature(tf.SMA(2, 'p')) - 2,
    'lag,sma': lambda: Feature(Compose(tf.Lag(1, 'p'), tf.SMA(2, 'p_lag1'))),
    'lag,sma,ewma': lambda: Feature(Compose(tf.Lag(1, 'p'), tf.SMA(2, 'y'), tf.EWMA(3, 'y'))),
    'ret,sma': lambda: Feature(Compose(tf.Return(1, 'p'), tf.SMA(2, 'p_ret1'))),
    'logret,sma': lambda: Feature(Compose(tf.Return(1, 'p', is_log=True), tf.SMA(2, 'p_ret1'))),
    'logret,sma,lag': lambda: Feature(Compose(tf.Return(1, 'p', is_log=True), tf.SMA(2, 'y'), tf.Lag(1, 'y'))),
    'vpin': lambda: Feature(tf.VPIN(2, ['a', 'q'])),
    'vpin swapped': lambda: Feature(tf.VPIN(2, ['q', 'p'])),
    'vwap': lambda: Feature(tf.VWAPDistance(2, input_cols=['p', 'q'])),
    'vwap log': lambda: Feature(tf.VWAPDistance(2, is_log=True, input_cols=['p', 'q'])),
    'lag vwap': lambda: Feature(tf.VWAPDistance(2, input_cols=['p', 'q'])).lag(1),
    'ext ret1': lambda: Feature(tf.ExternalFunction(F.scaled, 'a', 'p_ret1', args=[5])),
    'ext y': lambda: Feature(tf.ExternalFunction(F.scaled, 'a', 'y', kwargs={'by': 2})),
    'ext2': lambda: Feature(tf.ExternalFunction(diff, ['a', 'p'], 'u')),
    'ext2 swapped': lambda: Feature(tf.ExternalFunction(diff, ['p', 'a'], 'u')),
    'two': lambda: Feature(tf.ExternalFunction(two, 'a', ['u1', 'u2'], args=[2])),
    'two 3': lambda: Feature(tf.ExternalFunction(two, 'p', ['u1', 'u2'], args=[3])),
    'cues': lambda: Feature(tf.TimeCues('p')),
    # one source text, different closures and defaults
    'times 2': lambda: Feature(tf.ExternalFunction(times(2), 'a', 'z')),
    'times 3 +1': lambda: Feature(tf.ExternalFunction(times(3), 'a', 'z')) + 1,
    'plus 2': lambda: Feature(tf.ExternalFunction(plus(2), 'a', 'z')),
    'plus 3 +1': lambda: Feature(tf.ExternalFunction(plus(3), 'a', 'z')) + 1,
    'kw 2': lambda: Feature(tf.ExternalFunction(plus_kw(2), 'a', 'z')),
    'kw 3 +1': lambda: Feature(tf.ExternalFunction(plus_kw(3), 'a', 'z')) + 1,
    'candle': lambda: Feature(tf.CandleShape(['p', 'q', 'a', 'p', 'q'])),
}


def named(c, keys, custom=False):
    """features with distinct names"""
    out, used = [], set()
    for k in keys:
        f = c.call(POOL[k])
        ns = [f.name] if isinstance(f.name, str) else list(f.name)
        if custom or used & set(ns):
            ns = [f'{k}:{i}' for i in range(len(ns))]
            f.name = ns[0] if isinstance(f.name, str) else ns
        used |= set(ns)
        out.append(f)
    return out


def one(c, key, v, n, backend, given=None):
    df = pd.DataFrame({x: y.copy() for x, y in {**v, **(given or {})}.items()}, index=DAYS[:n])
    r = c.call(lambda: (POOL[key]() if key in POOL else LATE[key]())(df, backend=backend))
    return [c.xs(x) for x in r] if isinstance(r, tuple) else [c.xs(r)]


def judge(c, feats, ref, out, retain, v, df, n, obs=False):
    want = list(retain) + [x for f in feats for x in ([f.name] if isinstance(f.name, str) else f.name)]
    c.prove(sorted(out.columns) == sorted(want), 'one column per retained column and feature output')
    c.prove(out.index.equals(DAYS[:n]), 'the rows of the input')
    for f, r in zip(feats, ref):
        ns = [f.name] if isinstance(f.name, str) else list(f.name)
        for nm, x in zip(ns, r):
            c.eqs(out[nm], x, 'the feature computed alone', obs=obs)
    for x in retain:
        c.eqs(out[x], v[x], 'retained columns are the input', obs=False)
    F.untouched(c, df, v, n)


def run(c, sets, n, backend='nb', custom=False, retain=(), timeit=False, perms='all', nans=None):
    keys = sets[c.choice('set', len(sets))]
    ps = list(itertools.permutations(range(len(keys)))) if perms == 'all' else perms
    order = ps[c.choice('order', len(ps))]
    mode = ('defined', 'topo')[c.choice('mode', 2)]
    df, v = F.frame(c, n, ('a', 'p', 'q'), nans=nans)
    if 'candle' in keys:                # fix the order of the prices
        for i in range(n):
            c.assume(c.And(v['p'][i] > v['q'][i], v['q'][i] > v['a'][i], v['q'][i] * 2 > v['a'][i] * 3))
    c.feasible()
    raw = {k: df[k].values for k in df.columns}
    ref = [one(c, k, raw, n, backend) for k in keys]
    c.feasible()
    feats = named(c, keys, custom)
    kit = FeatureKit([feats[i] for i in order], retain=list(retain))
    names = [f.name for f in feats]
    with contextlib.redirect_stdout(io.StringIO()):
        out = c.call(kit.build, df, backend=backend, order=mode, timeit=timeit)
    judge(c, feats, ref, out, retain, v, df, n, not any('log' in k or 'cues' in k for k in keys))
    c.prove([f.name for f in feats] == names, 'building does not rename the features')
    out2 = c.call(kit.build, df, backend=backend, order=('topo' if mode == 'defined' else 'defined'))
    judge(c, feats, ref, out2, retain, v, df, n)


LATE = {
    'sma of lag': (lambda: Feature(tf.SMA(2, 'p_lag1'))),
    'vpin of ext': (lambda: Feature(tf.VPIN(2, input_cols=['y', 'q']))),
    'sma+lag': (lambda: Feature(tf.SMA(2, 'p_lag1')) + Feature(tf.Lag(2, 'y'))),
    'abs u1': (lambda: abs(Feature(tf.Identity('u1')))),
    'sma of abs': (lambda: Feature(tf.SMA(2, 'abs(p_ret1)'))),
    'compose on lag': (lambda: Feature(Compose(tf.SMA(2, 'p_lag1'), tf.Lag(1, 'y')))),
}


def chain(c, keys, late, n, custom=(), mode=None, perms='all'):
    """features reading other features' outputs by column name"""
    order = list(itertools.permutations(range(len(keys) + len(late))))
    mode = mode or ('defined', 'topo')[c.choice('mode', 2)]
    if mode == 'defined':       # producers first
        order = [o for o in order if all(o.index(i) < o.index(j) for i in range(len(keys)) for j in range(len(keys), len(o)))]
    if perms != 'all':
        order = order[::perms]
    order = order[c.choice('order', len(order))]
    df, v = F.frame(c, n, ('a', 'p', 'q'))
    raw = {k: df[k].values for k in df.columns}
    ref = [one(c, k, raw, n, 'nb') for k in keys]
    given = {}
    for k, r in zip(keys, ref):
        o = c.call(POOL[k]).transform.output_name
        for nm, x in zip([o] if isinstance(o, str) else o, r):
            given[nm] = pd.Series(x, dtype=object if c.sym else float).values
    for k in late:
        ref.append(one(c, k, raw, n, 'nb', given))
    feats = [c.call(POOL[k]) for k in keys] + [c.call(LATE[k]) for k in late]
    for i in custom:
        o = feats[i].name
        feats[i].name = f'custom {i}' if isinstance(o, str) else [f'custom {i} {j}' for j in range(len(o))]
    c.feasible()
    kit = FeatureKit([feats[i] for i in order])
    out = c.call(kit.build, df, order=mode)
    judge(c, feats, ref, out, (), v, df, n, True)


def cached(c, n):
    """a feature given a table of already computed features uses those it finds there"""
    df, v = F.frame(c, n, ('a', 'p', 'q'))
    other = pd.DataFrame({'p_sma2': df['a'].values}, index=DAYS[:n])
    f = Feature(tf.SMA(2, 'p'))
    c.eqs(c.call(f, df, cache=other), v['a'], 'the cached column')
    c.eqs(c.call(Feature(tf.SMA(3, 'p')), df, cache=other), one(c, 'sma3', {k: df[k].values for k in df.columns}, n, 'nb')[0], 'a feature that is not cached is computed', obs=False)
    F.untouched(c, df, v, n)
    c.prove(list(other.columns) == ['p_sma2'], 'the cache is not modified')


LATE['sma3'] = lambda: Feature(tf.SMA(3, 'p'))


def graph(c, n, acyclic):
    """the order of a dependency graph: every node once, after all it depends on; nodes behind a cycle have no place"""
    from finmlkit.feature.utils import ComputationGraph
    g = ComputationGraph()
    names = ['f%d' % ((3 * i + 1) % n if n % 3 else i) for i in range(n)]
    pairs = [(i, j) for i in range(n) for j in range(n) if (i < j if acyclic else i != j)]
    edges = set()
    first = bool(c.b('nodes first'))
    if first:
        for x in reversed(names):
            c.call(g.add_node, x)
    for i, j in pairs:
        if c.b(f'e{i}{j}'):
            c.call(g.add_edge, names[i], names[j])
            edges.add((names[i], names[j]))
    for x in names:
        c.call(g.add_node, x)
    r = c.call(g.topological_sort)
    late = set()
    for _ in range(n):                      # nodes on or behind a cycle: never without an unplaced predecessor
        late = {y for y in names if any(b == y for a, b in edges)} if not _ else {y for y in late if any(b == y and a in late for a, b in edges)}
    c.prove(sorted(r) == sorted(set(names) - late), 'every feature that is not behind a cycle has one place')
    c.prove(all(r.index(a) < r.index(b) for a, b in edges if a in r and b in r), 'after everything it depends on')
    again = c.call(g.topological_sort)
    c.prove(sorted(again) == sorted(r), 'asking twice gives the same')
    c.prove({(a, b) for a in g.edges for b in g.edges[a]} == edges and set(g.nodes) == set(names), 'the graph is unchanged')


def cases(tier):
    q = tier == 'quick'
    n = 3 if q else 4
    out = []

    def add(name, fn, wt=5, **p):
        out.append(dict(name=name, fn=fn, params=p, weight=wt))
    ks = list(POOL)
    FN = [k for k in ks if k.split()[0] in ('times', 'plus', 'kw')]
    for i, k in enumerate(ks):
        if k not in FN:
            add(f'pairs-{k}', run, 20, sets=[[k, o] for o in ks[i + 1:] if o not in FN] or [[k]], n=n)
    add('graph', graph, n=3, acyclic=False)
    add('graph-acyclic', graph, n=4 if q else 5, acyclic=True)
    add('pairs-functions', run, 20, sets=[[k, o] for k in FN for o in FN if k < o], n=n)
    add('single', run, sets=[[k] for k in ks], n=n, custom=True)
    add('single-pd', run, sets=[[k] for k in ks if 'log' not in k], n=n, backend='pd', retain=['q'])
    S = [['ret', 'logret', 'ret-logret'], ['abs logret', 'logret', 'ret', 'abs ret'], ['lag', 'lag,sma', 'lag,sma,ewma'], ['sma', 'scaled sma', '2-sma', 'sma-2'],
         ['logret,sma,lag', 'ret,sma', 'logret,sma'], ['ext ret1', 'ret', 'abs logret'], ['apply 2', 'apply 3', 'max apply 2'], ['min', 'max 1', 'sma a', 'lag'],
         ['two', 'two 3', 'candle'], ['ext2', 'ext2 swapped', 'ext y'], ['ema rec', 'ema', 'lag ema', 'lag ema rec'], ['vwap log', 'lag vwap', 'vwap'], ['same', 'id', 'cues']]
    for i, s in enumerate(S):
        for b in ('nb', 'pd'):
            if b == 'pd' and (q or i in (0, 1, 4, 5)):
                continue
            add(f'set-{i}-{b}', run, 20, sets=[s], n=n, backend=b, retain=['p'])
        if not q or i % 2 == 0:
            add(f'custom-{i}', run, 20, sets=[s], n=n, custom=True, timeit=True, perms='all' if not q else [tuple(range(len(s))), tuple(reversed(range(len(s))))])
    add('missing', run, 10, sets=[['sma', 'lag', 'quot'], ['ema', 'lag ema', 'ema rec'], ['vpin', 'vpin swapped', 'min']], n=3, nans={'p': (1,), 'a': (2,)})
    CH = [(['lag'], ['sma of lag']), (['lag', 'ext y'], ['sma+lag']), (['ext y'], ['vpin of ext']), (['two', 'lag'], ['abs u1']), (['abs ret', 'ret'], ['sma of abs']),
          (['lag', 'ret'], ['sma of lag', 'compose on lag'])]
    for i, (k, l) in enumerate(CH):
        add(f'chain-{i}', chain, 10, keys=k, late=l, n=n)
        for j in range(len(k) + len(l)):
            add(f'chain-{i}-custom-{j}', chain, 10, keys=k, late=l, n=n, custom=(j,), perms='all' if not q else 2)
    add('cached', cached, n=n)
    return out
