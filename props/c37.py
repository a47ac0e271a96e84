"""C37: Compose."""
import pandas as pd
from finmlkit.feature import transforms as tf
from finmlkit.feature.kit import Compose
from . import features as F
from .features import DAYS, Feature

BOUNDS = ('tables of 4 rows (quick) / 5 (thorough); every pair and (thorough: every, quick: a list of) triple of the step kinds, each step reading its '
          'predecessor under the predecessor\'s name, under a name absent from the table, and under the name of another column of the table')
SINGLE = True        # some indicators are single precision by design
ASSUMPTIONS = ['no column of the table is named like the output of a leading part of the composition (such columns are reused by design), except in the reuse cases',
               "pandas' compiled rolling, exponential and shift methods are replaced by their definition on symbolic columns"]
# step kinds: input column name -> transform
KINDS = {
    'lag': lambda col: tf.Lag(1, col),
    'return': lambda col: tf.Return(1, col),
    'sma': lambda col: tf.SMA(2, col),
    'sma3': lambda col: tf.SMA(3, col),
    'ewma': lambda col: tf.EWMA(3, col),
    'roc': lambda col: tf.ROC(1, col),
    'pct': lambda col: tf.PctChange(1, col),
    'burst': lambda col: tf.BurstRatio(2, col),
    'bv': lambda col: tf.BiPowerVariation(1, col),
    'gap': lambda col: tf.MeanReversionZScore(2, col),
    'ext': lambda col: tf.ExternalFunction(F.scaled, col, 'ext', args=[3]),
    'id': lambda col: tf.Identity(col),
    'double': lambda col: (Feature(tf.Identity(col)) * 2 + 1).transform,
    'vwap': lambda col: tf.VWAPDistance(2, input_cols=[col, 'q']),
    'vpin': lambda col: tf.VPIN(2, input_cols=['q', col]),
}


def link(how, prev):
    """column name a step reads"""
    return {'named': prev.output_name, 'default': 'y', 'clash': 'p', 'suffix': prev.produces[0]}[how]


def steps_of(kinds, hows, first='p'):
    s = [KINDS[kinds[0]](first)]
    for k, h in zip(kinds[1:], hows):
        s.append(KINDS[k](link(h, s[-1])))
    return s


def sequence(c, steps, v, n, backend, start=None):
    """the steps one after another, each on a table holding just its own inputs"""
    cur = start
    for i, t in enumerate(steps):
        if i == 0 and cur is None:
            df = pd.DataFrame({k: x.copy() for k, x in v.items()}, index=DAYS[:n])
        else:
            prev = steps[i - 1].output_name if i else None
            at = prev if prev in t.requires else next((k for k in t.requires if k not in v), t.requires[0])
            df = pd.DataFrame({k: (cur if k == at else v[k].copy()) for k in t.requires}, index=DAYS[:n])
        cur = c.call(t, df, backend=backend)
        cur = pd.Series(cur.values, index=DAYS[:n])
    return cur


def joined(steps):
    return '_'.join([steps[0].output_name] + [t.produces[0] for t in steps[1:]])


def run(c, chains, hows, n, backend='nb', extra=(), nans=None):
    kinds = chains[c.choice('chain', len(chains))]
    how = hows[c.choice('how', len(hows))]
    first = 'p'
    df, v = F.frame(c, n, ('a', 'p', 'q'), nans=nans)
    for k in extra:
        df[k] = df['a'].values
    cols = {k: df[k].values for k in df.columns}
    steps = c.call(steps_of, kinds, how, first)
    comp = c.call(Compose, *steps)
    want = joined(steps)
    c.prove(comp.output_name == want, 'named after its steps')
    c.prove(steps[0].requires[0] in comp.requires, 'requires the first input of its first step')
    bad = set()
    nm = steps[0].output_name
    for i, t in enumerate(steps):
        nm = nm if i == 0 else nm + '_' + t.produces[0]
        bad.add(nm)
    c.assume(not (set(df.columns) & (bad - {first} if kinds[0] == 'id' else bad)))
    ref = sequence(c, steps, cols, n, backend)
    c.feasible()
    r = c.call(comp, df, backend=backend)
    c.prove(isinstance(r, pd.Series) and r.index.equals(DAYS[:n]), 'one value per row of the input')
    c.prove(r.name == want, 'the result carries the composed name')
    c.eqs(r, c.xs(ref), 'the steps applied one after another', obs=not {'gap', 'bv'} & set(kinds))
    c.prove(list(df.columns) == list(cols), 'the input table is not modified')
    for k in cols:
        c.prove(df[k].name == k, 'the input table is not modified')
        c.eqs(df[k], c.xs(cols[k]), 'the input table is not modified', 0, obs=False)
    f = c.call(lambda: Feature(Compose(*steps_of(kinds, how, first))))
    c.prove(f.name == want, 'a feature of a composition has its name')
    r2 = c.call(lambda: (f + 1)(df, backend=backend))
    c.eqs(r2, [x if F.missing(x) else x + 1 for x in c.xs(ref)], 'a composition inside an expression', obs=False)


def reuse(c, n, part):
    """columns named like the composition, or its first steps, stand for their results"""
    df, v = F.frame(c, n, ('a', 'p', 'q'))
    steps = steps_of(['lag', 'sma', 'ewma'], ['named', 'default'])
    comp = c.call(Compose, *steps)
    name = joined(steps[:part])
    given = {k: df[k].values for k in df.columns}
    df[name] = df['a'].values
    r = c.call(comp, df)
    ref = pd.Series(given['a'], index=DAYS[:n]) if part == 3 else sequence(c, steps[part:], {k: x for k, x in given.items()}, n, 'nb', start=pd.Series(given['a'], index=DAYS[:n]))
    c.eqs(r, c.xs(ref), 'a present column named like the first steps is their result', obs=False)
    c.prove(df[name].name == name and r.name == comp.output_name, 'the reused column keeps its name')
    c.eqs(df[name], v['a'], 'the input table is not modified', 0, obs=False)


def refused(c, n):
    df, v = F.frame(c, n, ('a',))
    comp = Compose(*steps_of(['lag', 'sma'], ['named']))
    c.prove(isinstance(c.call(comp, df, raises=(ValueError,)), ValueError), 'a table without the input column is refused')
    c.prove(isinstance(c.call(comp, df['a'], raises=(TypeError,)), TypeError), 'an input that is no table is refused')
    df, v = F.frame(c, n, ('p',))
    c.prove(isinstance(c.call(comp, df, backend='xx', raises=(AssertionError, ValueError)), (AssertionError, ValueError)), 'an unknown backend is refused')


def cases(tier):
    q = tier == 'quick'
    n = 4 if q else 5
    out = []

    def add(name, fn, wt=5, **p):
        out.append(dict(name=name, fn=fn, params=p, weight=wt))
    H = ['named', 'default', 'clash', 'suffix']
    hard = ('gap',)
    divides = ('return', 'roc', 'pct', 'burst', 'vwap', 'vpin', 'gap')     # a zero input divides by zero
    zeroes = ('return', 'roc', 'pct', 'gap', 'vwap', 'bv', 'vpin')
    for k in KINDS:
        add(f'one-{k}', run, chains=[[k]], hows=[[]], n=n)
        for h in H:
            add(f'pair-{k}-{h}', run, 20, chains=[[k, s] for s in KINDS if not (s in hard and k not in ('lag', 'id')) and not (k in zeroes and s in divides)], hows=[[h]], n=3 if q else 4)
    for b in ('nb', 'pd'):
        add(f'basic-{b}', run, 10, chains=[['sma', 'ewma'], ['return', 'sma'], ['lag', 'roc']], hows=[['named'], ['default'], ['clash']], n=n, backend=b)
    TR = [['lag', 'sma', 'ewma'], ['return', 'lag', 'sma'], ['sma', 'sma', 'sma'], ['double', 'vwap', 'lag'], ['ewma', 'ext', 'lag'], ['id', 'roc', 'sma']]
    for k, t in enumerate(TR):
        add(f'triple-{k}', run, 20, chains=[t], hows=[[x, y] for x in H for y in H], n=n)
    if not q:
        for a in ('lag', 'sma', 'return', 'ext'):
            for b in ('sma', 'ewma', 'lag', 'vwap', 'double'):
                if a == 'return' and b == 'vwap':
                    continue
                add(f'all-{a}-{b}', run, 20, chains=[[a, b, s] for s in KINDS if s not in hard and not ('return' in (a, b) or b in zeroes) or s not in divides], hows=[['named', 'default'], ['clash', 'clash'], ['default', 'suffix']], n=4)
        add('four', run, 20, chains=[['lag', 'sma', 'ewma', 'lag'], ['double', 'ext', 'sma', 'roc']], hows=[[x, y, z] for x in H for y in H for z in H], n=4)
    for y in ('y', 'ret1', 'sma2', 'rv2'):
        add(f'column-{y}', run, 10, chains=[['return', 'sma'], ['sma', 'lag'], ['lag', 'sma', 'ewma']], hows=[[x, z] for x in H for z in ('default', 'named')], n=n, extra=[y])
    add('missing', run, 10, chains=[['sma', 'ewma'], ['lag', 'sma'], ['return', 'lag'], ['ewma', 'roc']], hows=[['named'], ['default']], n=4, nans={'p': (1,)})
    for part in (1, 2, 3):
        add(f'reuse-{part}', reuse, n=n, part=part)
    add('refused', refused, n=2)
    return out
