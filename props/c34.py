"""C34: feature algebra."""
import pandas as pd
from . import features as F
from .features import LEAF, UN, BIN, DAYS, Feature

BOUNDS = ('tables of 4 rows (quick) / 5 (thorough); every operator over every operator over a base feature, every binary operator over every '
          'pair of (operator over) base features, a list of expressions nested up to five deep; every pattern of missing inputs at fixed places')
ASSUMPTIONS = ['divisors are nonzero except where division by zero is the case', 'exponential and logarithm are any strictly increasing functions inverse in sign',
               "pandas' compiled rolling, exponential and clipping methods are replaced by their definition on symbolic columns"]
SEC = ['close', 'a', 'return', 'sma', 'lagged', ('-c', 'close'), ('lag', 'close'), ('abs()', 'a'), ('rolling_sum', 'a'), ('clip both', 'a'), ('+', 'a', 'close'), ('min', 'a', 'close')]
DEEP = [
    ('-c', ('/', 'close', ('lag', 'close'))),
    ('/', ('-', 'close', ('rolling_mean', 'close')), ('max c', ('rolling_std', 'close'))),
    ('max c', ('min c', ('-c', ('/', 'close', ('lag 2', 'close'))))),
    ('clip both', ('-', ('ema', 'close'), ('ema recursive', 'close'))),
    ('/c', ('+', ('c max', 'a'), ('clip low', ('return')))),
    ('-', ('*', ('-', 'a', 'close'), ('c-', 'a')), ('square', 'a')),
    ('rolling_sum', ('*', 'a', 'close')),
    ('lag', ('rolling_mean', ('lag', ('abs()', 'a')))),
    ('c/', ('+c', ('square', ('-', 'a', ('lag', 'a'))))),
    ('min', ('max', 'a', ('lag', 'a')), ('max', 'close', ('c-', 'close'))),
    ('-', ('-', 'a', ('-', 'close', 'a')), ('-', 'close', ('-', 'a', 'close'))),
    ('/', ('/', 'a', 'close'), ('/', 'close', ('+c', 'close'))),
    ('sqrt', ('c-', ('abs()', ('*c', 'a')))),
    ('log', ('+c', ('.abs', ('-', 'close', 'a')))),
    ('apply', ('apply same', ('-', 'a', ('apply kw', 'close')))),
]


def run(c, exprs, n, nans=None, backend='nb'):
    e = exprs[c.choice('e', len(exprs))]
    df, v = F.frame(c, n, nans=nans)
    want = F.value(c, e, v)
    c.feasible()
    f = c.call(F.build, e)
    c.prove(isinstance(f, F.Feature), 'combining features gives a feature')
    nm = f.name
    r = c.call(f, df, backend=backend)
    c.prove(isinstance(r, pd.Series) and r.index.equals(DAYS[:n]), 'one value per row of the input')
    c.eqs(r, want, 'the operation on the underlying values', obs=not any(k in str(e) for k in ('log', 'exp', 'sqrt', 'std')))
    c.prove(f.name == nm == r.name, 'the result carries the name of the feature')
    F.untouched(c, df, v, n)
    F.untouched(c, df.copy(), v, n)


def zero(c, n):
    """division by zero gives what dividing the values gives"""
    df, v = F.frame(c, n, ('a', 'p'))
    r = c.xs(c.call(lambda: (Feature(F.tf.Identity('p')) / Feature(F.tf.Identity('a')))(df)))
    s = c.xs(c.call(lambda: (-2 / Feature(F.tf.Identity('a')))(df)))
    for i in range(n):
        if bool(v['a'][i] == 0):
            c.eq(r[i], float('inf'), 'a positive value over zero')
            c.eq(s[i], float('-inf'), 'a negative value over zero')
        else:
            c.eq(r[i], v['p'][i] / v['a'][i], 'quotient')
            c.eq(s[i], c.x(-2.0) / v['a'][i], 'quotient')


def wrong(c, n):
    """operands that are neither features nor numbers are refused"""
    f = Feature(F.tf.Identity('a'))
    for o in ('x', None, [1]):
        for g in (lambda: f + o, lambda: f - o, lambda: f * o, lambda: f / o, lambda: o + f, lambda: o - f, lambda: o * f, lambda: o / f):
            c.prove(isinstance(c.call(g, raises=(TypeError,)), TypeError), 'an operand that is not a number or feature is refused')


def cases(tier):
    q = tier == 'quick'
    n = 4 if q else 5
    out = []

    def add(name, fn, wt=5, **p):
        out.append(dict(name=name, fn=fn, params=p, weight=wt))
    hard = ('exp', 'log', 'log1p', 'sqrt', 'rolling_std')

    def ok(o, i):
        return not (o in hard and i in hard) and not (o in hard and i in ('c/', 'ema', 'ema recursive'))
    for o in UN:
        add(f'base-{o}', run, 4, exprs=[(o, l) for l in LEAF], n=n)
        for l in ('a', 'close', 'return'):
            add(f'nested-{o}-{l}', run, 20, exprs=[(o, (i, l)) for i in UN if ok(o, i)], n=n)
        add(f'missing-{o}', run, 4, exprs=[(o, 'a'), (o, ('lag', 'a')), (o, 'sma')] + ([(o, ('+', 'a', 'close'))] if o not in hard else []), n=4, nans={'a': (1,), 'p': (2,)})
    for o in BIN:
        for k, l in enumerate(SEC):
            add(f'pair-{o}-{k}', run, 8, exprs=[(o, l, r) for r in SEC], n=n)
        add(f'missing-{o}', run, 4, exprs=[(o, 'a', 'close'), (o, 'close', ('lag', 'a')), (o, 'sma', 'return')], n=4, nans={'a': (1,), 'p': (2,)})
    for k, e in enumerate(DEEP):
        add(f'deep-{k}', run, 8, exprs=[e], n=n)
        if not q or k < 6:
            add(f'deep-pd-{k}', run, 8, exprs=[e], n=n, backend='pd')
    add('base-pd', run, 4, exprs=list(LEAF), n=n, backend='pd')
    add('base', run, 4, exprs=list(LEAF), n=n)
    add('zero', zero, n=3)
    add('wrong', wrong, n=1)
    return out
