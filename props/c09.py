"""C09: tick size inference."""
import numpy as np
import math
from fractions import Fraction
from finmlkit.bar import utils

BOUNDS = ('2..4 prices (quick) / 2..5 (thorough) that are integer multiples (1..40 (60) ticks apart) of a tick 10^-k*{1,2,5,25} between 2e-10 and 10; '
          '1500 (9998) prices of which the last is symbolic; the inferred tick must be the greatest common step of the observed prices')
ASSUMPTIONS = ['rounding to 12 decimals leaves prices that lie on a decimal grid unchanged']


def run(c, n, tick, span, lead=0):
    if c.sym:
        c.round_identity = 12
    T = Fraction(tick).limit_denominator(10 ** 12)
    k = c.iarr('k', n, 0, span)
    base = c.x(1000) if lead and c.sym else 1000 if lead else c.i('base', 1, 2000)
    ks = [4 * (i % 2) for i in range(lead)] + [c.concretize(x.it()) if c.sym else int(x) for x in k.v]
    if c.sym:
        from sx.arr import SArr
        pa = SArr([(base + x) * T for x in ks], np.float64)
    else:
        pa = np.array([(base + x) * tick for x in ks])
    got = c.call(utils.comp_price_tick_size, pa)
    ds = [x - min(ks) for x in ks]
    g = 0
    for d in ds:
        g = math.gcd(g, d)
    if g == 0:
        c.eq(got, 0, 'a single price level has no tick')
    else:
        c.eq(got, T * g, 'inferred tick is the greatest common step', 1e-9)


def cases(tier):
    out = []
    for t in (1.0, 0.5, 0.25, 0.1, 0.05, 0.01, 0.001, 0.0001, 5.0, 10.0, 1e-8, 2e-10):
        out.append(dict(name=f'tick{t}-n2', fn=run, params=dict(n=2, tick=t, span=12 if tier == 'quick' else 25)))
        out.append(dict(name=f'tick{t}-n3', fn=run, params=dict(n=3, tick=t, span=5 if tier == 'quick' else 12), weight=5))
    out.append(dict(name='long', fn=run, params=dict(n=1, tick=0.01, span=5, lead=1500 if tier == 'quick' else 9998)))
    return out
