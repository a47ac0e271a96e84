"""C32: calendar cues."""
import math
import numpy as np
from finmlkit.feature.core import time as ftime
from . import wiring

BOUNDS = 'any int64 timestamp from 1970 to 2096, 1..2 samples'
ASSUMPTIONS = ['sine and cosine are uninterpreted functions of the phase; only the phase is decided']
NS = 10 ** 9


def run(c, n):
    ts = c.iarr('ts', n, 0, 4 * 10 ** 18)
    r = c.call(ftime.time_cues, ts.a)
    c.prove(len(r) == 9 and all(len(a) == n for a in r), 'nine cues per sample')
    r = [c.xs(a) for a in r]
    two_pi = c.x(2 * math.pi)
    for i in range(n):
        t = ts.v[i]
        sec = (t // NS) % 86400
        day = ((t // NS) // 86400 + 3) % 7
        ph = two_pi * (c.x(sec) / c.x(86400.0))
        pw = two_pi * (c.x(day) / c.x(7.0))
        c.eq(r[0][i], c.uf('sin', ph), 'sine of the time of day', obs=False)
        c.eq(r[1][i], c.uf('cos', ph), 'cosine of the time of day', obs=False)
        c.eq(r[2][i], c.uf('sin', pw), 'sine of the day of the week, Monday first', obs=False)
        c.eq(r[3][i], c.uf('cos', pw), 'cosine of the day of the week, Monday first', obs=False)
        c.eq(r[4][i], sec < 8 * 3600, 'Asian session is 00:00 to 08:00')
        c.eq(r[5][i], c.And(sec >= 7 * 3600, sec < 15 * 3600), 'European session is 07:00 to 15:00')
        c.eq(r[6][i], c.And(sec >= 13 * 3600, sec < 21 * 3600), 'US session is 13:00 to 21:00')
        c.eq(r[7][i], c.Or(sec < 60, c.And(sec >= 7 * 3600, sec < 7 * 3600 + 60), c.And(sec >= 13 * 3600, sec < 13 * 3600 + 60)),
             'session opening minute')
        c.eq(r[8][i], sec % 3600 < 60, 'first minute of the hour')


def cases(tier):
    return [dict(name=f'n{n}', fn=run, params=dict(n=n), weight=n) for n in ((1, 2) if tier == 'quick' else (1, 2, 3))] + wiring.cases('C32', tier)
