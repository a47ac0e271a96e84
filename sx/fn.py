"""Transcendental functions on symbolic values.

log of a price with a logarithm variable is exact (linear in the log variables);
every other log/exp/sin/... is an uninterpreted function with the axioms listed here, so a
proof holds for any function satisfying them.
"""
import math
from fractions import Fraction

import numpy as np
import z3

from . import core
from .core import Sym, SymB, lift, mkb

_R = z3.RealSort()
_UF = {}

LN2 = Fraction(math.log(2.0))


def _uf(name):
    if name not in _UF:
        _UF[name] = z3.Function('uf_' + name, _R, _R)
    return _UF[name]


def _num(a):
    """concrete numbers -> float or Fraction"""
    return a


def log(a):
    if isinstance(a, (int, float, np.floating, np.integer)) and not isinstance(a, bool):
        f = float(a)
        if f != f or f < 0:
            return math.nan
        if f == 0:
            return -math.inf
        if f == math.inf:
            return math.inf
        return Sym('r', Fraction(math.log(f))) if f != 1 else Sym('r', Fraction(0))
    a = lift(a)
    if isinstance(a, float):
        return log(a) if a == a else a
    c = core.CTX
    if a.const:
        if a.n <= 0:
            return -math.inf if a.n == 0 else math.nan
        if a.n == 1:
            return Sym('r', Fraction(0))
        return Sym('r', Fraction(math.log(a.n)))
    if a.mono is not None:
        r = Sym('r', Fraction(0))
        for i, k in sorted(a.mono.items()):
            r = r + Sym('r', c.logvar[i]) * k
        return r
    if bool(a <= 0):
        return -math.inf if bool(a == 0) else math.nan
    n, d = z3.simplify(a.rn(), som=True), (None if a.d is None else z3.simplify(a.d, som=True))
    key = ('log', n.get_id(), None if d is None else d.get_id())
    if key in c.memo:
        return c.memo[key][0]
    v = c.fresh_real('log')
    s = Sym('r', v)
    one = Sym('r', Fraction(1))
    ax = [(compare(a, one, '>'), v > 0), (compare(a, one, '<'), v < 0), (compare(a, one, '=='), v == 0)]
    for l, r in ax:
        c.add(core.bterm(l) == r)
    for (b, w) in c.logs:
        for op, rel in (('<', v < w), ('==', v == w)):
            c.add(core.bterm(compare(a, b, op)) == rel)
    c.logs.append((a, v))
    c.memo[key] = (s, n, d)
    return s


def compare(a, b, op):
    return core.compare(a, b, op)


def log10(a):
    a = lift(a)
    if isinstance(a, float):
        return float(np.log10(a))
    if a.const:
        return Log10(a)
    return Log10(a)


class Log10:
    """log10 of a value, kept lazy: only floor/ceil and comparison with integers are exact."""
    def __init__(self, a):
        self.a = a

    def __neg__(self):
        return NegLog10(self)

    def floor(self):
        # 10^k <= a < 10^(k+1)
        if bool(self.a <= 0):
            raise ValueError("log10 of a non-positive value")
        for k in range(-14, 14):
            if bool(self.a < Fraction(10) ** (k + 1)):
                return Sym('r', Fraction(k))
        raise core.SymEscape("log10 range")
    __floor__ = floor

    def ceil(self):
        for k in range(-14, 14):
            if bool(self.a <= Fraction(10) ** k):
                return Sym('r', Fraction(k))
        raise core.SymEscape("log10 range")


class NegLog10:
    def __init__(self, l):
        self.l = l

    def floor(self):
        return -self.l.ceil()

    def ceil(self):
        return -self.l.floor()


def exp(a):
    a = lift(a)
    if isinstance(a, float):
        return math.exp(a)
    if a.const:
        if a.n == 0:
            return Sym('r', Fraction(1))
        return Sym('r', Fraction(math.exp(a.n)))
    c = core.CTX
    f = _uf('exp')
    t = f(z3.simplify(a.term(), som=True))
    v = Sym('r', t)
    key = ('exp', t.get_id())
    if key not in c.memo:
        c.memo[key] = t
        c.add(t > 0)
        c.add(core.bterm(a < 0) == (t < 1))
        c.add(core.bterm(a == 0) == (t == 1))
        c.signs[z3.simplify(t).get_id()] = 1
        c.memo[('k2', t.get_id())] = z3.simplify(t)
    return v


def sqrt(a):
    a = lift(a)
    if isinstance(a, float):
        return math.nan if (a != a or a < 0) else a
    c = core.CTX
    if a.const:
        if a.n < 0:
            return math.nan
        n, d = a.n.numerator if isinstance(a.n, Fraction) else a.n, a.n.denominator if isinstance(a.n, Fraction) else 1
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return Sym('r', Fraction(rn, rd))
        return Sym('r', Fraction(math.sqrt(a.n)))        # the float64 constant
    elif bool(a < 0):
        return math.nan
    n = z3.simplify(a.rn(), som=True)
    d = None if a.d is None else z3.simplify(a.d, som=True)
    key = ('sqrt', n.get_id(), None if d is None else d.get_id())
    if key in c.memo:
        return c.memo[key][0]
    v = c.fresh_real('sqrt')
    c.add(v >= 0)
    c.define(v * v == n if d is None else v * v * d == n)
    s = Sym('r', v)
    c.memo[key] = (s, n, d)
    return s


def uf(name, a):
    a = lift(a)
    if isinstance(a, float):
        return math.nan
    if a.const:
        return Sym('r', Fraction(getattr(np, name)(float(a.n))))
    return Sym('r', _uf(name)(z3.simplify(a.term(), som=True)))
