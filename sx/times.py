"""Symbolic points in time: what pandas.Timestamp / Timedelta are to nanosecond integers."""
import numpy as np
import pandas as pd
import z3

from . import core
from .core import Sym, SymB, SymEscape, lift

TOKENS = {}
_MONTHS = [(y, m, pd.Timestamp(y, m, 1).value) for y in range(2023, 2026) for m in range(1, 13)]


def ns_of(o):
    if isinstance(o, SymTS):
        return o.value
    if isinstance(o, pd.Timestamp):
        return Sym('i', int(o.as_unit('ns').value))
    if isinstance(o, np.datetime64):
        return Sym('i', int(o.astype('datetime64[ns]').astype(np.int64)))
    return None


def td_of(o):
    if isinstance(o, SymTD):
        return o.value
    if isinstance(o, (pd.Timedelta, np.timedelta64)) or type(o).__name__ == 'timedelta':
        return Sym('i', int(pd.Timedelta(o).as_unit('ns').value))
    return None


def _cmps(cls, of):
    def mk(op):
        def f(self, o):
            v = of(o)
            if v is None:
                return NotImplemented if op not in ('==', '!=') else op == '!='
            return core.compare(self.value, v, op)
        return f
    for n, op in dict(lt='<', le='<=', gt='>', ge='>=', eq='==', ne='!=').items():
        setattr(cls, f'__{n}__', mk(op))
    cls.__hash__ = lambda self: 0


class SymTS:
    tz = None

    def __init__(self, ns):
        self.value = ns

    def __sub__(self, o):
        v = ns_of(o)
        if v is not None:
            return SymTD(self.value - v)
        v = td_of(o)
        return SymTS(self.value - v) if v is not None else NotImplemented

    def __rsub__(self, o):
        v = ns_of(o)
        return SymTD(v - self.value) if v is not None else NotImplemented

    def __add__(self, o):
        v = td_of(o)
        return SymTS(self.value + v) if v is not None else NotImplemented
    __radd__ = __add__

    def _month(self):
        c = core.ctx()
        k = c.fresh_int('month', 0, len(_MONTHS) - 2)
        t = self.value.it()
        if bool(core.mkb(z3.Or(t < _MONTHS[0][2], t >= _MONTHS[-1][2]))):
            raise SymEscape('calendar month of a time outside the table')
        c.define(z3.Or(*[z3.And(k == j, t >= a[2], t < b[2]) for j, (a, b) in enumerate(zip(_MONTHS, _MONTHS[1:]))]))
        return _MONTHS[c.concretize(k)]

    @property
    def year(self): return self._month()[0]
    @property
    def month(self): return self._month()[1]

    def floor(self, f):
        w = pd.Timedelta(1, f) if isinstance(f, str) and f.isalpha() else pd.Timedelta(f)
        w = int(w.value)
        return SymTS(self.value // w * w)

    def normalize(self): return self.floor('D')

    def as_unit(self, u): return self
    def to_pydatetime(self, *a): raise SymEscape('datetime of a symbolic time')

    def __str__(self):
        k = f'@ts{len(TOKENS)}@'
        TOKENS[k] = self
        return k
    def __format__(self, spec): return str(self)
    def isoformat(self, *a): return str(self)
    def __repr__(self): return '<time>'


class SymTD:
    def __init__(self, ns):
        self.value = ns

    def __sub__(self, o):
        v = td_of(o)
        return SymTD(self.value - v) if v is not None else NotImplemented

    def __add__(self, o):
        v = td_of(o)
        if v is not None:
            return SymTD(self.value + v)
        v = ns_of(o)
        return SymTS(self.value + v) if v is not None else NotImplemented
    __radd__ = __add__

    def __truediv__(self, o):
        v = td_of(o)
        return self.value / (v if v is not None else o)

    def total_seconds(self): return self.value.real() / 10 ** 9
    def as_unit(self, u): return self

    def __str__(self):
        k = f'@td{len(TOKENS)}@'
        TOKENS[k] = self
        return k
    def __format__(self, spec): return str(self)
    def __repr__(self): return '<timedelta>'


_cmps(SymTS, ns_of)
_cmps(SymTD, td_of)
FACTOR = {'ns': 1, 'us': 10 ** 3, 'ms': 10 ** 6, 's': 10 ** 9, 'm': 60 * 10 ** 9, 'h': 3600 * 10 ** 9, 'D': 86400 * 10 ** 9}


def _one(x, u):
    if isinstance(x, (SymTS, pd.Timestamp)) or x is pd.NaT:
        return x
    if isinstance(x, Sym):
        if u not in FACTOR:
            raise SymEscape(f'time unit {u}')
        if x.k == 'r':
            if u != 'ns':
                raise SymEscape('time from a symbolic float')
            x = core.trunc(x)
        return SymTS(x * FACTOR[u])
    return _TO(x, unit=u)


_TO = pd.to_datetime


def has_sym(a):
    return isinstance(a, np.ndarray) and a.dtype == object and any(isinstance(e, (Sym, SymTS)) for e in a.ravel())


def to_datetime(arg, *a, **k):
    from .arr import SArr, to_plain
    u = k.get('unit') or (a[4] if len(a) > 4 else None) or 'ns'
    if isinstance(arg, (Sym, SymTS)):
        return _one(arg, u)
    raw = None
    if isinstance(arg, SArr):
        raw = to_plain(arg)
    elif isinstance(arg, (pd.Series, pd.Index)) and arg.dtype == object:
        raw = np.array(list(arg), dtype=object)
    elif isinstance(arg, list):
        raw = np.empty(len(arg), dtype=object)
        raw[:] = arg
    if raw is not None and has_sym(raw):
        r = np.empty(len(raw), dtype=object)
        for i, e in enumerate(raw):
            r[i] = _one(e, u)
        if isinstance(arg, pd.Series):
            return pd.Series(r, index=arg.index, name=arg.name, dtype=object)
        return pd.Index(r, dtype=object, name=getattr(arg, 'name', None))
    if isinstance(arg, SArr):
        arg = raw
    return _TO(arg, *a, **k)


def install():
    pd.to_datetime = to_datetime
