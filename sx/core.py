"""Symbolic values and the path-forking context.

The repository's own Python functions (numba disabled) are executed on the values defined
here.  Every number is an exact integer or an exact rational function  n/d  (d > 0 on the
path) over solver variables; every branch on a symbolic condition forks the path; every
obligation is decided by z3 for all values on the path.
"""
import math
import numbers
import os
import sys
import time
from fractions import Fraction

import numpy as np
import z3

z3.set_param('memory_max_size', 3000)


class SymEscape(Exception):
    """The code left the fragment this engine can encode."""


class PathDone(Exception):
    """Path cut by an assumption that cannot hold (not an error)."""


class MissingInput(PathDone):
    """a concrete run asked for an input the solver's path never declared"""


class UninitRead(Exception):
    """The code consumed an array cell that was never written."""


CTX = None


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


# ----------------------------------------------------------------------------------------
def _z(x):
    """python int / Fraction -> z3 Real numeral"""
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    return z3.Q(x.numerator, x.denominator)


def is_const(x):
    return isinstance(x, (int, Fraction))


def _norm_float(f):
    """concrete float -> Fraction, or None if nan/inf"""
    f = float(f)
    if f != f or f in (math.inf, -math.inf):
        return None
    return Fraction(f)


class Uninit:
    """An array cell allocated but never written."""
    __slots__ = ()

    def _bad(self, *a, **k):
        raise UninitRead("an uninitialised array cell was used")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __index__ = __int__ = __float__ = __abs__ = __neg__ = _bad
    __floordiv__ = __rfloordiv__ = __mod__ = __rmod__ = __pow__ = __iadd__ = _bad

    def __repr__(self):
        return '<uninit>'


UNINIT = Uninit()


# ----------------------------------------------------------------------------------------
class SymB:
    """Symbolic boolean."""
    __slots__ = ('t',)
    __array_priority__ = 2000

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return CTX.branch(self.t)

    def __invert__(self):
        return mkb(z3.Not(self.t))

    def _bt(self, o):
        if isinstance(o, SymB):
            return o.t
        if isinstance(o, (bool, np.bool_)):
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        t = self._bt(o)
        if t is None:
            return self._int() & o if False else NotImplemented
        return mkb(z3.And(self.t, t))
    __rand__ = __and__

    def __or__(self, o):
        t = self._bt(o)
        return NotImplemented if t is None else mkb(z3.Or(self.t, t))
    __ror__ = __or__

    def __xor__(self, o):
        t = self._bt(o)
        return NotImplemented if t is None else mkb(z3.Xor(self.t, t))
    __rxor__ = __xor__

    def _int(self):
        return Sym('i', z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        t = self._bt(o)
        if t is not None:
            return mkb(self.t == t)
        return self._int() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return (~r) if isinstance(r, SymB) else (not r)

    def __hash__(self):
        return 0

    def __add__(self, o): return self._int() + o
    def __radd__(self, o): return o + self._int()
    def __sub__(self, o): return self._int() - o
    def __rsub__(self, o): return o - self._int()
    def __mul__(self, o): return self._int() * o
    def __rmul__(self, o): return o * self._int()
    def __truediv__(self, o): return self._int() / o
    def __lt__(self, o): return self._int() < o
    def __le__(self, o): return self._int() <= o
    def __gt__(self, o): return self._int() > o
    def __ge__(self, o): return self._int() >= o
    def __neg__(self): return -self._int()
    def __abs__(self): return self._int()
    def __int__(self): return 1 if bool(self) else 0
    def __index__(self): return 1 if bool(self) else 0
    def __float__(self): return 1.0 if bool(self) else 0.0
    def __repr__(self): return '<symb>'
    def __format__(self, s): return '<symb>'


def mkb(t):
    """simplify to a python bool when constant"""
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymB(t)


def bterm(b):
    if isinstance(b, SymB):
        return b.t
    return z3.BoolVal(bool(b))


# ----------------------------------------------------------------------------------------
def lift(o):
    """any number -> Sym, or a float nan/inf, or None if not a number"""
    if isinstance(o, Sym):
        return o
    if isinstance(o, SymB):
        return o._int()
    if isinstance(o, (bool, np.bool_)):
        return Sym('i', int(o))
    if isinstance(o, (int, np.integer)):
        return Sym('i', int(o))
    if isinstance(o, Fraction):
        return Sym('r', o)
    if isinstance(o, (float, np.floating)):
        q = _norm_float(o)
        return float(o) if q is None else Sym('r', q)
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return lift(o.item())
    if isinstance(o, Uninit):
        raise UninitRead("an uninitialised array cell was used")
    return None


class Sym(numbers.Number):
    """Symbolic (or exact constant) number.

    k : 'i' integer, 'r' real (a float in the implementation, read as an exact real)
    n : int/Fraction, or z3 term (Int sort for 'i', Real sort for 'r')
    d : None, or z3 Real term known > 0 on this path   (value is n/d)
    mono : for prices created with a logarithm variable: {id: exponent}
    """
    __slots__ = ('k', 'n', 'd', 'mono')
    __array_priority__ = 2000

    def __init__(self, k, n, d=None, mono=None):
        self.k = k
        self.n = n
        self.d = d
        self.mono = mono

    # -- helpers
    @property
    def const(self):
        return self.d is None and is_const(self.n)

    def rn(self):
        """numerator as a z3 Real term"""
        n = self.n
        if is_const(n):
            return _z(n)
        if self.k == 'i':
            return z3.ToReal(n)
        return n

    def it(self):
        return z3.IntVal(self.n) if is_const(self.n) else self.n

    def term(self):
        """value as a z3 Real term (with division if needed)"""
        r = self.rn()
        return r if self.d is None else r / self.d

    def real(self):
        if self.k == 'r':
            return self
        if self.const:
            return Sym('r', Fraction(self.n))
        if CTX is not None and CTX.f64_ints:
            return f64_round_int(self)
        return Sym('r', z3.ToReal(self.n))

    # -- arithmetic
    def _bin(self, o, op, rev=False):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented if hasattr(o, 'ld') else _elementwise(self, o, op, rev)
        o = lift(o)
        if o is None:
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        if isinstance(a, float) or isinstance(b, float):
            return _special(a, b, op)
        return _ARITH[op](a, b)

    def __add__(self, o): return self._bin(o, '+')
    def __radd__(self, o): return self._bin(o, '+', True)
    def __sub__(self, o): return self._bin(o, '-')
    def __rsub__(self, o): return self._bin(o, '-', True)
    def __mul__(self, o): return self._bin(o, '*')
    def __rmul__(self, o): return self._bin(o, '*', True)
    def __truediv__(self, o): return self._bin(o, '/')
    def __rtruediv__(self, o): return self._bin(o, '/', True)
    def __floordiv__(self, o): return self._bin(o, '//')
    def __rfloordiv__(self, o): return self._bin(o, '//', True)
    def __mod__(self, o): return self._bin(o, '%')
    def __rmod__(self, o): return self._bin(o, '%', True)
    def __pow__(self, o): return self._bin(o, '**')
    def __rpow__(self, o): return self._bin(o, '**', True)

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        if is_const(self.n):
            return Sym(self.k, -self.n, self.d)
        return Sym(self.k, -self.n, self.d)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.const:
            return Sym(self.k, abs(self.n))
        s = CTX.known_sign(self)
        if s is not None:
            return self if s >= 0 else -self
        zero = z3.IntVal(0) if self.k == 'i' else z3.RealVal(0)
        return Sym(self.k, z3.If(self.n >= zero, self.n, -self.n), self.d)

    # -- comparisons
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return NotImplemented if hasattr(o, 'ld') else _elementwise(self, o, op, False)
        o = lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return _special_cmp(self, o, op)
        return compare(self, o, op)

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, '!=')
        return True if r is NotImplemented else r

    def __hash__(self):
        return 0

    def __bool__(self):
        r = self != 0
        return bool(r)

    # -- conversions
    def __index__(self):
        if self.k != 'i':
            if self.const and self.n.denominator == 1:
                raise TypeError("'float' object cannot be interpreted as an integer")
            raise TypeError("'float' object cannot be interpreted as an integer")
        if self.const:
            return int(self.n)
        return CTX.concretize(self.n)

    def __int__(self):
        if self.const:
            return int(self.n)          # truncation
        return CTX.concretize(trunc(self).it())

    def __float__(self):
        if self.const:
            return float(self.n)
        raise SymEscape("float() of a symbolic value reached compiled code")

    def __round__(self, nd=None):
        if nd is None:
            return sround(self)
        return sround_dec(self, nd)

    def __trunc__(self): return trunc(self)
    def __floor__(self): return floor_(self).toint()
    def __ceil__(self): return ceil_(self).toint()

    def toint(self):
        """real known to be integral -> integer Sym"""
        if self.k == 'i':
            return self
        return trunc(self)

    def item(self): return self
    def copy(self): return self
    def astype(self, dt):
        from . import arr
        return arr.cast(self, dt)

    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def real_(self): return self

    def is_integer(self):
        if self.k == 'i':
            return True
        if self.const:
            return self.n.denominator == 1
        return mkb(z3.IsInt(self.term()))

    def __repr__(self):
        if self.const:
            return f'<{self.k}:{self.n}>'
        return '<sym>'

    def __format__(self, s):
        return '<sym>'

    # numpy object-array unary ufunc hooks (np.log(obj_array) calls element.log())
    def log(self):
        from . import fn
        return fn.log(self)

    def log1p(self):
        from . import fn
        return fn.log(1 + self)

    def log10(self):
        from . import fn
        return fn.log10(self)

    def exp(self):
        from . import fn
        return fn.exp(self)

    def sqrt(self):
        from . import fn
        return fn.sqrt(self)

    def sign(self):
        return sign_(self)

    def floor(self): return floor_(self)
    def ceil(self): return ceil_(self)
    def rint(self): return sround(self).real()
    def isnan(self): return False
    def conjugate(self): return self

    def sin(self):
        from . import fn
        return fn.uf('sin', self)

    def cos(self):
        from . import fn
        return fn.uf('cos', self)

    def arctan(self):
        from . import fn
        return fn.uf('arctan', self)

    def degrees(self):
        return self * Fraction(180.0 / math.pi)


def _elementwise(a, arr_, op, rev):
    out = np.empty(arr_.shape, dtype=object)
    flat = out.ravel()
    old = CTX.div0
    CTX.div0 = 'numpy'
    try:
        for i, x in enumerate(arr_.ravel()):
            flat[i] = _pyop(op, x, a) if rev else _pyop(op, a, x)
    finally:
        CTX.div0 = old
    return flat.reshape(arr_.shape)


def _pyop(op, a, b):
    import operator as o
    return {'+': o.add, '-': o.sub, '*': o.mul, '/': o.truediv, '//': o.floordiv, '%': o.mod, '**': o.pow,
            '<': o.lt, '<=': o.le, '>': o.gt, '>=': o.ge, '==': o.eq, '!=': o.ne}[op](a, b)


def _special(a, b, op):
    """arithmetic where one side is nan or inf"""
    if (isinstance(a, float) and a != a) or (isinstance(b, float) and b != b):
        return math.nan
    if isinstance(a, float) and isinstance(b, float):
        if op == '/' and b == 0:
            return math.nan
        return float(_pyop(op, np.float64(a), np.float64(b)))
    if op == '+':
        return a if isinstance(a, float) else b
    if op == '-':
        return a if isinstance(a, float) else -b
    if op in ('*', '/'):
        if isinstance(b, float) and op == '/':
            return Sym('r', Fraction(0))
        inf, s = (a, b) if isinstance(a, float) else (b, a)
        if s > 0:
            return inf
        if s < 0:
            return -inf
        return math.nan if op == '*' else math.nan
    if op == '//' or op == '%':
        return math.nan
    if op == '**' and isinstance(a, float) and b.const:
        return float(np.float64(a) ** float(b.n))
    raise SymEscape(f"special-value arithmetic {op}")


def _special_cmp(a, f, op):
    if f != f:
        return op == '!='
    if f > 0:
        return op in ('<', '<=', '!=')
    return op in ('>', '>=', '!=')


class SymN(Sym):
    """an integer read from narrow storage (keeps the width while it sits in a pandas column)"""
    __slots__ = ('w',)

    def __init__(self, s, w):
        Sym.__init__(self, s.k, s.n, s.d, s.mono)
        self.w = w


def _factors(d):
    """(numeric coefficient > 0, other factors) of a denominator"""
    d = z3.simplify(d)
    todo = [d]
    c, out = Fraction(1), []
    while todo:
        t = todo.pop()
        if z3.is_mul(t):
            todo.extend(t.children())
        elif z3.is_rational_value(t):
            c *= t.as_fraction()
        else:
            out.append(t)
    if c < 0:
        return Fraction(1), [d]
    return c, out


def _prod(fs):
    if not fs:
        return None
    r = fs[0]
    for f in fs[1:]:
        r = r * f
    return r


def _combine(a, b):
    """common-denominator numerators (zn_a, zn_b, d)"""
    if a.d is None and b.d is None:
        return a.rn(), b.rn(), None
    if a.d is not None and b.d is not None:
        if a.d.eq(b.d):
            return a.rn(), b.rn(), a.d
        ca, fa = _factors(a.d)
        cb, fb = _factors(b.d)
        rest_a, rest_b = list(fa), []
        for f in fb:
            for g in rest_a:
                if g.eq(f):
                    rest_a.remove(g)
                    break
            else:
                rest_b.append(f)
        if len(rest_b) == len(fb):
            return a.rn() * b.d, b.rn() * a.d, a.d * b.d
        qa, qb = _prod(rest_a), _prod(rest_b)
        na = a.rn() * _z(1 / ca) if ca != 1 else a.rn()
        nb = b.rn() * _z(1 / cb) if cb != 1 else b.rn()
        d = _prod(fa + rest_b)
        return (na if qb is None else na * qb), (nb if qa is None else nb * qa), d
    if a.d is None:
        return a.rn() * b.d, b.rn(), b.d
    return a.rn(), b.rn() * a.d, a.d


def _mix(a, b):
    if a.k == 'r' and b.k == 'i':
        b = b.real()
    elif a.k == 'i' and b.k == 'r':
        a = a.real()
    return a, b


def _s(t):
    return t


def _add(a, b, sgn=1):
    a, b = _mix(a, b)
    k = a.k
    if a.const and b.const:
        return Sym(k, a.n + b.n if sgn > 0 else a.n - b.n)
    if b.const and b.n == 0:
        return Sym(a.k, a.n, a.d)
    if a.const and a.n == 0:
        return b if sgn > 0 else -b
    if k == 'i':
        r = Sym('i', z3.simplify(a.it() + b.it() if sgn > 0 else a.it() - b.it()))
        return _constify(r)
    x, y, d = _combine(a, b)
    r = Sym('r', x + y if sgn > 0 else x - y, d)
    return f64_fix(r)


def _constify(r):
    if z3.is_int_value(r.n):
        return Sym('i', r.n.as_long())
    return r


def f64_fix(r):
    return r if not (CTX is not None and CTX.f64_ints) else f64_round(r)


def _sub(a, b):
    return _add(a, b, -1)


def _mul(a, b):
    a, b = _mix(a, b)
    if a.const and b.const:
        return Sym(a.k, a.n * b.n)
    for x, y in ((a, b), (b, a)):
        if x.const:
            if x.n == 0:
                return Sym(x.k, x.n)
            if x.n == 1:
                return Sym(y.k, y.n, y.d, y.mono)
    if a.k == 'i':
        return Sym('i', a.it() * b.it())
    d = a.d if b.d is None else (b.d if a.d is None else a.d * b.d)
    mono = None
    if a.mono is not None and b.mono is not None:
        mono = _mono_mul(a.mono, b.mono, 1)
    return f64_fix(Sym('r', a.rn() * b.rn(), d, mono))


def _mono_mul(m1, m2, s):
    m = dict(m1)
    for i, c in m2.items():
        m[i] = m.get(i, 0) + s * c
        if m[i] == 0:
            del m[i]
    return m


def _div(a, b):
    if a.k == 'i':
        a = a.real()
    if b.k == 'i':
        b = b.real()
    if b.const:
        if b.n == 0:
            return _div_by_zero(a)
        if a.const:
            return Sym('r', Fraction(a.n) / Fraction(b.n))
        q = Fraction(1) / Fraction(b.n)
        if q == 1:
            return Sym('r', a.n, a.d, a.mono)
        if a.mono is not None:
            r = Sym('r', a.rn() * _z(q), a.d)
            return r
        return f64_fix(Sym('r', a.rn() * _z(q), a.d))
    # sign of b  (value = bn/bd with bd>0)
    s = CTX.known_sign(b)
    if s is None:
        if CTX.branch(b.rn() > 0):
            s = 1
        elif CTX.branch(b.rn() < 0):
            s = -1
        else:
            s = 0
        CTX.note_sign(b, s)
    if s == 0:
        return _div_by_zero(a)
    mono = None
    if a.mono is not None and b.mono is not None:
        mono = _mono_mul(a.mono, b.mono, -1)
        if not mono:
            return Sym('r', Fraction(1))
    bn = b.rn() if s > 0 else -b.rn()
    an = a.rn() if s > 0 else -a.rn()
    if a.const and a.n == 0:
        return Sym('r', Fraction(0))
    # (an/ad) / (bn/bd)
    if a.d is not None and b.d is not None and a.d.eq(b.d):
        n, d = an, bn
    else:
        n = an if b.d is None else an * b.d
        d = bn if a.d is None else bn * a.d
    n_, d_ = z3.simplify(n), z3.simplify(d)
    if n_.eq(d_):
        return Sym('r', Fraction(1))
    return f64_fix(Sym('r', n, d, mono))


def _div_by_zero(a):
    if CTX.div0 == 'raise':
        raise ZeroDivisionError("division by zero")
    if a > 0:
        return math.inf
    if a < 0:
        return -math.inf
    return math.nan


def _floordiv(a, b):
    a, b = _mix(a, b)
    if a.const and b.const:
        if b.n == 0:
            return _div_by_zero(a.real())
        return Sym(a.k, a.n // b.n) if a.k == 'i' else Sym('r', Fraction(a.n // b.n))
    if a.k == 'i':
        if b.const:
            if b.n == 0:
                return _div_by_zero(a.real())
            if b.n > 0:
                return Sym('i', a.it() / z3.IntVal(b.n))
            return Sym('i', (-a.it()) / z3.IntVal(-b.n))
        if bool(b > 0):
            return Sym('i', a.it() / b.it())
        if bool(b < 0):
            return Sym('i', (-a.it()) / (-b.it()))
        return _div_by_zero(a.real())
    if CTX.f64_ints:
        # floor((a - fmod(a,b)) / b): the true quotient's floor, fmod being exact
        with CTX.exact():
            q = floor_(_div(a, b))
        return f64_round(q)
    return floor_(_div(a, b))


def _mod(a, b):
    a, b = _mix(a, b)
    if a.const and b.const:
        if b.n == 0:
            return _div_by_zero(a.real())
        return Sym(a.k, a.n % b.n)
    if a.k == 'i' and b.const and b.n > 0:
        return Sym('i', a.it() % z3.IntVal(b.n))
    with CTX.exact():
        q = _floordiv(a, b)
        if isinstance(q, float):
            return q
        r = _sub(a, _mul(q, b))
    return r


def _pow(a, b):
    if b.const:
        e = b.n
        if e == int(e) and e >= 0:
            e = int(e)
            if a.const:
                return Sym(a.k if b.k == 'i' else 'r', a.n ** e)
            r = a if a.k == 'i' and b.k == 'i' else a.real()
            base = r
            if e == 0:
                return Sym(r.k, 1 if r.k == 'i' else Fraction(1))
            for _ in range(e - 1):
                r = _mul(r, base)
            return Sym(r.k, r.n, r.d)
        if e == int(e):
            return _div(Sym('r', Fraction(1)), _pow(a, Sym('i', int(-e))))
        if e == Fraction(1, 2):
            from . import fn
            return fn.sqrt(a)
    if a.const and b.const:
        return Sym('r', Fraction(float(a.n) ** float(b.n)))
    raise SymEscape("general power")


_ARITH = {'+': _add, '-': _sub, '*': _mul, '/': _div, '//': _floordiv, '%': _mod, '**': _pow}


def compare(a, b, op):
    if a.const and b.const:
        return _pyop(op, a.n, b.n)
    if CTX is not None and CTX.f64_ints and a.k != b.k:
        a, b = _mix(a, b)
    if a.k == 'i' and b.k == 'i':
        x, y = a.it(), b.it()
    elif a.k == 'i' and b.const and b.n.denominator == 1:
        x, y = a.it(), z3.IntVal(int(b.n))
    elif b.k == 'i' and a.const and a.n.denominator == 1:
        x, y = z3.IntVal(int(a.n)), b.it()
    else:
        x, y, _ = _combine(a, b)
    t = {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y,
         '==': lambda: x == y, '!=': lambda: x != y}[op]()
    return mkb(t)


def floor_(a):
    if isinstance(a, float):
        return a
    a = lift(a)
    if a.k == 'i':
        return a.real()
    if a.const:
        return Sym('r', Fraction(math.floor(a.n)))
    i = CTX.int_part(a)
    return Sym('r', z3.ToReal(i))


def ceil_(a):
    r = floor_(-lift(a)) if not isinstance(a, float) else a
    return -r if not isinstance(a, float) else a


def trunc(a):
    a = lift(a)
    if isinstance(a, float):
        raise ValueError("cannot convert float NaN to integer")
    if a.k == 'i':
        return a
    if a.const:
        return Sym('i', int(a.n))
    t = z3.simplify(a.rn())
    if a.d is None and z3.is_to_real(t):
        return Sym('i', t.arg(0))
    s = CTX.known_sign(a)
    if s is not None:
        if s >= 0:
            return Sym('i', CTX.int_part(a))
        return Sym('i', -CTX.int_part(-a))
    if CTX.branch(a.rn() >= 0):
        return Sym('i', CTX.int_part(a))
    return Sym('i', -CTX.int_part(-a))


def sround(a):
    """round half to even -> integer Sym"""
    a = lift(a)
    if isinstance(a, float):
        raise ValueError("cannot convert float NaN to integer")
    if a.k == 'i':
        return a
    if a.const:
        return Sym('i', round(a.n))
    t = z3.simplify(a.rn())
    if a.d is None and z3.is_to_real(t):
        return Sym('i', t.arg(0))
    h = a + Fraction(1, 2)
    i = CTX.int_part(h)
    x, y, _ = _combine(h, Sym('i', i))
    tie = x == y
    odd = i % 2 == 1
    return Sym('i', z3.If(z3.And(tie, odd), i - 1, i))


def sround_dec(a, nd):
    """np.round(x, decimals)"""
    a = lift(a)
    if isinstance(a, float):
        return a
    nd = int(nd)
    if a.k == 'i' and nd >= 0:
        return a
    if CTX.round_identity is not None and nd >= CTX.round_identity:
        return a
    sc = Fraction(10) ** nd
    return sround(a.real() * sc).real() / sc


def sign_(a):
    if isinstance(a, float):
        return a if a != a else math.copysign(1.0, a)
    a = lift(a)
    if a.const:
        v = (a.n > 0) - (a.n < 0)
        return Sym(a.k, v if a.k == 'i' else Fraction(v))
    s = CTX.known_sign(a)
    if s is not None:
        return Sym(a.k, s if a.k == 'i' else Fraction(s))
    if a.k == 'i':
        return Sym('i', z3.If(a.n > 0, z3.IntVal(1), z3.If(a.n < 0, z3.IntVal(-1), z3.IntVal(0))))
    n = a.rn()
    return Sym('r', z3.If(n > 0, z3.RealVal(1), z3.If(n < 0, z3.RealVal(-1), z3.RealVal(0))))


def ite(c, a, b):
    """if-then-else on values, merging where possible"""
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    la, lb = lift(a), lift(b)
    if isinstance(la, float) or isinstance(lb, float) or la is None or lb is None:
        if isinstance(a, (SymB, bool)) and isinstance(b, (SymB, bool)):
            return mkb(z3.If(c.t, bterm(a), bterm(b)))
        return a if bool(c) else b
    if isinstance(a, (SymB, bool, np.bool_)) and isinstance(b, (SymB, bool, np.bool_)):
        return mkb(z3.If(c.t, bterm(a), bterm(b)))
    if la.const and lb.const and la.n == lb.n and la.k == lb.k:
        return la
    la, lb = _mix(la, lb)
    if la.k == 'i':
        return Sym('i', z3.If(c.t, la.it(), lb.it()))
    if la.d is None and lb.d is None:
        if la.rn().eq(lb.rn()):
            return la
        return Sym('r', z3.If(c.t, la.rn(), lb.rn()))
    x, y, d = _combine(la, lb)
    return Sym('r', z3.If(c.t, x, y), d)


def smax(a, b):
    """python's max(a, b) on two values: b if b > a else a"""
    if _isnanv(a) or _isnanv(b):
        return a
    return ite(_gt(b, a), b, a)


def smin(a, b):
    if _isnanv(a) or _isnanv(b):
        return a
    return ite(_gt(a, b), b, a)


def _gt(a, b):
    return a > b


def _isnanv(x):
    return isinstance(x, (float, np.floating)) and x != x


# -- float64 rounding of large integers ---------------------------------------------------
def f64_round_int(s):
    """int64 -> float64 conversion of a possibly huge integer, round-to-nearest-even."""
    t = s.it()
    if CTX._check(z3.Or(t > 2 ** 53, t < -2 ** 53)) == z3.unsat:
        return Sym('r', z3.ToReal(t))
    return _rne(Sym('r', z3.ToReal(s.n)))


def f64_round(s):
    """result rounding of a float operation in the f64 mode (only used where CTX.f64_ints).
    'big': only results of 2^53 and more are rounded, smaller ones stay exact reals"""
    if CTX.f64_ints == 'big':
        if s.const:
            return s if abs(s.n) < 2 ** 53 else _rne(s)
        if s.d is not None or s.mono is not None:
            return s
        t = s.term()
        if CTX._check(z3.Or(t >= 2 ** 53, t <= -2 ** 53)) == z3.unsat:
            return s
        with CTX.exact():
            if not bool(mkb(z3.Or(t >= 2 ** 53, t <= -2 ** 53))):
                return s
    return _rne(s)


def _rne(s):
    if s.const:
        return Sym('r', Fraction(float(s.n)))
    with CTX.exact():
        # determine the binade (forks), then round to its grid
        a = abs(s)
        if bool(a == 0):
            return Sym('r', Fraction(0))
        lo = CTX.binade(a)
        if lo is None:
            return s
        ulp = Fraction(2) ** (lo - 52)
        t = s * (1 / ulp)
        return sround(t).real() * ulp


# ----------------------------------------------------------------------------------------
class Ctx:
    """One exploration of one harness."""

    def __init__(self, name, max_paths=100000, time_limit=600.0, branch_timeout=3000, check_timeout=20000, seed=1):
        self.name = name
        self.max_paths = max_paths
        self.deadline = time.time() + time_limit
        self.branch_timeout = branch_timeout
        self.check_timeout = check_timeout
        self.seed = seed
        self.mode = 'sym'
        self.div0 = 'raise'
        self.f64_ints = False
        self.round_identity = None
        self.violations = []
        self.unknowns = []
        self.reached = {}
        self.stats = dict(paths=0, cut=0, branches=0, forks=0, queries=0, solver_s=0.0, proved=0, trivial=0,
                          unknown=0, concretizations=0)
        self.complete = True
        self.encode_error = None
        self.samples = []
        self.pend = [[]]
        self.base_axioms = []
        self.label_viol = {}
        self.label_nice = {}
        self.max_viol = 4
        self.expected_exc = ()

    # -- exploration
    def explore(self, fn):
        global CTX
        CTX = self
        try:
            while self.pend:
                if time.time() > self.deadline or self.stats['paths'] >= self.max_paths:
                    self.complete = False
                    break
                prefix = self.pend.pop()
                self._start(prefix)
                try:
                    fn(self)
                    self.stats['paths'] += 1
                    self._end_path()
                except PathDone:
                    self.stats['cut'] += 1
                if len(self.violations) >= self.max_viol:
                    self.complete = False
                    break
        finally:
            CTX = None

    def _start(self, prefix):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.branch_timeout)
        self.pc = []
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.names = {}
        self.inputs = []      # (name, kind, term(s)) for replay
        self.model = None
        self.fresh = 0
        self.signs = {}
        self.memo = {}
        self.logs = []
        self.obs_list = []
        self.div0 = 'raise'
        self.f64_ints = False
        self.logvar = {}
        self.logged = set()
        self.check_int64 = False
        self.lazy_defs = False   # keep non-linear definitions out of the path solver (over-approximates feasibility)
        self.relaxed = False
        self.round_identity = None
        self.nice_extra = []
        self.prefs = []          # conditions a replayed counterexample should meet if possible

    def _end_path(self):
        """keep a model of some paths for validation against the implementation"""
        if self.obs_list and len(self.samples) < self.max_samples():
            vals = self.solve_inputs([], quick=True)
            if vals is not None:
                inp, m = vals
                obs = []
                for nm, v in self.obs_list:
                    obs.append((nm, self.eval_value(v, m)))
                self.samples.append({'inputs': inp, 'obs': obs})

    def max_samples(self):
        return 4

    def exact(self):
        return _Exact(self)

    # -- solver plumbing
    def _check(self, *extra):
        t0 = time.time()
        r = self.solver.check(*extra)
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t0
        if time.time() > self.deadline + 60:
            raise SymEscape("time limit exceeded inside a path")
        return r

    def add(self, t):
        """assume t (z3 term) on this path, no feasibility check"""
        if z3.is_true(t):
            return
        self.pc.append(t)
        self.solver.add(t)
        if self.model is not None and not self._model_says(t):
            self.model = None

    def define(self, t):
        """add the definition of an auxiliary value"""
        if not self.lazy_defs:
            return self.add(t)
        self.pc.append(t)
        self.relaxed = True

    def _model_says(self, t):
        try:
            return z3.is_true(self.model.eval(t, model_completion=True))
        except z3.Z3Exception:
            return False

    def assume(self, c):
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise PathDone()
            return
        self.add(c.t)

    def prefer(self, c):
        if isinstance(c, SymB):
            self.prefs.append(c.t)

    def feasible(self):
        r = self._check()
        if r == z3.unsat:
            raise PathDone()

    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        self.stats['branches'] += 1
        if self.pos < len(self.prefix):
            kind, v = self.prefix[self.pos]
            if kind != 'b':
                raise SymEscape("replay of the path diverged")
            self.pos += 1
            self.trace.append((kind, v))
            self.add(t if v else z3.Not(t))
            return v
        if time.time() > self.deadline:
            self.complete = False
            raise PathDone()
        nt = z3.Not(t)
        can_t = can_f = None
        if self.model is not None:
            v = self.model.eval(t, model_completion=True)
            if z3.is_true(v):
                can_t = True
            elif z3.is_false(v):
                can_f = True
        mt = mf = None
        if can_t is None:
            r = self._check(t)
            can_t = r != z3.unsat
            if r == z3.sat:
                mt = self.solver.model()
        else:
            mt = self.model
        if can_f is None:
            if not can_t:
                can_f = True
            else:
                r = self._check(nt)
                can_f = r != z3.unsat
                if r == z3.sat:
                    mf = self.solver.model()
        else:
            mf = self.model
        if can_t and can_f:
            self.stats['forks'] += 1
            self.pend.append(self.trace + [('b', False)])
            self.trace.append(('b', True))
            self.pos += 1
            self.prefix = self.trace
            self.add(t)
            self.model = mt
            return True
        v = bool(can_t)
        # forced: remember so that re-execution does not query again
        self.trace.append(('b', v))
        self.pos += 1
        self.prefix = self.trace
        self.pc.append(t if v else nt)
        self.solver.add(t if v else nt)
        self.model = mt if v else mf
        return v

    def concretize(self, it, limit=400):
        it = z3.simplify(it)
        if z3.is_int_value(it):
            return it.as_long()
        self.stats['concretizations'] += 1
        if self.pos < len(self.prefix):
            kind, v = self.prefix[self.pos]
            if kind != 'c':
                raise SymEscape("replay of the path diverged")
            self.pos += 1
            self.trace.append((kind, v))
            self.add(it == v)
            return v
        vals = []
        self.solver.push()
        try:
            while True:
                r = self._check()
                if r == z3.unknown:
                    raise SymEscape("solver gave up while enumerating an index")
                if r == z3.unsat:
                    break
                v = self.solver.model().eval(it, model_completion=True).as_long()
                vals.append(v)
                if len(vals) > limit:
                    raise SymEscape("an index has too many feasible values")
                self.solver.add(it != v)
        finally:
            self.solver.pop()
        if not vals:
            raise PathDone()
        vals.sort()
        if len(vals) > 1:
            self.stats['forks'] += len(vals) - 1
        for v in reversed(vals[1:]):
            self.pend.append(self.trace + [('c', v)])
        v = vals[0]
        self.trace.append(('c', v))
        self.pos += 1
        self.prefix = self.trace
        self.add(it == v)
        return v

    def choose(self, n):
        """nondeterministic choice 0..n-1 explored by forking"""
        v = self.fresh_int('choice', 0, n - 1)
        return self.concretize(v)

    # -- facts
    def known_sign(self, s):
        """sign of the value if cheaply known on this path (+1 means > 0)"""
        if s.const:
            return (s.n > 0) - (s.n < 0)
        if s.mono is not None:
            return 1
        return self.signs.get(self._skey(s))

    def _skey(self, s):
        return z3.simplify(s.rn()).get_id()

    def note_sign(self, s, v):
        t = z3.simplify(s.rn())
        self.signs[t.get_id()] = v
        self.memo[('keep', t.get_id())] = t

    def int_part(self, a):
        """floor of a real Sym as an Int term"""
        n = z3.simplify(a.rn())
        if a.d is None:
            if z3.is_to_real(n):
                return n.arg(0)
            return z3.ToInt(n)
        key = ('ip', n.get_id(), a.d.get_id())
        if key in self.memo:
            return self.memo[key][0]
        i = self.fresh_int('ip')
        # i <= n/d < i+1
        self.add(z3.And(z3.ToReal(i) * a.d <= n, n < (z3.ToReal(i) + 1) * a.d))
        self.memo[key] = (i, n, a.d)
        return i

    def binade(self, a):
        """e with 2^e <= a < 2^(e+1), forking; None if rounding cannot matter (a integral below 2^53)"""
        if a.d is None and bool(mkb(z3.And(z3.IsInt(a.rn()), a.rn() < 2 ** 53))):
            return None
        for e in range(64, -1, -1):
            if bool(mkb(a.term() >= 2 ** e)):
                return e
        for e in range(1, 40):
            if bool(mkb(a.term() * 2 ** e >= 1)):
                return -e
        raise SymEscape("value too small for float64 rounding model")

    def fresh_int(self, nm, lo=None, hi=None):
        self.fresh += 1
        v = z3.Int(f'{nm}!{self.fresh}')
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        return v

    def fresh_real(self, nm):
        self.fresh += 1
        return z3.Real(f'{nm}!{self.fresh}')

    # -- obligations
    def prove(self, cond, label, weak=None):
        """cond: bool/SymB.  weak: weaker condition to fall back on (tolerance)."""
        self.reached[label] = self.reached.get(label, 0) + 1
        if isinstance(cond, (bool, np.bool_)):
            if cond:
                self.stats['trivial'] += 1
                return True
            if weak is None:
                return self._violation([], label)
            cond = SymB(z3.BoolVal(False))
        r = self._decide(cond.t)
        if r == 'unsat':
            self.stats['proved'] += 1
            return True
        if weak is not None:
            w = weak() if callable(weak) else weak
            if isinstance(w, (bool, np.bool_)):
                w = SymB(z3.BoolVal(bool(w)))
            r2 = self._decide(w.t)
            if r2 == 'unsat':
                self.stats['proved'] += 1
                return True
            if r2 == 'sat':
                return self._violation([z3.Not(w.t)], label)
            r = r2 if r == 'unknown' else r
            if r2 == 'unknown':
                r = 'unknown'
        if r == 'sat':
            return self._violation([z3.Not(cond.t)], label)
        self.stats['unknown'] += 1
        self.unknowns.append(label)
        return False

    def _decide(self, t):
        nt = z3.simplify(z3.Not(t), som=True)
        if z3.is_false(nt):
            return 'unsat'
        t0 = time.time()
        try:
            self.solver.set('timeout', min(4000, self.check_timeout))
            r = self._check(nt)
            self.solver.set('timeout', self.branch_timeout)
            if r == z3.unsat or (r == z3.sat and not self.relaxed):
                return str(r)
            mks = (self._nra, self._qfnra2)
            if self.relaxed:
                mks = (z3.Solver,) + mks
            for mk in mks:
                s = mk()
                s.set('timeout', self.check_timeout)
                for c in self.pc:
                    s.add(c)
                s.add(nt)
                t1 = time.time()
                r = s.check()
                self.stats['queries'] += 1
                self.stats['solver_s'] += time.time() - t1
                if r != z3.unknown:
                    return str(r)
        except z3.Z3Exception as e:
            return 'unknown'
        return 'unknown'

    def _nra(self):
        return z3.Then('simplify', 'purify-arith', 'elim-term-ite', 'solve-eqs', 'smt').solver()

    def _qfnra2(self):
        return z3.Then('simplify', 'propagate-values', 'elim-term-ite', 'solve-eqs', 'qfnra').solver()

    def _violation(self, extra, label):
        n = self.label_viol.get(label, 0)
        self.label_viol[label] = n + 1
        if self.label_nice.get(label, 0) >= 2 or n >= 12:
            self.add_all([z3.Not(e) for e in extra])
            return False
        cands, nice = self.candidates(extra)
        if cands:
            self.violations.append({'label': label, 'cands': cands, 'trace': list(self.trace)})
            if nice:
                self.label_nice[label] = self.label_nice.get(label, 0) + 1
        else:
            r = self._check(*extra)
            if r == z3.unsat:
                return True
            self.stats['unknown'] += 1
            self.unknowns.append(label)
        # continue as if it held, so later obligations are not tainted
        for e in extra:
            self.add(z3.Not(e))
        if not extra:
            raise PathDone()
        return False

    def soft(self, exc):
        """the encoding broke on this path: hand models of the path condition to the implementation"""
        try:
            cands, _ = self.candidates([])
        except Exception:
            cands = []
        if cands:
            self.violations.append({'label': 'path without encoding', 'cands': cands, 'trace': [], 'soft': True, 'exc': exc})
        raise PathDone()

    def add_all(self, ts):
        for t in ts:
            self.add(t)
        if not ts:
            raise PathDone()

    def candidates(self, extra):
        """several models of the violation, 'nice' ones first (exactly representable in binary)"""
        out = []
        seen = set()
        isnice = False
        for nice in ((('pref',) if self.prefs else ()) + (1, 4, 64) + (('tab',) if self.nice_extra else ()) + (None,)):
            r = self.solve_inputs(extra, nice=nice)
            if r is None:
                continue
            isnice |= nice is not None
            inp = r[0]
            key = repr(inp)
            if key not in seen:
                seen.add(key)
                out.append(inp)
        return out, isnice

    def solve_inputs(self, extra, nice=4, quick=False):
        s = z3.Solver()
        s.set('timeout', 2500 if quick else 6000)
        for c in self.pc:
            s.add(c)
        for e in extra:
            s.add(e)
        if nice is not None:
            for nm, kind, ts, meta in (self.inputs if nice != 'tab' else []):
                for t in ts:
                    if t is not None and z3.is_real(t) and f'log_{t}' not in self.logged:
                        s.add(z3.IsInt(t * (4 if nice == 'pref' else nice)))
            for t in self.nice_extra:
                s.add(t)
            for t in self.prefs if nice == 'pref' else []:
                s.add(t)
        if self.model is not None and not extra and nice is None:
            pass
        t0 = time.time()
        r = s.check()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t0
        if r != z3.sat:
            if quick and nice is not None:
                return self.solve_inputs(extra, nice=None, quick=False) if nice is not None else None
            if nice is None and r == z3.unknown:
                s2 = self._qfnra2()
                s2.set('timeout', 8000)
                for c in self.pc:
                    s2.add(c)
                for e in extra:
                    s2.add(e)
                if s2.check() == z3.sat:
                    m = s2.model()
                    return self.read_inputs(m), m
            return None
        m = s.model()
        return self.read_inputs(m), m

    def read_inputs(self, m):
        out = {}
        for nm, kind, ts, meta in self.inputs:
            vals = [None if t is None else self.mval(m, t) for t in ts]
            out[nm] = {'kind': kind, 'vals': vals, **meta}
        return out

    @staticmethod
    def mval(m, t):
        v = m.eval(t, model_completion=True)
        v = z3.simplify(v)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return [v.numerator_as_long(), v.denominator_as_long()]
        if z3.is_algebraic_value(v):
            a = v.approx(40)
            return [a.numerator_as_long(), a.denominator_as_long()]
        if z3.is_true(v):
            return 1
        if z3.is_false(v):
            return 0
        return None

    def eval_value(self, v, m):
        """value of an observed quantity under a model, as float/None"""
        if isinstance(v, SymB):
            return float(self.mval(m, v.t))
        if isinstance(v, Sym):
            if v.const:
                return float(v.n)
            x = self.mval(m, v.it() if v.k == 'i' else v.rn())
            if x is None:
                return None
            x = Fraction(x[0], x[1]) if isinstance(x, list) else Fraction(x)
            if v.d is not None:
                y = self.mval(m, v.d)
                if y is None:
                    return None
                y = Fraction(y[0], y[1]) if isinstance(y, list) else Fraction(y)
                if y == 0:
                    return None
                x = x / y
            return float(x)
        if isinstance(v, Uninit):
            return None
        try:
            return float(v)
        except Exception:
            return None


class _Exact:
    def __init__(self, c):
        self.c = c

    def __enter__(self):
        self.old = self.c.f64_ints
        self.c.f64_ints = False

    def __exit__(self, *a):
        self.c.f64_ints = self.old
