"""Symbolic ndarray: an object ndarray with a logical dtype, plus the numpy/math namespaces
seen by the code under test."""
import builtins
import math
import types
from fractions import Fraction

import numpy as np
import z3

from . import core, fn, par
from .core import (Sym, SymB, UNINIT, Uninit, SymEscape, lift, mkb, bterm, ite, smax, smin, sround, sround_dec, trunc,
                   floor_, ceil_, sign_)

RNP = np          # the real numpy


def norm_dtype(dt):
    if dt is None:
        return np.dtype(np.float64)
    if isinstance(dt, _ShimType):
        return dt.dtype
    if dt in (float, _float):
        return np.dtype(np.float64)
    if dt in (int, _int):
        return np.dtype(np.int64)
    if dt is bool:
        return np.dtype(np.bool_)
    return np.dtype(dt)


def has_sym(x):
    if isinstance(x, (Sym, SymB, Uninit)):
        return True
    if isinstance(x, SArr):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(e, (Sym, SymB)) for e in x.ravel())
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return False


def cast(v, dt):
    """cast one element to a logical dtype"""
    dt = norm_dtype(dt)
    k = dt.kind
    if isinstance(v, Uninit):
        return v
    if k == 'O':
        return v
    if k == 'f':
        if isinstance(v, (float, np.floating)) and (v != v or v in (math.inf, -math.inf)):
            return float(v)
        if v is None:
            return math.nan
        if isinstance(v, fn.Log10):
            return v
        if isinstance(v, Sym) and v.k == 'r':
            return v
        l = lift(v)
        if l is None:
            raise SymEscape(f"cannot store {type(v)} in a float array")
        return l if isinstance(l, float) else l.real()
    if k == 'b':
        if isinstance(v, SymB):
            return v
        if isinstance(v, Sym):
            return v != 0
        return bool(v)
    if k in 'iu':
        if isinstance(v, SymB):
            v = v._int()
        if isinstance(v, (float, np.floating)):
            if v != v or v in (math.inf, -math.inf):
                return int(np.array([v]).astype(dt)[0])
            return _wrapc(int(v), dt)
        if isinstance(v, (np.datetime64, np.timedelta64)):
            return int(v.astype(np.int64))
        l = lift(v)
        if l is None:
            if hasattr(v, 'value'):
                return int(v.value)
            raise SymEscape(f"cannot store {type(v)} in an int array")
        if isinstance(l, float):
            return _wrapc(int(np.array([l]).astype(dt)[0]), dt)
        l = trunc(l)
        if l.const:
            return _wrapc(int(l.n), dt)
        info = np.iinfo(dt)
        if dt.itemsize >= 8 and not core.CTX.check_int64:
            return l
        t = l.it()
        oor = z3.Or(t < info.min, t > info.max)
        if bool(mkb(oor)):
            m = int(info.max) - int(info.min) + 1
            return Sym('i', (t - int(info.min)) % m + int(info.min))
        return l
    if k in 'mM':
        return v
    raise SymEscape(f"dtype {dt}")


def _wrapc(v, dt):
    info = np.iinfo(dt)
    if info.min <= v <= info.max:
        return v
    m = int(info.max) - int(info.min) + 1
    return (v - int(info.min)) % m + int(info.min)


def elem(v):
    """normalise an element coming out of real arrays"""
    if isinstance(v, np.generic):
        return v.item() if not isinstance(v, (np.datetime64, np.timedelta64)) else v
    return v


class SArr(np.ndarray):
    __array_priority__ = 3000

    def __new__(cls, data, dt):
        if isinstance(data, np.ndarray):
            o = data.view(np.ndarray)
            if o.dtype != object:
                o2 = np.empty(o.shape, dtype=object)
                o2[...] = o.tolist() if o.ndim else o.item()
                o = o2
        else:
            data = list(data)
            if data and isinstance(data[0], (np.ndarray, list, tuple)):
                o = np.empty((len(data), len(data[0])), dtype=object)
                for i, r in enumerate(data):
                    for j, e in enumerate(r):
                        o[i, j] = e
            else:
                o = np.empty(len(data), dtype=object)
                for i, e in enumerate(data):
                    o[i] = e
        r = o.view(cls)
        r.ld = norm_dtype(dt)
        return r

    def __array_finalize__(self, obj):
        self.ld = getattr(obj, 'ld', np.dtype(object))

    @property
    def dtype(self):
        return self.ld

    @property
    def raw(self):
        if par.REC is not None:
            par.read(self)
        return np.ndarray.view(self, np.ndarray)

    @property
    def itemsize(self):
        return self.ld.itemsize

    @property
    def nbytes(self):
        return self.ld.itemsize * self.size

    # -- element access
    def __getitem__(self, key):
        key = fixkey(key)
        b = np.ndarray.view(self, np.ndarray)
        r = b[key]
        if par.REC is not None and not (isinstance(r, np.ndarray) and np.may_share_memory(r, b)):
            par.read(self, key)
        if isinstance(r, np.ndarray):
            r = r.view(SArr)
            r.ld = self.ld
        return r

    def __setitem__(self, key, val):
        key = fixkey(key)
        dt = self.ld
        if par.REC is not None:
            par.write(self, key)
        own = np.ndarray.view(self, np.ndarray)
        if isinstance(val, (list, tuple)):
            val = np.array(val, dtype=object)
        if isinstance(val, np.ndarray) and val.ndim > 0:
            src = val.raw if isinstance(val, SArr) else val
            o = np.empty(src.shape, dtype=object)
            f = o.ravel() if o.ndim == 1 else o.reshape(-1)
            for i, e in enumerate(src.ravel()):
                f[i] = cast(elem(e), dt)
            own[key] = f.reshape(src.shape)
        else:
            if isinstance(val, np.ndarray):
                val = val.item()
            c = cast(elem(val), dt)
            tgt = own
            if isinstance(key, (int, np.integer)) or (isinstance(key, tuple) and all(isinstance(k, (int, np.integer)) for k in key)):
                tgt[key] = c
            else:
                view = tgt[key]
                if isinstance(view, np.ndarray):
                    fill = np.empty(view.shape, dtype=object)
                    fl = fill.reshape(-1)
                    for i in range(fl.size):
                        fl[i] = c
                    tgt[key] = fill
                else:
                    tgt[key] = c

    def __iter__(self):
        if self.ndim == 1:
            return iter(list(self.raw))
        return (self[i] for i in range(self.shape[0]))

    # -- conversions
    def astype(self, dt, copy=True, **k):
        d = norm_dtype(dt)
        if d.kind in 'mM':
            return to_plain(self).astype(d)
        return SArr(mapel(self.raw, lambda e: cast(e, d)), d)

    def copy(self, order='C'):
        return SArr(self.raw.copy(), self.ld)

    def view(self, *a, **k):
        if a and a[0] in (np.ndarray, SArr):
            return np.ndarray.view(self, a[0])
        if not a:
            return np.ndarray.view(self, SArr)
        return np.ndarray.view(self, *a, **k)

    def fill(self, v):
        self[...] = v

    def tolist(self):
        return list(self.raw)

    def item(self, *a):
        return self.raw.item(*a)

    def any(self, *a, **k): return np_any(self)
    def all(self, *a, **k): return np_all(self)
    def sum(self, axis=None, dtype=None, **k): return np_sum(self, axis, dtype)
    def mean(self, axis=None, **k): return np_mean(self)
    def std(self, axis=None, ddof=0, **k): return np_std(self, ddof=ddof)
    def var(self, axis=None, ddof=0, **k): return np_var(self, ddof=ddof)
    def min(self, *a, **k): return np_min(self)
    def max(self, *a, **k): return np_max(self)
    def argmax(self, *a, **k): return np_argmax(self)
    def argmin(self, *a, **k): return np_argmin(self)
    def argsort(self, *a, **k): return np_argsort(self)
    def cumsum(self, *a, **k): return np_cumsum(self)
    def sort(self, *a, **k):
        self[...] = np_sort(self)

    def searchsorted(self, v, side='left', **k): return np_searchsorted(self, v, side)
    def round(self, decimals=0, **k): return np_round(self, decimals)
    def clip(self, lo=None, hi=None, **k): return np_clip(self, lo, hi)
    def nonzero(self): return np_nonzero(self)
    def dot(self, o): return np_dot(self, o)
    def prod(self, *a, **k):
        r = 1
        for e in self.raw.ravel():
            r = r * e
        return r

    def repeat(self, n, *a, **k): return SArr(np.repeat(self.raw, n, *a, **k), self.ld)
    def flatten(self, *a): return SArr(self.raw.reshape(-1).copy(), self.ld)
    def ravel(self, *a): return SArr(self.raw.reshape(-1), self.ld)

    # -- numpy protocols
    def __array_ufunc__(self, uf, method, *inputs, out=None, **kw):
        name = uf.__name__
        if method == '__call__':
            r = ufunc(name, *retyped(inputs, kw))
            if out is not None:
                tgt = out[0]
                if isinstance(tgt, SArr):
                    tgt[...] = r
                    return tgt
                return r
            return r
        if method == 'reduce':
            if name == 'add':
                return np_sum(inputs[0])
            if name == 'maximum':
                return np_max(inputs[0])
            if name == 'minimum':
                return np_min(inputs[0])
            if name == 'logical_or':
                return np_any(inputs[0])
            if name == 'logical_and':
                return np_all(inputs[0])
        if method == 'accumulate':
            if name == 'add':
                return np_cumsum(inputs[0])
            if name in ('maximum', 'minimum'):
                f = ufn[name]
                out_, cur = [], None
                for e in inputs[0].raw:
                    cur = e if cur is None else f(cur, e)
                    out_.append(cur)
                return SArr(out_, inputs[0].ld)
        if method == 'outer' and name in ufn:
            pass
        raise SymEscape(f"ufunc {name}.{method}")

    def __array_function__(self, func, types_, args, kwargs):
        f = FUNCS.get(func.__name__)
        if f is not None:
            return f(*args, **kwargs)
        raise SymEscape(f"numpy function {func.__name__}")

    def __repr__(self):
        return f'SArr({list(self.raw.ravel())}, {self.ld})'

    def __format__(self, s):
        return '<sarr>'


def mapel(a, f):
    o = np.empty(a.shape, dtype=object)
    fl = o.reshape(-1)
    for i, e in enumerate(a.ravel()):
        fl[i] = f(elem(e))
    return fl.reshape(a.shape)


def fixkey(key):
    if isinstance(key, tuple):
        return tuple(fixkey(k) for k in key)
    if isinstance(key, slice):
        return slice(fixidx(key.start), fixidx(key.stop), fixidx(key.step))
    if isinstance(key, SArr):
        if key.ld.kind == 'b':
            return np.array([bool(e) for e in key.raw.ravel()], dtype=bool).reshape(key.shape)
        if key.ld.kind in 'iu':
            return np.array([_idx(e) for e in key.raw.ravel()], dtype=np.int64).reshape(key.shape)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(key, np.ndarray) and key.dtype == object:
        vals = list(key.ravel())
        if all(isinstance(e, (bool, np.bool_, SymB)) for e in vals):
            return np.array([bool(e) for e in vals], dtype=bool)
        return np.array([_idx(e) for e in vals], dtype=np.int64)
    if isinstance(key, list):
        return fixkey(np.array(key, dtype=object)) if any(isinstance(e, (Sym, SymB)) for e in key) else key
    return fixidx(key)


def _idx(e):
    return e.__index__()


def fixidx(k):
    if isinstance(k, Sym):
        return k.__index__()
    return k


def to_plain(a):
    """SArr -> real ndarray if every element is concrete, else a plain object ndarray"""
    raw = a.raw
    vals = list(raw.ravel())
    if all(not isinstance(e, (Sym, SymB, Uninit)) or (isinstance(e, Sym) and e.const) for e in vals):
        if a.ld.kind == 'f' and any(isinstance(e, Sym) and Fraction(float(e.n)) != e.n for e in vals):
            return raw.copy()
        conv = [float(e) if a.ld.kind == 'f' else (int(e) if a.ld.kind in 'iu' else (bool(e) if a.ld.kind == 'b' else e))
                for e in vals]
        r = np.array(conv, dtype=a.ld if a.ld.kind != 'O' else object)
        return r.reshape(raw.shape)
    r = raw.copy()
    if a.ld.kind in 'iu' and a.ld.itemsize < 8:
        for i, e in np.ndenumerate(r):
            if isinstance(e, Sym):
                r[i] = core.SymN(e, a.ld)
    return r


def column(r):
    """array view of a pandas column (an object ndarray): writes go through to the column"""
    a = asarr(r)
    return SArr(r, a.ld) if all(x is y for x, y in zip(a.raw.ravel(), r.ravel())) else a


def asarr(x, dt=None):
    """anything array-like -> SArr"""
    if isinstance(x, SArr):
        return x if dt is None or norm_dtype(dt) == x.ld else x.astype(dt)
    if hasattr(x, 'to_numpy') and not isinstance(x, np.ndarray):
        x = x.to_numpy()
        if isinstance(x, SArr):
            return asarr(x, dt)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            ld = infer(x.ravel()) if dt is None else norm_dtype(dt)
            if dt is None and ld.kind == 'i':
                w = {e.w for e in x.ravel() if isinstance(e, core.SymN)}
                if len(w) == 1:
                    ld = w.pop()
        else:
            ld = x.dtype if dt is None else norm_dtype(dt)
        return SArr(mapel(x, lambda e: cast(e, ld)), ld)
    if isinstance(x, range):
        x = list(x)
    x = list(x)
    if x and isinstance(x[0], (list, tuple, np.ndarray)):
        a = SArr([list(r) for r in x], object)
        ld = infer(a.raw.ravel()) if dt is None else norm_dtype(dt)
        return SArr(mapel(a.raw, lambda e: cast(e, ld)), ld)
    ld = infer(x) if dt is None else norm_dtype(dt)
    return SArr([cast(elem(e), ld) for e in x], ld)


def infer(vals):
    kinds = set()
    for e in vals:
        if isinstance(e, (bool, np.bool_, SymB)):
            kinds.add('b')
        elif isinstance(e, (int, np.integer)):
            kinds.add('i')
        elif isinstance(e, Sym):
            kinds.add('f' if e.k == 'r' else 'i')
        elif isinstance(e, (float, np.floating, Fraction)):
            kinds.add('f')
        elif e is None or isinstance(e, Uninit):
            kinds.add('f')
        else:
            return np.dtype(object)
    if 'f' in kinds or not kinds:
        return np.dtype(np.float64)
    if 'i' in kinds:
        return np.dtype(np.int64)
    return np.dtype(np.bool_)


# ---- ufuncs ----------------------------------------------------------------------------
import operator as op


def _isnan(a):
    return isinstance(a, (float, np.floating)) and a != a


def _isinf(a):
    return isinstance(a, (float, np.floating)) and a in (math.inf, -math.inf)


def _npmax(a, b):
    if _isnan(a):
        return a
    if _isnan(b):
        return b
    return smax(a, b)


def _npmin(a, b):
    if _isnan(a):
        return a
    if _isnan(b):
        return b
    return smin(a, b)


def _and(a, b):
    if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
        return bool(a) and bool(b)
    return mkb(z3.And(tob(a), tob(b)))


def tob(a):
    if isinstance(a, (SymB, bool, np.bool_)):
        return bterm(a)
    return bterm(a != 0)


def _or(a, b):
    if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
        return bool(a) or bool(b)
    return mkb(z3.Or(tob(a), tob(b)))


def _not(a):
    if isinstance(a, (bool, np.bool_)):
        return not a
    return mkb(z3.Not(tob(a)))


def _invert(a):
    if isinstance(a, (bool, np.bool_)):
        return not a
    if isinstance(a, SymB):
        return ~a
    return ~a


def _where(c, a, b):
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if isinstance(c, Sym):
        c = c != 0
        return _where(c, a, b)
    return ite(c, a, b)


def _div(a, b):
    if isinstance(b, (int, float, bool)) and isinstance(a, (int, float, bool)):
        la = lift(a)
        return la / b if not isinstance(la, float) else float(np.float64(a) / np.float64(b))
    return a / b


def _log(a):
    return fn.log(a)


def _sqrt(a):
    return fn.sqrt(a)


def _bitand(a, b):
    if isinstance(a, (bool, np.bool_, SymB)) and isinstance(b, (bool, np.bool_, SymB)):
        return _and(a, b)
    return a & b


def _bitor(a, b):
    if isinstance(a, (bool, np.bool_, SymB)) and isinstance(b, (bool, np.bool_, SymB)):
        return _or(a, b)
    return a | b


def _add(a, b):
    if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
        return bool(a) or bool(b)
    return lift2(a) + lift2(b)


def lift2(a):
    if isinstance(a, (bool, np.bool_)):
        return int(a)
    return a


def _abs(a):
    return abs(a)


def _pow(a, b):
    return lift(a) ** b if not isinstance(lift(a), float) else lift(a)


def _isfin(a):
    return not (_isnan(a) or _isinf(a))


ufn = {
    'add': _add, 'subtract': lambda a, b: lift2(a) - lift2(b), 'multiply': lambda a, b: lift2(a) * lift2(b),
    'divide': _div, 'true_divide': _div,
    'floor_divide': op.floordiv, 'remainder': op.mod, 'mod': op.mod, 'power': _pow, 'float_power': _pow,
    'negative': op.neg, 'positive': op.pos, 'absolute': _abs, 'abs': _abs, 'fabs': _abs,
    'less': op.lt, 'less_equal': op.le, 'greater': op.gt, 'greater_equal': op.ge, 'equal': op.eq, 'not_equal': op.ne,
    'maximum': _npmax, 'minimum': _npmin,
    'fmax': lambda a, b: b if _isnan(a) else (a if _isnan(b) else smax(a, b)),
    'fmin': lambda a, b: b if _isnan(a) else (a if _isnan(b) else smin(a, b)),
    'logical_and': _and, 'logical_or': _or, 'logical_not': _not, 'invert': _invert,
    'logical_xor': lambda a, b: mkb(z3.Xor(tob(a), tob(b))),
    'bitwise_and': _bitand, 'bitwise_or': _bitor, 'bitwise_xor': op.xor,
    'isnan': _isnan, 'isinf': _isinf, 'isfinite': _isfin,
    'log': _log, 'sqrt': _sqrt, 'log1p': lambda a: fn.log(lift2(a) + 1), 'log10': lambda a: fn.log10(a),
    'exp': lambda a: fn.exp(a), 'square': lambda a: a * a, 'reciprocal': lambda a: _div(1.0, a),
    'expm1': lambda a: fn.exp(a) - 1,
    'log2': lambda a: fn.log(a) / fn.LN2,
    'sign': lambda a: sign_(a), 'floor': lambda a: fl_(a), 'ceil': lambda a: cl_(a), 'rint': lambda a: rint_(a),
    'trunc': lambda a: a if _isnan(a) else trunc(a).real(),
    'sin': lambda a: fn.uf('sin', a), 'cos': lambda a: fn.uf('cos', a), 'arctan': lambda a: fn.uf('arctan', a),
    'degrees': lambda a: lift(a) * Fraction(180.0 / math.pi) if not _isnan(a) else a,
    'conjugate': lambda a: a,
}
BOOL_RES = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and', 'logical_or',
            'logical_not', 'logical_xor', 'isnan', 'isinf', 'isfinite'}
FLOAT_RES = {'divide', 'true_divide', 'log', 'sqrt', 'log1p', 'log10', 'exp', 'sin', 'cos', 'arctan', 'floor', 'ceil',
             'rint', 'float_power', 'degrees', 'reciprocal', 'log2', 'expm1'}


def fl_(a):
    if isinstance(a, (fn.Log10, fn.NegLog10)):
        return a.floor()
    if _isnan(a) or _isinf(a):
        return a
    return floor_(a)


def cl_(a):
    if isinstance(a, (fn.Log10, fn.NegLog10)):
        return a.ceil()
    if _isnan(a) or _isinf(a):
        return a
    return ceil_(a)


def rint_(a):
    if _isnan(a) or _isinf(a):
        return a
    return sround(a).real()


def ldof(x):
    if isinstance(x, SArr):
        return x.ld
    if isinstance(x, np.ndarray):
        return infer(x.ravel()) if x.dtype == object else x.dtype
    return None


def retyped(inputs, kw):
    """inputs converted to the dtype a ufunc is told to compute in"""
    if kw.get('where', True) is not True:
        raise SymEscape('ufunc with where')
    dt = kw.get('dtype')
    if dt is None:
        return inputs
    dt = norm_dtype(dt)
    return tuple(asarr(x, dt) if isinstance(x, (np.ndarray, list, tuple)) else (x if isinstance(x, int) and dt.kind in 'iu' else cast(x, dt)) for x in inputs)


def ufunc(name, *inputs):
    f = ufn.get(name)
    if f is None:
        raise SymEscape(f"ufunc {name}")
    ins = []
    for x in inputs:
        if isinstance(x, SArr):
            ins.append(x.raw)
        elif isinstance(x, np.ndarray):
            ins.append(x)
        elif isinstance(x, (list, tuple)):
            ins.append(asarr(x).raw)
        elif hasattr(x, 'to_numpy'):
            return NotImplemented
        else:
            b = np.empty((), dtype=object)
            b[()] = x
            ins.append(b)
    if all(i.ndim == 0 for i in ins):
        return f(*[elem(i.item() if i.dtype != object else i[()]) for i in ins])
    bs = np.broadcast_arrays(*ins) if len(ins) > 1 else ins
    shape = bs[0].shape
    out = np.empty(shape, dtype=object)
    fl = out.reshape(-1)
    c = core.CTX
    old = c.div0
    c.div0 = 'numpy'
    try:
        cols = [list(b.ravel()) for b in bs]
        for i in range(fl.size):
            fl[i] = f(*[elem(col[i]) for col in cols])
    finally:
        c.div0 = old
    if name in BOOL_RES:
        ld = np.dtype(bool)
    else:
        dts = [ldof(x) for x in inputs]
        known = [d for d in dts if d is not None]
        if name in FLOAT_RES:
            f32 = known and all(d == np.float32 for d in known)
            ld = np.dtype(np.float32 if f32 else np.float64)
        else:
            ld = known[0]
            for d in known[1:]:
                ld = np.promote_types(ld, d)
            for x, d in zip(inputs, dts):
                if d is None:
                    l = x if isinstance(x, Sym) else lift(x)
                    if (isinstance(l, float) or (isinstance(l, Sym) and l.k == 'r')) and ld.kind in 'iub':
                        ld = np.dtype(np.float64)
                    elif isinstance(l, Sym) and l.k == 'i' and ld.kind == 'b' and not isinstance(x, (bool, SymB)):
                        ld = np.dtype(np.int64)
    r = SArr(fl.reshape(shape), ld)
    if ld.kind in 'iu' and ld.itemsize < 8 or ld.kind == 'f':
        for i in range(fl.size):
            fl[i] = cast(fl[i], ld)
    return r


# ---- functions -------------------------------------------------------------------------
def lst(a):
    if isinstance(a, SArr):
        return list(a.raw.ravel())
    return [elem(e) for e in np.asarray(a, dtype=object).ravel()] if not isinstance(a, (list, tuple)) else list(a)


def zero_of(ld):
    return 0 if ld is not None and ld.kind in 'iub' else Sym('r', Fraction(0))


def np_sum(a, axis=None, dtype=None, **k):
    a = asarr(a)
    if axis is not None and a.ndim > 1:
        raise SymEscape("sum over an axis")
    ld = norm_dtype(dtype) if dtype is not None else a.ld
    if ld.kind == 'b':
        ld = np.dtype(np.int64)
    if dtype is None and ld.kind in 'iu' and ld.itemsize < 8:
        ld = np.dtype(np.int64 if ld.kind == 'i' else np.uint64)
    r = zero_of(ld)
    for e in a.raw.ravel():
        if isinstance(e, (SymB,)):
            e = e._int()
        elif isinstance(e, (bool, np.bool_)):
            e = int(e)
        r = r + e
        if ld.kind in 'iu' and ld.itemsize < 8:
            r = cast(r, ld)
    return r


def np_nansum(a, **k):
    a = asarr(a)
    r = zero_of(a.ld)
    for e in a.raw.ravel():
        if not _isnan(e):
            r = r + e
    return r


def np_cumsum(a, axis=None, dtype=None, **k):
    a = asarr(a)
    out = []
    r = zero_of(a.ld)
    for e in a.raw.ravel():
        if isinstance(e, SymB):
            e = e._int()
        elif isinstance(e, (bool, np.bool_)):
            e = int(e)
        r = r + e
        out.append(r)
    return SArr(out, a.ld if a.ld.kind != 'b' else np.int64)


def np_mean(a, axis=None, **k):
    a = asarr(a)
    if a.size == 0:
        return math.nan
    return lift_or(np_sum(a)) / Sym('i', a.size) if not isinstance(lift(np_sum(a)), float) else np_sum(a)


def lift_or(x):
    l = lift(x)
    return l


def np_var(a, axis=None, ddof=0, **k):
    a = asarr(a)
    n = a.size
    m = np_mean(a)
    s = Sym('r', Fraction(0))
    for e in a.raw.ravel():
        d = e - m
        s = s + d * d
    dd = n - ddof
    old = core.CTX.div0
    core.CTX.div0 = 'numpy'
    try:
        return s / dd
    finally:
        core.CTX.div0 = old


def np_std(a, axis=None, ddof=0, **k):
    return fn.sqrt(np_var(a, ddof=ddof))


def _nonan(a):
    return [e for e in lst(a) if not _isnan(e)]


def np_nanmean(a, **k):
    v = _nonan(a)
    return math.nan if not v else np_mean(v)


def np_nanstd(a, axis=None, ddof=0, **k):
    v = _nonan(a)
    return math.nan if not v else np_std(v, ddof=ddof)


def np_nanvar(a, axis=None, ddof=0, **k):
    v = _nonan(a)
    return math.nan if not v else np_var(v, ddof=ddof)


def _red(a, f, nm):
    v = lst(a)
    if not v:
        raise ValueError(f"zero-size array to reduction operation {nm} which has no identity")
    r = v[0]
    for e in v[1:]:
        r = f(r, e)
    return r


def np_max(a, axis=None, **k): return _red(a, _npmax, 'maximum')
def np_min(a, axis=None, **k): return _red(a, _npmin, 'minimum')


def np_nanmax(a, **k):
    v = _nonan(a)
    return math.nan if not v else _red(v, _npmax, 'max')


def np_nanmin(a, **k):
    v = _nonan(a)
    return math.nan if not v else _red(v, _npmin, 'min')


def np_any(a, axis=None, **k):
    r = False
    for e in lst(a):
        r = _or(r, e if isinstance(e, (bool, SymB)) else (e != 0))
    return r


def np_all(a, axis=None, **k):
    r = True
    for e in lst(a):
        r = _and(r, e if isinstance(e, (bool, SymB)) else (e != 0))
    return r


def np_argmax(a, axis=None, **k):
    v = lst(a)
    if not v:
        raise ValueError("attempt to get argmax of an empty sequence")
    best = 0
    for i in range(1, len(v)):
        if _isnan(v[best]):
            break
        if _isnan(v[i]) or bool(v[i] > v[best]):
            best = i
    return best


def np_argmin(a, axis=None, **k):
    v = lst(a)
    best = 0
    for i in range(1, len(v)):
        if bool(v[i] < v[best]):
            best = i
    return best


def np_argsort(a, axis=-1, kind=None, **k):
    """Unstable unless a stable kind is asked for: the order of ties is then any (forks)."""
    v = lst(a)
    stable = kind in ('stable', 'mergesort')
    idx = []
    for i in range(len(v)):
        # insert after all elements <= v[i] (stable); on ties explore both orders when unstable
        pos = len(idx)
        while pos > 0:
            j = idx[pos - 1]
            if bool(v[i] < v[j]):
                pos -= 1
                continue
            if not stable and bool(v[i] == v[j]) and core.CTX.choose(2) == 1:
                pos -= 1
                continue
            break
        idx.insert(pos, i)
    return SArr(idx, np.int64)


def np_lexsort(keys, **k):
    ks = [lst(x) for x in keys][::-1]
    n = len(ks[0])
    idx = []

    def lt(i, j):
        for x in ks:
            if bool(x[i] < x[j]):
                return True
            if bool(x[i] > x[j]):
                return False
        return False
    for i in range(n):
        pos = len(idx)
        while pos > 0 and lt(i, idx[pos - 1]):
            pos -= 1
        idx.insert(pos, i)
    return SArr(idx, np.int64)


def sorted_terms(v):
    """sorting network by compare-exchange, merged (no forks); nan at the end"""
    nan = [e for e in v if _isnan(e)]
    v = [e for e in v if not _isnan(e)]
    n = len(v)
    for i in range(n):
        for j in range(0, n - 1 - i):
            a, b = v[j], v[j + 1]
            c = a > b
            if isinstance(c, (bool, np.bool_)):
                if c:
                    v[j], v[j + 1] = b, a
            else:
                v[j], v[j + 1] = ite(c, b, a), ite(c, a, b)
    return v + nan


def np_sort(a, axis=-1, kind=None, **k):
    a = asarr(a)
    return SArr(sorted_terms(list(a.raw.ravel())), a.ld)


def np_median(a, axis=None, **k):
    v = lst(a)
    if any(_isnan(e) for e in v) or not v:
        return math.nan
    v = sorted_terms(v)
    n = len(v)
    if n % 2:
        return lift(v[n // 2]).real()
    return (v[n // 2 - 1] + v[n // 2]) / Sym('i', 2)


def np_nanmedian(a, **k):
    v = _nonan(a)
    return math.nan if not v else np_median(v)


def np_quantile(a, q, axis=None, **k):
    v = lst(a)
    if any(_isnan(e) for e in v) or not v:
        return math.nan
    v = sorted_terms(v)
    pos = (len(v) - 1) * Fraction(q if not isinstance(q, Sym) else q.n)
    lo = math.floor(pos)
    hi = min(lo + 1, len(v) - 1)
    fr = pos - lo
    return v[lo] + (v[hi] - v[lo]) * fr


def np_percentile(a, q, axis=None, **k):
    qq = q.n if isinstance(q, Sym) else q
    return np_quantile(a, Fraction(qq) / 100, axis)


def np_unique(a, return_counts=False, return_index=False, return_inverse=False, **k):
    a = asarr(a)
    v = list(a.raw.ravel())
    idx = list(np_argsort(SArr(v, a.ld), kind='stable').raw)
    out, counts, first, inv = [], [], [], [0] * len(v)
    for i in idx:
        if out and bool(v[i] == out[-1]):
            counts[-1] += 1
        else:
            out.append(v[i])
            counts.append(1)
            first.append(i)
        inv[i] = len(out) - 1
    r = [SArr(out, a.ld)]
    if return_index:
        r.append(SArr(first, np.int64))
    if return_inverse:
        r.append(SArr(inv, np.int64))
    if return_counts:
        r.append(SArr(counts, np.int64))
    return r[0] if len(r) == 1 else tuple(r)


def np_searchsorted(a, v, side='left', sorter=None):
    a = lst(a)
    if isinstance(v, (np.ndarray, list, tuple)) and (not isinstance(v, np.ndarray) or v.ndim > 0):
        return SArr([np_searchsorted(a, e, side) for e in lst(v)], np.int64)
    v = elem(v)
    # binary search exactly as an array search would do on a sorted array
    lo, hi = 0, len(a)
    if isinstance(v, float) and v != v:
        return len(a)
    while lo < hi:
        m = (lo + hi) // 2
        c = (a[m] < v) if side == 'left' else (a[m] <= v)
        if bool(c):
            lo = m + 1
        else:
            hi = m
    return lo


def np_digitize(x, bins, right=False):
    return np_searchsorted(bins, x, side='left' if right else 'right')


def np_zeros(shape, dtype=None, **k):
    return full_(shape, 0, norm_dtype(dtype))


def np_ones(shape, dtype=None, **k):
    return full_(shape, 1, norm_dtype(dtype))


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(int(x.__index__()) for x in s)
    return (int(s.__index__()),)


def full_(shape, v, dt):
    sh = _shape(shape)
    o = np.empty(sh, dtype=object)
    c = cast(v, dt)
    fl = o.reshape(-1)
    for i in range(fl.size):
        fl[i] = c
    return SArr(fl.reshape(sh), dt)


def np_empty(shape, dtype=None, **k):
    if dtype is object:
        return np.empty(shape, dtype=object)        # holds references
    return full_(shape, UNINIT, norm_dtype(dtype))


def np_full(shape, fill_value, dtype=None, **k):
    dt = norm_dtype(dtype) if dtype is not None else infer([fill_value])
    return full_(shape, fill_value, dt)


def _like(a, dtype):
    if dtype is not None:
        return norm_dtype(dtype)
    d = ldof(a)
    return d if d is not None else np.dtype(np.float64)


def np_empty_like(a, dtype=None, **k): return full_(np.shape(a), UNINIT, _like(a, dtype))
def np_zeros_like(a, dtype=None, **k): return full_(np.shape(a), 0, _like(a, dtype))
def np_ones_like(a, dtype=None, **k): return full_(np.shape(a), 1, _like(a, dtype))
def np_full_like(a, v, dtype=None, **k): return full_(np.shape(a), v, _like(a, dtype))


def np_arange(*args, dtype=None, **k):
    a = [0, None, 1]
    if 'start' in k or 'stop' in k or 'step' in k:
        args = (k.get('start', 0), k.get('stop'), k.get('step', 1))
    if len(args) == 1:
        a[1] = args[0]
    elif len(args) == 2:
        a[0], a[1] = args
    else:
        a = list(args)
    la = [lift(x) for x in a]
    if all(isinstance(x, Sym) and x.k == 'i' for x in la):
        st, en, sp = [x for x in la]
        sp_ = sp.__index__()
        n = (en - st + (sp_ - 1 if sp_ > 0 else sp_ + 1)) // sp
        n = max(0, Sym.__index__(lift(n)))
        vals = [st + i * sp_ for i in range(n)]
        vals = [int(v.n) if isinstance(v, Sym) and v.const else v for v in vals]
        dt = norm_dtype(dtype) if dtype is not None else np.dtype(np.int64)
        return SArr([cast(v, dt) for v in vals], dt)
    st, en, sp = [x.real() for x in la]
    cnt = core.ceil_((en - st) / sp)
    n = trunc(cnt).__index__() if isinstance(cnt, Sym) else int(cnt)
    n = max(0, n)
    dt = norm_dtype(dtype) if dtype is not None else np.dtype(np.float64)
    if dt.kind in 'iu':
        # numpy/numba fill start + i*delta; with an integer dtype start and delta are cast first
        s0, d0 = cast(st, dt), None
        s1 = cast(st + sp, dt)
        d0 = s1 - s0
        return SArr([cast(s0 + i * d0, dt) for i in range(n)], dt)
    return SArr([cast(st + i * sp, dt) for i in range(n)], dt)


def np_linspace(a, b, num=50, endpoint=True, dtype=None, **k):
    num = int(num.__index__())
    if num == 1:
        vals = [lift(a).real()]
    else:
        div = num - 1 if endpoint else num
        step = (lift(b).real() - lift(a).real()) / Sym('i', div)
        vals = [lift(a).real() + step * i for i in range(num)]
        if endpoint:
            vals[-1] = lift(b).real()
    dt = norm_dtype(dtype) if dtype is not None else np.dtype(np.float64)
    return SArr([cast(v, dt) for v in vals], dt)


def np_diff(a, n=1, axis=-1, **k):
    a = asarr(a)
    v = list(a.raw.ravel())
    if a.ld.kind == 'b':
        return SArr([x != y for x, y in zip(v[1:], v[:-1])], bool)
    return SArr([cast(y - x, a.ld) for x, y in zip(v[:-1], v[1:])], a.ld)


def np_dot(a, b, **k):
    a, b = asarr(a), asarr(b)
    if a.size != b.size:
        raise ValueError("shapes not aligned")
    r = 0 if a.ld.kind in 'iu' and b.ld.kind in 'iu' else Sym('r', Fraction(0))
    for x, y in zip(a.raw.ravel(), b.raw.ravel()):
        r = r + x * y
    return r


def np_where(c, *ab):
    if not ab:
        return np_nonzero(c)
    a, b = ab
    if not any(isinstance(x, np.ndarray) and x.ndim for x in (c, a, b)) and not any(hasattr(x, 'to_numpy') for x in (c, a, b)):
        return _where(c, a, b)
    c, a, b = [asarr(x).raw if (isinstance(x, np.ndarray) and x.ndim) or hasattr(x, 'to_numpy') or isinstance(x, (list, tuple)) else x
               for x in (c, a, b)]
    bx = []
    for x in (c, a, b):
        if not isinstance(x, np.ndarray):
            z = np.empty((), dtype=object)
            z[()] = x
            x = z
        bx.append(x)
    cc, aa, bb = np.broadcast_arrays(*bx)
    out = [_where(x, elem(y), elem(z)) for x, y, z in zip(cc.ravel(), aa.ravel(), bb.ravel())]
    ld = infer(list(aa.ravel()) + list(bb.ravel()))
    r = SArr(out, ld)
    return r.reshape(cc.shape) if cc.ndim > 1 else r


def np_nonzero(a):
    a = asarr(a)
    m = [bool(e if isinstance(e, (bool, SymB)) else e != 0) for e in a.raw.ravel()]
    return (np.nonzero(np.array(m, dtype=bool))[0],)


def np_flatnonzero(a):
    return np_nonzero(a)[0]


def np_count_nonzero(a, axis=None, **k):
    r = 0
    for e in lst(a):
        b = e if isinstance(e, (bool, SymB)) else (e != 0)
        r = r + (b._int() if isinstance(b, SymB) else int(b))
    return r


def np_round(a, decimals=0, **k):
    if isinstance(a, np.ndarray) and a.ndim:
        a = asarr(a)
        if a.ld.kind in 'iu':
            return a
        return SArr(mapel(a.raw, lambda e: e if _isnan(e) or _isinf(e) else sround_dec(e, decimals) if decimals else sround(e).real()), a.ld)
    a = elem(a)
    if _isnan(a) or _isinf(a):
        return a
    return sround_dec(a, decimals) if decimals else sround(a).real()


def np_clip(a, lo=None, hi=None, **k):
    lo = k.get('a_min', lo)
    hi = k.get('a_max', hi)
    r = a
    if lo is not None:
        r = ufunc('maximum', r, lo)
    if hi is not None:
        r = ufunc('minimum', r, hi)
    return r


def np_array(x, dtype=None, copy=True, **k):
    if dtype is object and isinstance(x, (list, tuple)) and x and all(isinstance(e, np.ndarray) and e.ndim == 1 for e in x):
        if len({len(e) for e in x}) == 1:           # numpy makes a table of it, the rows lose their dtype
            return SArr([list(asarr(e).raw) for e in x], object)
        r = np.empty(len(x), dtype=object)
        for i, e in enumerate(x):
            r[i] = e
        return r
    if not has_sym(x) and not isinstance(x, SArr):
        if core.CTX is None:
            return np.array(x, dtype=unshim(dtype), **k)
        if isinstance(x, (list, tuple)) and all(isinstance(e, (int, float, bool, np.number, np.bool_)) for e in x):
            return asarr(x, dtype)
        r = np.array(x, dtype=unshim(dtype), **k)
        if isinstance(r, np.ndarray) and r.dtype.kind in 'iufb' and r.ndim:
            return asarr(r)
        return r
    if not isinstance(x, (list, tuple, np.ndarray)):
        return x
    return asarr(x, dtype).copy()


def np_asarray(x, dtype=None, **k):
    if isinstance(x, SArr):
        return asarr(x, dtype)
    if hasattr(x, 'to_numpy') and not isinstance(x, np.ndarray):
        x = x.to_numpy()
    if isinstance(x, np.ndarray) and x.dtype != object and (dtype is None or norm_dtype(dtype) == x.dtype):
        return x
    return np_array(x, dtype)


def unshim(dt):
    return dt.dtype if isinstance(dt, _ShimType) else (float if dt is _float else (int if dt is _int else dt))


def np_concatenate(xs, axis=0, **k):
    xs = [asarr(x) for x in xs]
    ld = xs[0].ld
    for x in xs[1:]:
        ld = np.promote_types(ld, x.ld)
    out = []
    for x in xs:
        out += [cast(e, ld) for e in x.raw.ravel()]
    return SArr(out, ld)


def np_append(a, v, axis=None):
    return np_concatenate([a, v if isinstance(v, (np.ndarray, list, tuple)) else [v]])


def np_interp(*a, **k): raise SymEscape("np.interp")


def np_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return abs(a - b) <= Fraction(atol) + Fraction(rtol) * abs(b)


def np_array_equal(a, b, **k):
    a, b = lst(a), lst(b)
    if len(a) != len(b):
        return False
    r = True
    for x, y in zip(a, b):
        r = _and(r, x == y)
    return r


def np_bincount(x, weights=None, minlength=0):
    v = [int(e.__index__()) for e in lst(x)]
    n = max([minlength] + [e + 1 for e in v])
    w = lst(weights) if weights is not None else [1] * len(v)
    out = [0 if weights is None else Sym('r', Fraction(0))] * n
    for i, e in enumerate(v):
        out[e] = out[e] + w[i]
    return SArr(out, np.int64 if weights is None else np.float64)


class _AddAt:
    pass


def np_add_at(a, idx, b):
    ii = [int(e.__index__()) for e in lst(idx)]
    bv = lst(b) if isinstance(b, (np.ndarray, list, tuple)) else [b] * len(ii)
    for i, e in zip(ii, bv):
        a[i] = a[i] + e


def np_copy(a, **k):
    return asarr(a).copy()


def np_isin(a, b, **k):
    bv = lst(b)
    out = []
    for e in lst(a):
        r = False
        for y in bv:
            r = _or(r, e == y)
        out.append(r)
    return SArr(out, bool)


def np_flip(a, axis=None):
    return a[::-1]


def np_nan_to_num(a, copy=True, nan=0.0, **k):
    a = asarr(a)
    return SArr([cast(nan, a.ld) if _isnan(e) else e for e in a.raw], a.ld)


def np_prod(a, **k):
    r = 1
    for e in lst(a):
        r = r * e
    return r


def np_roll(a, n, axis=None):
    a = asarr(a)
    return SArr(np.roll(a.raw, int(n.__index__())), a.ld)


def np_repeat(a, n, axis=None):
    a = asarr(a)
    return SArr(np.repeat(a.raw, to_ints(n)), a.ld)


def to_ints(n):
    if isinstance(n, np.ndarray) and n.ndim:
        return np.array([int(e.__index__()) for e in lst(n)])
    return int(n.__index__())


def np_mgc(*a, **k): raise SymEscape("unsupported")


def np_ascont(a, dtype=None, **k): return np_asarray(a, dtype)


def np_swv(x, window_shape, axis=None, **k):
    x = asarr(x)
    w = int(window_shape.__index__())
    return SArr([[x.raw[i + j] for j in range(w)] for i in range(x.size - w + 1)], x.ld)


FUNCS = {
    'sum': np_sum, 'nansum': np_nansum, 'cumsum': np_cumsum, 'mean': np_mean, 'average': np_mean, 'var': np_var, 'std': np_std,
    'nanmean': np_nanmean, 'nanstd': np_nanstd, 'nanvar': np_nanvar, 'max': np_max, 'min': np_min, 'amax': np_max,
    'amin': np_min, 'nanmax': np_nanmax, 'nanmin': np_nanmin, 'any': np_any, 'all': np_all, 'argmax': np_argmax,
    'argmin': np_argmin, 'argsort': np_argsort, 'sort': np_sort, 'median': np_median, 'nanmedian': np_nanmedian,
    'quantile': np_quantile, 'percentile': np_percentile, 'unique': np_unique, 'searchsorted': np_searchsorted,
    'digitize': np_digitize, 'zeros': np_zeros, 'ones': np_ones, 'empty': np_empty, 'full': np_full,
    'empty_like': np_empty_like, 'zeros_like': np_zeros_like, 'ones_like': np_ones_like, 'full_like': np_full_like,
    'arange': np_arange, 'linspace': np_linspace, 'diff': np_diff, 'dot': np_dot, 'where': np_where,
    'nonzero': np_nonzero, 'flatnonzero': np_flatnonzero, 'count_nonzero': np_count_nonzero, 'round': np_round,
    'around': np_round, 'clip': np_clip, 'array': np_array, 'asarray': np_asarray, 'ascontiguousarray': np_ascont,
    'concatenate': np_concatenate, 'append': np_append, 'hstack': np_concatenate, 'isclose': np_isclose,
    'array_equal': np_array_equal, 'bincount': np_bincount, 'copy': np_copy, 'isin': np_isin, 'flip': np_flip,
    'nan_to_num': np_nan_to_num, 'prod': np_prod, 'roll': np_roll, 'repeat': np_repeat, 'lexsort': np_lexsort,
    'sliding_window_view': np_swv, 'abs': lambda a: ufunc('absolute', a),
    'size': lambda a, axis=None: np.size(a.raw if isinstance(a, SArr) else a),
    'shape': lambda a: (a.raw if isinstance(a, SArr) else np.asarray(a)).shape,
    'ndim': lambda a: (a.raw if isinstance(a, SArr) else np.asarray(a)).ndim,
    'may_share_memory': lambda a, b, **k: False, 'atleast_1d': lambda a: asarr(a),
    'result_type': lambda *a: np.result_type(*[x.ld if isinstance(x, SArr) else x for x in a]),
    'can_cast': np.can_cast,
}
for _n in ufn:
    if _n not in FUNCS:
        FUNCS[_n] = (lambda nm: (lambda *a, **k: _ufcall(nm, a, k)))(_n)


def _ufcall(nm, a, k):
    if k.get('out') is not None:
        k['out'][...] = ufunc(nm, *retyped(a, k))
        return k['out']
    if any(hasattr(x, 'to_numpy') and not isinstance(x, np.ndarray) for x in a):
        return getattr(np, nm)(*a, **k)
    return ufunc(nm, *retyped(a, k))


class _UF:
    """callable ufunc object exposing .at/.reduce/.accumulate"""
    def __init__(self, nm):
        self.nm = nm
        self.__name__ = nm

    def __call__(self, *a, **k):
        return FUNCS[self.nm](*a, **k)

    def at(self, a, idx, b):
        if self.nm != 'add':
            raise SymEscape("ufunc.at")
        np_add_at(a, idx, b)

    def reduce(self, a, **k):
        return asarr(a).__array_ufunc__(getattr(np, self.nm), 'reduce', asarr(a))

    def accumulate(self, a, **k):
        return asarr(a).__array_ufunc__(getattr(np, self.nm), 'accumulate', asarr(a))


for _n in ('add', 'maximum', 'minimum', 'logical_or', 'logical_and'):
    _f = FUNCS[_n]
    u = _UF(_n)
    FUNCS[_n + '__'] = _f
    u.__class__ = type('_UF_' + _n, (_UF,), {'__call__': (lambda f: (lambda self, *a, **k: f(*a, **k)))(_f)})
    FUNCS[_n] = u


class _ShimType:
    """np.float64 etc.: usable as dtype and as a conversion function"""
    def __init__(self, t):
        self.t = t
        self.dtype = np.dtype(t)
        self.__name__ = t.__name__

    def __call__(self, v=0):
        if isinstance(v, np.ndarray) and v.ndim:
            return asarr(v, self.dtype)
        if isinstance(v, (Sym, SymB)):
            return cast(v, self.dtype)
        if isinstance(v, str):
            return self.t(v)
        if core.CTX is not None and self.dtype.kind in 'f':
            return cast(v, self.dtype)
        return self.t(v)

    def __eq__(self, o):
        if isinstance(o, _ShimType):
            return self.t is o.t
        try:
            return np.dtype(o) == self.dtype
        except TypeError:
            return False

    def __hash__(self):
        return hash(self.t)

    def __getattr__(self, n):
        return getattr(self.t, n)

    def __instancecheck__(self, x):
        return isinstance(x, self.t) or (isinstance(x, Sym) and ((x.k == 'r') == (self.dtype.kind == 'f')))

    def __or__(self, o): return self.t
    def __ror__(self, o): return self.t

    def __repr__(self):
        return f'<shim {self.t.__name__}>'


class NP(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.__dict__['_t'] = {}

    def __getattr__(self, n):
        if n in FUNCS:
            return FUNCS[n]
        r = getattr(RNP, n)
        if isinstance(r, type) and issubclass(r, np.generic) and r not in (np.generic, np.integer, np.floating, np.number,
                                                                         np.datetime64, np.timedelta64):
            if n not in self._t:
                self._t[n] = _ShimType(r)
            return self._t[n]
        return r


NPSHIM = NP()


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__('math')

    def __getattr__(self, n):
        if n in ('sqrt', 'log', 'exp', 'sin', 'cos', 'log10', 'log1p', 'fabs'):
            return FUNCS[n] if n != 'log' else (lambda a, b=None: ufn['log'](a) if b is None else ufn['log'](a) / ufn['log'](b))
        if n == 'floor':
            return lambda a: floor_(a).toint() if has_sym(a) else math.floor(a)
        if n == 'ceil':
            return lambda a: ceil_(a).toint() if has_sym(a) else math.ceil(a)
        if n in ('isnan', 'isinf', 'isfinite'):
            return ufn[n]
        if n == 'gcd':
            return _gcd
        if n == 'pow':
            return lambda a, b: a ** b
        if n == 'fsum':
            return np_sum
        return getattr(math, n)


def _gcd(*a):
    if not any(isinstance(x, Sym) for x in a):
        return math.gcd(*[int(x) for x in a])
    return math.gcd(*[x.__index__() for x in a])


MATHSHIM = MathShim()


# ---- builtins seen by the code ---------------------------------------------------------
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, float) or (builtins.isinstance(x, Sym) and x.k == 'r')

    def __call__(cls, v=0.0):
        if isinstance(v, (Sym, SymB)):
            r = lift(v)
            return r.real()
        if isinstance(v, np.ndarray) and v.dtype == object:
            return _float(v.item())
        return float(v)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class _float(metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, int) or (builtins.isinstance(x, Sym) and x.k == 'i')

    def __call__(cls, v=0, *a):
        if isinstance(v, (Sym, SymB)):
            return trunc(v)
        if isinstance(v, np.ndarray) and v.dtype == object:
            return _int(v.item())
        return int(v, *a)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


class _int(metaclass=_IntMeta):
    pass


def b_max(*a, **k):
    if k:
        return builtins.max(*a, **k)
    v = list(a[0]) if len(a) == 1 else list(a)
    if not v:
        raise ValueError("max() arg is an empty sequence")
    r = v[0]
    for e in v[1:]:
        if isinstance(r, Sym) or isinstance(e, Sym):
            r = smax(r, e)
        else:
            r = e if e > r else r
    return r


def b_min(*a, **k):
    if k:
        return builtins.min(*a, **k)
    v = list(a[0]) if len(a) == 1 else list(a)
    if not v:
        raise ValueError("min() arg is an empty sequence")
    r = v[0]
    for e in v[1:]:
        if isinstance(r, Sym) or isinstance(e, Sym):
            r = smin(r, e)
        else:
            r = e if e < r else r
    return r


def b_round(x, nd=None):
    if isinstance(x, Sym):
        return x.__round__(nd)
    return builtins.round(x) if nd is None else builtins.round(x, int(nd))


def b_print(*a, **k):
    return None


def b_sum(it, start=0):
    r = start
    for e in it:
        r = r + e
    return r


BUILTINS = {'max': b_max, 'min': b_min, 'round': b_round, 'print': b_print, 'float': _float, 'int': _int, 'sum': b_sum}


class ListShim(list):
    def __getitem__(self, k):
        if par.REC is not None and not isinstance(k, slice):
            par.slot(self, k, False)
        return list.__getitem__(self, k)

    def __setitem__(self, k, v):
        if par.REC is not None and not isinstance(k, slice):
            par.slot(self, k, True)
        list.__setitem__(self, k, v)
