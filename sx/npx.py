"""More numpy: axis arguments on tables and the functions a rewrite of a loop would reach for."""
import builtins
import math
from fractions import Fraction

import numpy as np

from . import arr, core, fn
from .arr import SArr, asarr, lst, cast, elem, FUNCS, ufunc, has_sym, _isnan, _isinf, zero_of
from .core import Sym, SymB, SymEscape, lift, ite


def is2(a):
    return isinstance(a, np.ndarray) and a.ndim == 2


def axised(f, red=True, dt=None):
    """f works on flat arrays; along an axis of a table it is applied line by line"""
    pos = 1 if f in (arr.np_quantile, arr.np_percentile) else 0

    def g(a, *args, axis=None, keepdims=False, **k):
        if len(args) > pos:
            axis, args = args[pos], args[:pos] + args[pos + 1:]
        if isinstance(a, (list, tuple)) and a and isinstance(a[0], np.ndarray):
            a = SArr([list(asarr(r).raw) for r in a], asarr(a[0]).ld)
        if axis is None or not is2(a):
            return f(a, *args, **k)
        a = asarr(a)
        ax = int(axis) % 2
        rows = [SArr(list(r), a.ld) for r in (a.raw if ax == 1 else a.raw.T)]
        out = [f(r, *args, **k) for r in rows]
        if red:
            ld = dt or (np.dtype(np.int64) if f in (arr.np_argmax, arr.np_argmin) else np.dtype(bool) if f in (arr.np_any, arr.np_all) else
                        a.ld if f in (arr.np_max, arr.np_min) else arr.infer(out))
            o = SArr(out, ld)
            return SArr([[e] for e in o.raw] if ax == 1 else [list(o.raw)], ld) if keepdims else o
        t = [list(r.raw) for r in out]
        m = SArr(t, out[0].ld)
        return m if ax == 1 else SArr(m.raw.T.copy(), m.ld)
    g.__name__ = f.__name__
    return g


def average(a, axis=None, weights=None, **k):
    if weights is None:
        return FUNCS['mean'](a, axis=axis)
    if axis is not None and is2(a):
        raise SymEscape('weighted average over an axis')
    w = asarr(weights)
    s = arr.np_sum(w)
    if bool(s == 0):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    return arr.np_dot(a, w) / s


def diff(a, n=1, axis=-1, prepend=None, append=None):
    a = asarr(a)
    if prepend is not None:
        a = arr.np_concatenate([[prepend] if not isinstance(prepend, np.ndarray) or prepend.ndim == 0 else prepend, a])
    if append is not None:
        a = arr.np_concatenate([a, [append] if not isinstance(append, np.ndarray) or append.ndim == 0 else append])
    for _ in range(int(n)):
        if a.ndim == 2:
            a = SArr([[y - x for x, y in zip(r[:-1], r[1:])] for r in (a.raw if axis in (-1, 1) else a.raw.T)], a.ld)
        else:
            a = arr.np_diff(a)
    return a


def nancumsum(a, axis=None, **k):
    return arr.np_cumsum(SArr([zero_of(asarr(a).ld) if _isnan(e) else e for e in lst(a)], asarr(a).ld))


def cumprod(a, axis=None, **k):
    out, r = [], 1
    for e in lst(a):
        r = r * e
        out.append(r)
    return SArr(out, asarr(a).ld)


def take(a, i, axis=None, **k):
    return asarr(a)[i] if not isinstance(i, (list, tuple)) else asarr(a)[np.array([int(x.__index__()) for x in i], dtype=int)]


def compress(m, a, axis=None, **k):
    return asarr(a)[asarr(m)]


def extract(m, a):
    return asarr(a)[asarr(m)]


def outer(a, b, **k):
    A, B = asarr(a), asarr(b)
    return SArr([[x * y for y in B.raw] for x in A.raw], np.promote_types(A.ld, B.ld))


def convolve(a, v, mode='full'):
    A, V = asarr(a), asarr(v)
    ld = np.promote_types(A.ld, V.ld)
    x, y = list(A.raw), list(V.raw)
    if len(y) > len(x):
        x, y = y, x
    n, m = len(x), len(y)
    full = []
    for k in range(n + m - 1):
        r = zero_of(ld)
        for j in range(m):
            if 0 <= k - j < n:
                r = r + x[k - j] * y[j]
        full.append(r)
    if mode == 'valid':
        full = full[m - 1:n]
    elif mode == 'same':
        s = (m - 1) // 2
        full = full[s:s + n]
    return SArr(full, ld)


def correlate(a, v, mode='valid'):
    if len(v) > len(a):
        raise SymEscape('correlate with a longer kernel')
    return convolve(a, asarr(v)[::-1], mode)


def divmod_(a, b, **k):
    return FUNCS['floor_divide'](a, b), FUNCS['mod'](a, b)


def signbit(a, **k):
    if isinstance(a, np.ndarray) and a.ndim:
        return SArr([_isneg(e) for e in lst(a)], bool)
    return _isneg(elem(a))


def _isneg(e):
    return bool(np.signbit(e)) if isinstance(e, float) else e < 0


def copysign(a, b, **k):
    def one(x, y):
        n = _isneg(y)
        x = abs(x)
        return ite(n, -x, x) if isinstance(n, SymB) else (-x if n else x)
    if (isinstance(a, np.ndarray) and a.ndim) or (isinstance(b, np.ndarray) and b.ndim):
        n = a.size if isinstance(a, np.ndarray) and a.ndim else b.size
        A = lst(a) if isinstance(a, np.ndarray) and a.ndim else [a] * n
        B = lst(b) if isinstance(b, np.ndarray) and b.ndim else [b] * n
        return SArr([one(elem(x), elem(y)) for x, y in zip(A, B)], np.float64)
    return one(elem(a), elem(b))


def hypot(a, b, **k):
    return FUNCS['sqrt'](FUNCS['square'](a) + FUNCS['square'](b))


def nanarg(f):
    def g(a, axis=None, **k):
        v = lst(a)
        ok = [i for i, e in enumerate(v) if not _isnan(e)]
        if not ok:
            raise ValueError('All-NaN slice encountered')
        return ok[f(SArr([v[i] for i in ok], asarr(a).ld))]
    return g


def nanquantile(a, q, axis=None, **k):
    v = [e for e in lst(a) if not _isnan(e)]
    return arr.np_quantile(v, q) if v else math.nan


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False, **k):
    def one(x, y):
        x, y = elem(x), elem(y)
        if _isnan(x) or _isnan(y):
            return bool(equal_nan and _isnan(x) and _isnan(y))
        if _isinf(x) or _isinf(y):
            return bool(_isinf(x) and _isinf(y) and x == y)
        return abs(x - y) <= Fraction(atol) + Fraction(rtol) * abs(y)
    A, B = (isinstance(a, np.ndarray) and a.ndim), (isinstance(b, np.ndarray) and b.ndim)
    if A or B:
        n = len(lst(a)) if A else len(lst(b))
        return SArr([one(x, y) for x, y in zip(lst(a) if A else [a] * n, lst(b) if B else [b] * n)], bool)
    return one(a, b)


def allclose(a, b, **k):
    r = isclose(a, b, **k)
    return arr.np_all(r) if isinstance(r, np.ndarray) else r


def ptp(a, axis=None, **k):
    return FUNCS['max'](a, axis=axis) - FUNCS['min'](a, axis=axis)


def stack(xs, axis=0, **k):
    xs = [asarr(x) for x in xs]
    if any(x.ndim != 1 for x in xs):
        raise SymEscape('stacking tables')
    ld = xs[0].ld
    for x in xs[1:]:
        ld = np.promote_types(ld, x.ld)
    m = SArr([[cast(e, ld) for e in x.raw] for x in xs], ld)
    return m if axis == 0 else SArr(m.raw.T.copy(), ld)


def column_stack(xs, **k):
    return stack(xs, axis=1)


def tile(a, n):
    a = asarr(a) if isinstance(a, (np.ndarray, list, tuple)) else asarr([a])
    return SArr(list(a.raw) * int(n.__index__()), a.ld)


def delete(a, i, axis=None):
    a = asarr(a)
    ix = {int(x.__index__()) % a.size for x in (lst(i) if isinstance(i, (list, tuple, np.ndarray)) else [i])}
    return SArr([e for j, e in enumerate(a.raw) if j not in ix], a.ld)


def insert(a, i, v, axis=None):
    a = asarr(a)
    l = list(a.raw)
    l.insert(int(i.__index__()), cast(v, a.ld))
    return SArr(l, a.ld)


def setdiff1d(a, b, assume_unique=False):
    u = arr.np_unique(a)
    m = arr.np_isin(u, b)
    return u[asarr([not bool(e) for e in m.raw], bool)]


def intersect1d(a, b, **k):
    u = arr.np_unique(a)
    return u[arr.np_isin(u, b)]


def union1d(a, b):
    return arr.np_unique(arr.np_concatenate([a, b]))


def argwhere(a):
    return SArr([[int(i)] for i in arr.np_flatnonzero(a)], np.int64)


def ravel(a, **k):
    return asarr(a).ravel()


def reshape(a, shape, **k):
    a = asarr(a)
    sh = tuple(int(s.__index__()) for s in (shape if isinstance(shape, (tuple, list)) else (shape,)))
    return SArr(a.raw.reshape(sh), a.ld)


def copyto(dst, src, where=None, **k):
    if where is None:
        dst[...] = src
        return
    m = [bool(e) for e in lst(where)]
    s = lst(src) if isinstance(src, np.ndarray) and src.ndim else [src] * len(m)
    for i, t in enumerate(m):
        if t:
            dst[i] = s[i]


def select(conds, choices, default=0):
    r = default
    for c, v in zip(conds[::-1], choices[::-1]):
        r = arr.np_where(c, v, r)
    return r


def inner(a, b):
    return arr.np_dot(a, b)


def histogram(a, bins=10, range=None, weights=None, **k):
    if not isinstance(bins, np.ndarray):
        raise SymEscape('histogram with computed bins')
    e = lst(bins)
    x = lst(a)
    w = lst(weights) if weights is not None else [1] * len(x)
    out = [0 if weights is None else zero_of(np.dtype(float))] * (len(e) - 1)
    for v, q in zip(x, w):
        if bool(v < e[0]) or bool(v > e[-1]):
            continue
        i = arr.np_searchsorted(bins, v, 'right') - 1
        i = builtins.min(int(i), len(e) - 2)
        out[i] = out[i] + q
    return SArr(out, np.int64 if weights is None else np.float64), bins


def partition(a, kth, axis=-1, **k):
    return arr.np_sort(a)          # one of the arrangements partition may return; the kth values are those of every one


def nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    def one(e):
        if _isnan(e):
            return nan
        if _isinf(e):
            big = float(np.finfo(np.float64).max)
            return (posinf if posinf is not None else big) if e > 0 else (neginf if neginf is not None else -big)
        return e
    if not (isinstance(a, np.ndarray) and a.ndim):
        return one(elem(a))
    a = asarr(a)
    r = SArr([cast(one(e), a.ld) for e in a.raw], a.ld)
    if not copy:
        a[...] = r
        return a
    return r


def install():
    for n in ('sum', 'nansum', 'mean', 'var', 'std', 'nanmean', 'nanstd', 'nanvar', 'max', 'min', 'amax', 'amin', 'nanmax', 'nanmin', 'any', 'all',
              'argmax', 'argmin', 'median', 'nanmedian', 'quantile', 'percentile', 'count_nonzero', 'prod'):
        f = FUNCS[n]
        FUNCS[n] = axised(f)
    for n in ('cumsum', 'sort', 'argsort'):
        FUNCS[n] = axised(FUNCS[n], red=False)
    FUNCS.update({
        'average': average, 'diff': diff, 'nancumsum': nancumsum, 'cumprod': cumprod, 'take': take, 'compress': compress, 'extract': extract,
        'outer': outer, 'convolve': convolve, 'correlate': correlate, 'divmod': divmod_, 'signbit': signbit, 'copysign': copysign, 'hypot': hypot,
        'nanargmax': nanarg(arr.np_argmax), 'nanargmin': nanarg(arr.np_argmin), 'nanquantile': nanquantile,
        'nanpercentile': lambda a, q, **k: nanquantile(a, Fraction(q) / 100), 'isclose': isclose, 'allclose': allclose, 'ptp': ptp,
        'stack': stack, 'vstack': stack, 'column_stack': column_stack, 'tile': tile, 'delete': delete, 'insert': insert, 'setdiff1d': setdiff1d,
        'intersect1d': intersect1d, 'union1d': union1d, 'argwhere': argwhere, 'ravel': ravel, 'reshape': reshape, 'copyto': copyto, 'select': select,
        'inner': inner, 'vdot': inner, 'matmul': lambda a, b, **k: arr.np_dot(a, b), 'histogram': histogram, 'partition': partition,
        'nan_to_num': nan_to_num, 'in1d': arr.np_isin, 'flipud': arr.np_flip, 'ediff1d': lambda a, **k: arr.np_diff(a), 'squeeze': lambda a, **k: asarr(a).ravel(),
    })



def _method(n):
    return lambda self, *a, **k: FUNCS[n](self, *a, **k)


for _n in ('sum', 'mean', 'std', 'var', 'min', 'max', 'argmax', 'argmin', 'argsort', 'cumsum', 'any', 'all', 'prod', 'cumprod', 'take', 'ptp'):
    setattr(SArr, _n, _method(_n))
SArr.__matmul__ = lambda self, o: arr.np_dot(self, o)
SArr.__rmatmul__ = lambda self, o: arr.np_dot(o, self)
SArr.reshape = lambda self, *sh, **k: reshape(self, sh[0] if len(sh) == 1 else sh)
install()
