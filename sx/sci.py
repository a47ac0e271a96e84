"""Models of the few scipy.stats / numpy.polyfit routines the package calls, over symbolic values
(their textbook definitions; anything else falls through to the real module)."""
import math
import types

from . import arr
from .core import SymB, SymEscape

nan = math.nan


def special(e):
    return isinstance(e, float) and (e != e or math.isinf(e))


def num(e):
    return e._int() if isinstance(e, SymB) else float(e) if hasattr(e, 'dtype') else e


def _vals(a):
    from .arr import asarr
    return [num(e) for e in asarr(a).raw.ravel()]


def ols(x, y):
    x, y = _vals(x), _vals(y)
    if len(x) != len(y):
        raise ValueError('all the input array dimensions must match')
    n = len(x)
    if n < 2:
        raise SymEscape('regression on fewer than two points')
    if any(special(e) for e in x + y):
        return nan, nan
    mx = sum(x[1:], x[0]) / n
    my = sum(y[1:], y[0]) / n
    sxx = sum((a - mx) * (a - mx) for a in x)
    if sxx == 0:
        raise SymEscape('regression on a single abscissa')
    sl = sum((a - mx) * (b - my) for a, b in zip(x, y)) / sxx
    return sl, my - sl * mx


class LR(tuple):
    slope = property(lambda s: s[0])
    intercept = property(lambda s: s[1])


def linregress(x, y=None, alternative='two-sided', **k):
    if y is None:
        raise SymEscape('linregress with one argument')
    sl, ic = ols(x, y)
    return LR((sl, ic, None, None, None))


def kurtosis(a, axis=0, fisher=True, bias=True, nan_policy='propagate', **k):
    if not bias:
        raise SymEscape('unbiased kurtosis')
    v = _vals(a)
    if nan_policy == 'omit':
        v = [e for e in v if not (isinstance(e, float) and e != e)]
    if not v or any(special(e) for e in v):
        return nan
    n = len(v)
    m = sum(v[1:], v[0]) / n
    d = [(e - m) * (e - m) for e in v]
    m2 = sum(d[1:], d[0]) / n
    if m2 == 0:
        return nan
    m4 = sum(e * e for e in d) / n
    r = m4 / (m2 * m2)
    return r - 3 if fisher else r


def polyfit(x, y, deg, **k):
    if deg != 1 or k:
        raise SymEscape('polyfit')
    x, y = arr.asarr(x), arr.asarr(y)
    if len(x) != len(y):
        raise TypeError('expected x and y to have same length')
    return arr.asarr(list(ols(x, y)))


class Stats(types.ModuleType):
    def __getattr__(self, n):
        from scipy import stats
        return getattr(stats, n)


STATS = Stats('scipy.stats')
STATS.linregress, STATS.kurtosis = linregress, kurtosis


def install(mods):
    try:
        from scipy import stats
    except Exception:
        return
    real = {id(stats): STATS, id(stats.linregress): linregress, id(stats.kurtosis): kurtosis}
    for m in mods:
        for k, v in list(m.__dict__.items()):
            if id(v) in real:
                m.__dict__[k] = real[id(v)]
