"""Stand-ins for pandas' compiled Series methods on columns of symbolic values.

pandas computes rolling sums, exponential averages, clipping ... in compiled code that cannot
run on symbolic elements.  For such columns (and only for those) the methods below compute the
documented result by its definition, in exact arithmetic; columns of ordinary numbers go to
pandas itself.  Concrete replays use pandas throughout, and the sampled path models compare the
two."""
import math
from fractions import Fraction

import numpy as np

from . import core, fn
from .core import Sym, SymB, SymEscape, Uninit, lift

nan = math.nan


def special(e):
    return e is None or (isinstance(e, (float, np.floating)) and (e != e or e in (math.inf, -math.inf)))


def isnan(e):
    return e is None or (isinstance(e, (float, np.floating)) and e != e)


def install():
    import pandas as pd
    from . import arr
    from .arr import SArr, to_plain, asarr, ufn
    S = pd.Series
    rawvals = S.to_numpy                      # already patched: SArr when a Sym is inside

    def values(s):
        v = s._values
        return list(v) if isinstance(v, np.ndarray) else list(np.asarray(v, dtype=object))

    def symbolic(s):
        v = s._values
        return (isinstance(v, np.ndarray) and v.dtype == object and v.size > 0 and core.CTX is not None
                and all(isinstance(e, (Sym, SymB, float, int, np.floating, np.integer, np.bool_, Fraction)) or e is None for e in v))

    def make(vals, s, name='same'):
        vals = [nan if e is None else e for e in vals]
        return S(to_plain(asarr(vals)) if vals else np.array([], dtype=float), index=s.index, name=s.name if name == 'same' else name)

    def num(e):
        if isinstance(e, SymB):
            return e._int()
        return e

    class numpy_div:
        def __enter__(self):
            self.old, core.CTX.div0 = core.CTX.div0, 'numpy'

        def __exit__(self, *a):
            core.CTX.div0 = self.old

    def guarded(name, f):
        orig = getattr(S, name)

        def g(self, *a, **k):
            if not symbolic(self):
                return orig(self, *a, **k)
            with numpy_div():
                return f(self, *a, **k)
        g.__name__ = name
        setattr(S, name, g)
        return orig

    # ---- reductions over a list of present values
    def total(v):
        v = [num(e) for e in v]
        if any(special(e) for e in v):
            r = 0.0
            for e in v:
                r = r + e
            return r
        r = 0 if v and all(isinstance(e, (int, np.integer)) or isinstance(e, Sym) and e.k == 'i' for e in v) else Sym('r', Fraction(0))
        for e in v:
            r = r + lift(e)
        return r

    def mean_(v):
        return total(v) / len(v) if v else nan

    def var_(v, ddof=1):
        if len(v) <= ddof:
            return nan
        m = mean_(v)
        return total([(e - m) * (e - m) for e in v]) / (len(v) - ddof)

    def std_(v, ddof=1):
        r = var_(v, ddof)
        return r if special(r) else fn.sqrt(r)

    def min_(v):
        return arr._red(v, arr._npmin, 'minimum') if v else nan

    def max_(v):
        return arr._red(v, arr._npmax, 'maximum') if v else nan

    # ---- rolling windows
    class Rolling:
        def __init__(self, s, window, min_periods=None, center=False, win_type=None, on=None, axis=0, closed=None, step=None, method='single', expanding=False):
            if not expanding and (not isinstance(window, (int, np.integer)) or isinstance(window, bool)):
                raise SymEscape(f'rolling window {window!r}')
            if not expanding and window < 0:
                raise ValueError('window must be an integer 0 or greater')
            if center or win_type or closed not in (None, 'right') or step not in (None, 1):
                raise SymEscape('rolling options')
            if not expanding and min_periods is not None and min_periods > window:
                raise ValueError(f'min_periods {min_periods} must be <= window {window}')
            self.s, self.w, self.exp = s, window, expanding
            self.mp = (1 if expanding else window) if min_periods is None else min_periods
            self.v = [nan if special(num(e)) else num(e) for e in values(s)]

        def windows(self):
            for i in range(len(self.v)):
                yield i, self.v[0 if self.exp else max(0, i - self.w + 1):i + 1]

        def red(self, f, need=1):
            out = []
            with numpy_div():
                for i, w in self.windows():
                    p = [e for e in w if not isnan(e)]
                    out.append(f(p) if len(p) >= max(self.mp, need) else nan)
            return make(out, self.s)

        def sum(self, *a, **k): return self.red(total, 0)
        def mean(self, *a, **k): return self.red(mean_)
        def min(self, *a, **k): return self.red(min_)
        def max(self, *a, **k): return self.red(max_)
        def std(self, ddof=1, *a, **k): return self.red(lambda v: std_(v, ddof))
        def var(self, ddof=1, *a, **k): return self.red(lambda v: var_(v, ddof))
        def count(self, *a, **k): return self.red(lambda v: float(len(v)), 0)
        def median(self, *a, **k): return self.red(lambda v: arr.np_median(asarr(v)))

        def apply(self, func, raw=False, args=None, kwargs=None, **k):
            out = []
            with numpy_div():
                for i, w in self.windows():
                    if sum(not isnan(e) for e in w) < max(self.mp, 1):
                        out.append(nan)
                        continue
                    x = asarr(list(w))
                    out.append(func(x if raw else S(to_plain(x), index=self.s.index[i - len(w) + 1:i + 1]), *(args or ()), **(kwargs or {})))
            return make(out, self.s)

        def corr(self, other, pairwise=None, ddof=1, **k):
            b = [nan if special(num(e)) else num(e) for e in values(other)]
            out = []
            with numpy_div():
                for i in range(len(self.v)):
                    lo = max(0, i - self.w + 1)
                    p = [(x, y) for x, y in zip(self.v[lo:i + 1], b[lo:i + 1]) if not isnan(x) and not isnan(y)]
                    if len(p) < max(self.mp, 1) or len(p) < 2:
                        out.append(nan)
                        continue
                    mx, my = mean_([x for x, _ in p]), mean_([y for _, y in p])
                    cov = total([(x - mx) * (y - my) for x, y in p])
                    out.append(cov / (fn.sqrt(total([(x - mx) * (x - mx) for x, _ in p])) * fn.sqrt(total([(y - my) * (y - my) for _, y in p]))))
            return make(out, self.s)

        def __getattr__(self, n):
            raise SymEscape(f'rolling.{n}')

    class Ewm:
        def __init__(self, s, com=None, span=None, halflife=None, alpha=None, min_periods=0, adjust=True, ignore_na=False, axis=0, times=None, method='single'):
            if times is not None or halflife is not None:
                raise SymEscape('ewm options')
            if span is not None:
                if span < 1:
                    raise ValueError('span must satisfy: span >= 1')
                com = (Fraction(span) - 1) / 2
            elif alpha is not None:
                com = (1 - Fraction(alpha)) / Fraction(alpha)
            elif com is None:
                raise ValueError('Must pass one of comass, span, halflife, or alpha')
            self.a = 1 / (1 + Fraction(com))
            self.s, self.adjust, self.ig, self.mp = s, adjust, ignore_na, max(int(min_periods or 0), 1)

        def mean(self, *a, **k):
            v = [nan if special(num(e)) else num(e) for e in values(self.s)]
            out, cur, nobs = [], nan, 0
            with core.CTX.exact():
                ow, nw = Fraction(1), (Fraction(1) if self.adjust else self.a)
                for i, e in enumerate(v):
                    obs = not isnan(e)
                    nobs += obs
                    if i == 0 or isnan(cur):
                        if obs:
                            cur = lift(e)
                    elif obs or not self.ig:
                        ow *= 1 - self.a
                        if obs:
                            cur = (cur * Sym('r', ow) + e * Sym('r', nw)) / Sym('r', ow + nw)
                            ow = ow + nw if self.adjust else Fraction(1)
                    out.append(cur if nobs >= self.mp else nan)
            return make(out, self.s)

        def __getattr__(self, n):
            raise SymEscape(f'ewm.{n}')

    from pandas.core.window import rolling as pdroll
    raw_corr = pdroll.Rolling.corr

    def corr_other(self, other=None, *a, **k):
        if isinstance(other, S) and symbolic(other) and isinstance(self.obj, S):
            return Rolling(self.obj, self.window, self.min_periods).corr(other, *a, **k)
        return raw_corr(self, other, *a, **k)
    pdroll.Rolling.corr = corr_other
    guarded('rolling', lambda s, window, *a, **k: Rolling(s, window, *a, **k))
    guarded('expanding', lambda s, min_periods=1, **k: Rolling(s, None, min_periods, expanding=True))
    guarded('ewm', lambda s, *a, **k: Ewm(s, *a, **k))

    def clip(s, lower=None, upper=None, *, axis=None, inplace=False, **k):
        lower, upper = (None if isnan(b) else b for b in (lower, upper))
        if inplace or any(hasattr(b, '__len__') for b in (lower, upper)):
            raise SymEscape('clip options')
        if lower is not None and upper is not None and bool(lower > upper):
            lower, upper = upper, lower
        out = []
        for e in values(s):
            if not isnan(e):
                e = num(e)
                if upper is not None:
                    e = arr._npmin(lift(e), lift(upper))
                if lower is not None:
                    e = arr._npmax(lift(e), lift(lower))
            out.append(e)
        return make(out, s)
    guarded('clip', clip)

    def shift(s, periods=1, freq=None, axis=0, fill_value=None, **k):
        if freq is not None or not isinstance(periods, (int, np.integer)):
            raise SymEscape('shift options')
        v, n = values(s), len(s)
        fv = nan if fill_value is None else fill_value
        return make([v[i - periods] if 0 <= i - periods < n else fv for i in range(n)], s)
    guarded('shift', shift)
    guarded('diff', lambda s, periods=1: s - s.shift(periods))

    def pad(v):
        out, last = [], nan
        for e in v:
            last = last if isnan(e) else e
            out.append(last)
        return out

    def pct_change(s, periods=1, fill_method='pad', limit=None, freq=None, **k):
        if freq is not None or limit is not None or fill_method not in ('pad', 'ffill', None) and 'no_default' not in str(fill_method):
            raise SymEscape('pct_change options')
        b = make(pad(values(s)), s) if fill_method is not None else s
        return b / b.shift(periods) - 1
    guarded('pct_change', pct_change)
    guarded('ffill', lambda s, **k: make(pad(values(s)), s))
    guarded('abs', lambda s: make([e if special(e) and isnan(e) else abs(num(e)) for e in values(s)], s))

    def cumsum(s, *a, **k):
        r, out = Sym('r', Fraction(0)) if any(isinstance(e, (float, np.floating)) or isinstance(e, Sym) and e.k == 'r' for e in values(s)) else 0, []
        for e in values(s):
            if isnan(e):
                out.append(nan)
            else:
                r = r + num(e)
                out.append(r)
        return make(out, s)
    guarded('cumsum', cumsum)

    def reduction(name, f, empty=nan):
        def g(s, *a, **k):
            if k.get('skipna') is False and any(isnan(e) for e in values(s)):
                return nan
            v = [num(e) for e in values(s) if not isnan(e)]
            return f(v, *[x for x in a if not isinstance(x, str)], **{q: x for q, x in k.items() if q == 'ddof'}) if v else empty
        guarded(name, g)
    reduction('sum', total, 0)
    reduction('mean', mean_)
    reduction('var', var_)
    reduction('std', std_)
    reduction('min', min_)
    reduction('max', max_)

    # ---- numpy functions applied to a column
    old = arr._ufcall

    def ufcall(nm, a, k):
        ser = [x for x in a if isinstance(x, S)]
        if ser and k.get('out') is None and any(symbolic(x) for x in ser) and nm in ufn:
            for x in ser[1:]:
                if not x.index.equals(ser[0].index):
                    raise SymEscape('columns with different indexes')
            r = arr.ufunc(nm, *[asarr(values(x)) if isinstance(x, S) else x for x in a])
            names = {x.name for x in ser}
            return make(list(r.raw), ser[0], ser[0].name if len(names) == 1 else None)
        return old(nm, a, k)
    arr._ufcall = ufcall
