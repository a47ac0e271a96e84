"""The harness interface: one harness function runs symbolically (all values) and concretely
(replay of a counterexample or of a sampled path on the unmodified implementation)."""
import math
import warnings
from fractions import Fraction

import numpy as np
import z3

from . import core, fn
from .core import Sym, SymB, UNINIT, Uninit, UninitRead, SymEscape, PathDone, lift, mkb, bterm, ite, compare

FINITE = 10 ** 6


class A:
    """an input array: .a for the code, .v (list of exact numbers) for the oracle"""
    def __init__(self, a, v):
        self.a = a
        self.v = v

    def __len__(self):
        return len(self.v)

    def __getitem__(self, i):
        return self.v[i]


def single(mod, case):
    """SINGLE: True, or the substrings of the names of the cases whose results are single precision by design"""
    v = getattr(mod, 'SINGLE', ())
    return v is True or (v is not False and any(x in case for x in v))


class SymH(core.Ctx):
    sym = True
    f32 = False
    thin = None      # {'at': positions}: arrays longer than 'min' are concrete except there (long inputs)

    def thinned(self, name, n):
        """None, or the set of positions that stay symbolic"""
        if not self.thin:
            return None
        at = self.thin['at']
        if n <= self.thin.get('min', 8):
            if name not in self.thin.get('fill', {}):
                return None
            at = at.get(name, ()) if isinstance(at, dict) else ()
        at = at.get(name, at.get('*', ())) if isinstance(at, dict) else at
        return {k % n for k in at}

    def filler(self, name, i, lo, hi, pos=False):
        """a deterministic multiple of 1/4 within the range"""
        f = self.thin.get('fill', {}).get(name)
        if f is not None:
            return Fraction(f(i) if callable(f) else f[i])
        r = (i * 7 + sum(map(ord, name)) * 5 + (i // 13) * 3) % 13
        if lo is None and hi is None:
            return Fraction(r + 1, 2) if pos else Fraction(r - 6, 2)
        lo = Fraction(lo if lo is not None else 0)
        hi = min(Fraction(hi), lo + 1000) if hi is not None else lo + 8
        q = max((hi - lo) / 16, Fraction(1, 4))
        v = lo + (int(q * 4) / Fraction(4)) * (r + (1 if pos else 0))
        return v if v <= hi else lo

    # ---- inputs
    def farr(self, name, n, lo=None, hi=None, nan=None, pos=False, inf=None, dtype=np.float64):
        from .arr import SArr
        ts, vals, els = [], [], []
        keep = self.thinned(name, n)
        for i in range(n):
            special = None
            if nan is not None and (nan[i] if not callable(nan) else nan(i)):
                special = math.nan
            ts.append(None if special is not None else z3.Real(f'{name}_{i}'))
            if special is not None:
                els.append(special)
                continue
            if keep is not None and i not in keep:
                v = self.filler(name, i, lo, hi, pos)
                ts[-1] = core._z(v)
                els.append(Sym('r', v))
                continue
            t = ts[-1]
            if keep is not None and name in self.thin.get('rng', {}):
                self._rng(t, *self.thin['rng'][name])
            self._rng(t, lo, hi, pos)
            els.append(Sym('r', t))
        self.inputs.append((name, 'farr', ts, {'dtype': str(np.dtype(dtype)), 'sp': [None if t is not None else 'nan' for t in ts]}))
        if pos:
            for e in els:
                if isinstance(e, Sym):
                    self.note_sign(e, 1)
        return A(SArr(list(els), dtype), els)

    def _rng(self, t, lo, hi, pos=False):
        q = core._z if z3.is_real(t) else (lambda x: z3.IntVal(int(x)))
        if lo is not None:
            self.add(t >= q(Fraction(lo)))
        if hi is not None:
            self.add(t <= q(Fraction(hi)))
        if pos:
            self.add(t > 0)
        if lo is None and hi is None and z3.is_real(t):
            self.add(z3.And(t >= -FINITE, t <= FINITE))
        elif hi is None and z3.is_real(t):
            self.add(t <= FINITE)

    def parr(self, name, n):
        """prices with exact logarithms (p, log p related by monotonicity; both symbolic)"""
        from .arr import SArr
        ps, ls, els, keep = [], [], [], self.thinned(name, n)
        for i in range(n):
            p, l = z3.Real(f'{name}_{i}'), z3.Real(f'log_{name}_{i}')
            if keep is not None and i not in keep:
                k = (i * 7 + (i // 13) * 3) % 9 - 4
                k = self.thin.get('fill', {}).get(name, {i: k})[i]      # powers of two
                self.add(z3.And(p == core._z(Fraction(2) ** k), l == core._z(fn.LN2 * k)))
                s = Sym('r', p, mono={(name, i): 1})
                self.logvar[(name, i)] = fn.LN2 * k
                self.logged.add(f'log_{name}_{i}')
                els.append(s)
                ps.append(p)
                ls.append(l)
                continue
            self.add(z3.And(p > 0, p <= FINITE))
            if self.thin and name in self.thin.get('rng', {}):
                self._rng(p, *self.thin['rng'][name])
            self.add(z3.And((p > 1) == (l > 0), (p < 1) == (l < 0)))
            for j, (q, m) in enumerate(zip(ps, ls)):
                if keep is None or j in keep:
                    self.add(z3.And((p > q) == (l > m), (p < q) == (l < m)))
            if keep is not None:
                for k in range(-4, 5):
                    q, m = core._z(Fraction(2) ** k), core._z(fn.LN2 * k)
                    self.add(z3.And((p > q) == (l > m), (p < q) == (l < m)))
            ps.append(p)
            ls.append(l)
            s = Sym('r', p, mono={(name, i): 1})
            self.logvar[(name, i)] = l
            self.logged.add(f'log_{name}_{i}')
            els.append(s)
            tab = z3.Or(*[z3.And(p == core._z(Fraction(2) ** k), l == core._z(fn.LN2 * k)) for k in range(-4, 5)])
            if keep is not None:
                tab = z3.Or(tab, *[z3.And(p == core._z(Fraction(2) ** k * j / 8), l == core._z(Fraction(math.log(2.0 ** k * j / 8)))) for k in range(-6, 7) for j in range(9, 16)])
            self.nice_extra.append(tab)
        self.inputs.append((name, 'farr', list(ps), {'dtype': 'float64', 'sp': [None] * n}))
        return A(SArr(list(els), np.float64), els)

    def iarr(self, name, n, lo, hi, dtype=np.int64, sort=None):
        """sort: None | 'asc' (non-decreasing) | 'strict'"""
        from .arr import SArr
        ts = [z3.Int(f'{name}_{i}') for i in range(n)]
        keep = self.thinned(name, n)
        if keep is not None:
            wide = max(1, min(10 ** 9, (hi - lo) // n))
            for i in range(n):
                if i not in keep:
                    f = self.thin.get('fill', {}).get(name)
                    v = (f(i) if callable(f) else f[i]) if f is not None else min(hi, lo + wide * (i - (i % 5 == 4 and sort != 'strict')) if sort else lo + (i * 7 + i // 13) % min(7, hi - lo + 1))
                    ts[i] = z3.IntVal(int(v))
        for i, t in enumerate(ts):
            self._rng(t, lo, hi)
            if i and sort:
                self.add(ts[i - 1] <= t if sort == 'asc' else ts[i - 1] < t)
        self.inputs.append((name, 'iarr', ts, {'dtype': str(np.dtype(dtype))}))
        els = [Sym('i', t.as_long() if z3.is_int_value(t) else t) for t in ts]
        if lo is not None and lo > 0:
            for e in els:
                self.note_sign(e, 1)
        return A(SArr(list(els), dtype), els)

    def barr(self, name, n):
        from .arr import SArr
        ts = [z3.Bool(f'{name}_{i}') for i in range(n)]
        keep = self.thinned(name, n)
        if keep is not None:
            f = self.thin.get('fill', {}).get(name)
            ts = [t if i in keep else z3.BoolVal(bool(f[i]) if f is not None else i * i % 11 < 5) for i, t in enumerate(ts)]
        self.inputs.append((name, 'barr', ts, {'dtype': 'bool'}))
        els = [SymB(t) if keep is None or i in keep else z3.is_true(t) for i, t in enumerate(ts)]
        return A(SArr(list(els), bool), els)

    def f(self, name, lo=None, hi=None, pos=False):
        t = z3.Real(name)
        if self.thin and name in self.thin.get('fix', {}):
            v = Fraction(self.thin['fix'][name])
            self.inputs.append((name, 'f', [core._z(v)], {}))
            return Sym('r', v)
        self._rng(t, lo, hi, pos)
        self.inputs.append((name, 'f', [t], {}))
        s = Sym('r', t)
        if pos or (lo is not None and lo > 0):
            self.note_sign(s, 1)
        return s

    def i(self, name, lo, hi):
        t = z3.Int(name)
        if self.thin and name in self.thin.get('fix', {}):
            self.inputs.append((name, 'i', [z3.IntVal(self.thin['fix'][name])], {}))
            return Sym('i', int(self.thin['fix'][name]))
        self._rng(t, lo, hi)
        self.inputs.append((name, 'i', [t], {}))
        s = Sym('i', t)
        if lo is not None and lo > 0:
            self.note_sign(s, 1)
        return s

    def b(self, name):
        t = z3.Bool(name)
        self.inputs.append((name, 'b', [t], {}))
        return SymB(t)

    def choice(self, name, n):
        """solver variable in 0..n-1, enumerated by path forking"""
        t = z3.Int(name)
        self.add(z3.And(t >= 0, t <= n - 1))
        self.inputs.append((name, 'i', [t], {}))
        return self.concretize(t)

    def cf(self, v):
        """a concrete float parameter, exact for symbolic use"""
        v = float(v)
        return v if v != v or abs(v) == math.inf else Sym('r', Fraction(v))

    def ci(self, v):
        return Sym('i', int(v))

    def fconst(self, vals, dtype=np.float64):
        from .arr import asarr
        a = asarr(list(vals), dtype)
        return A(a, [self.x(e) for e in a.raw])

    iconst = fconst

    # ---- numbers for the oracle
    def x(self, v):
        if isinstance(v, (Sym, SymB, bool, np.bool_, Uninit)):
            return v
        if v is None:
            return math.nan
        r = lift(v)
        if r is None:
            if isinstance(v, np.ndarray) and v.size == 1:
                return self.x(v.item())
            raise SymEscape(f"cannot read a value of type {type(v)}")
        return r

    def xs(self, a):
        from .arr import SArr
        if hasattr(a, 'to_numpy') and not isinstance(a, np.ndarray):
            a = a.to_numpy()
        if isinstance(a, SArr):
            a = a.raw
        return [self.x(e) for e in (np.asarray(a, dtype=object).ravel() if not isinstance(a, (list, tuple)) else a)]

    def arr2(self, a):
        """2-d / arbitrary: list of rows"""
        return [self.xs(r) for r in a]

    ite = staticmethod(ite)
    max = staticmethod(core.smax)
    min = staticmethod(core.smin)

    def sqrt(self, v):
        return fn.sqrt(v)

    def log(self, v):
        return fn.log(v)

    def exp(self, v):
        return fn.exp(v)

    def uf(self, name, v):
        return fn.uf(name, v)

    def floor(self, v):
        return core.floor_(v)

    def sorted(self, vals):
        from .arr import sorted_terms
        return sorted_terms(list(vals))

    def num(self, b):
        """bool -> 0/1"""
        return b._int() if isinstance(b, SymB) else int(bool(b))

    def And(self, *bs):
        if any(isinstance(b, (bool, np.bool_)) and not b for b in bs):
            return False
        return mkb(z3.And(*[bterm(b) for b in bs])) if bs else True

    def Or(self, *bs):
        return mkb(z3.Or(*[bterm(b) for b in bs])) if bs else False

    def Not(self, b):
        return (not b) if isinstance(b, (bool, np.bool_)) else mkb(z3.Not(b.t))

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def isnan(self, v):
        return isinstance(v, (float, np.floating)) and v != v

    # ---- obligations
    def obs(self, name, v):
        self.obs_list.append((name, v))

    def eq(self, got, want, label, tol=1e-6, atol=None, obs=True):
        if obs and len(self.obs_list) < 40:
            self.obs_list.append((label, got))
        if isinstance(got, Uninit):
            return self.prove(False, label)
        got = self.x(got)
        want = self.x(want)
        gs, ws = isinstance(got, float), isinstance(want, float)
        if gs or ws:
            return self.prove(bool(gs and ws and ((got != got and want != want) or got == want)), label)
        if isinstance(got, (SymB, bool, np.bool_)) and isinstance(want, (SymB, bool, np.bool_)):
            return self.prove(mkb(bterm(got) == bterm(want)), label)
        if isinstance(got, (SymB, bool, np.bool_)):
            got = lift(got)
        if isinstance(want, (SymB, bool, np.bool_)):
            want = lift(want)
        if tol == 0 or (got.k == 'i' and want.k == 'i'):
            with self.exact():
                return self.prove(got == want, label)
        with self.exact():
            c = got == want
            at = tol if atol is None else atol

            def weak():
                d = abs(got - want)
                return d <= Fraction(at) + Fraction(tol) * abs(want)
            return self.prove(c, label, weak)

    def eqs(self, got, want, label, tol=1e-6, atol=None, obs=True):
        src, got, want = got, self.xs_keep(got), list(want)
        if len(got) != len(want):
            return self.prove(False, label + ':length')
        self.double(src, label)
        for i, (g, w) in enumerate(zip(got, want)):
            self.eq(g, w, f'{label}', tol, atol, obs)

    def double(self, a, label):
        if not self.f32 and str(getattr(a, 'dtype', '')) in ('float32', 'float16'):
            self.prove(False, label + ': in double precision')

    def xs_keep(self, a):
        return self.xs(a)

    def call(self, f, *a, raises=(), **k):
        """run the implementation; any exception that is not expected is a violation"""
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return f(*a, **k)
        except raises as e:
            return e
        except (SymEscape, PathDone):
            raise
        except UninitRead:
            self.prove(False, 'uninitialised memory is never read')
            raise PathDone()
        except z3.Z3Exception as e:
            raise SymEscape(str(e))
        except Exception as e:
            self.last_exc = e
            self.prove(False, f'no exception ({type(e).__name__})')
            raise PathDone()

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1


# ----------------------------------------------------------------------------------------
class ConcH:
    """concrete run of a harness"""
    sym = False
    f32 = False    # results may be single precision by design

    def __init__(self, inputs):
        self.inp = inputs
        self.failed = []       # (label, detail)
        self.obs_list = []
        self.reached = {}
        self.cut = False

    # inputs
    def _vals(self, name):
        e = self.inp.get(name)
        if e is None:
            raise core.MissingInput()
        out = []
        for v in e['vals']:
            if v is None:
                out.append(None)
            elif isinstance(v, list):
                out.append(Fraction(v[0], v[1]))
            else:
                out.append(v)
        return out

    def farr(self, name, n, lo=None, hi=None, nan=None, pos=False, inf=None, dtype=np.float64):
        v = [math.nan if x is None else float(x) for x in self._vals(name)]
        a = np.array(v, dtype=dtype)
        return A(a, self.xs(a))

    def parr(self, name, n):
        return self.farr(name, n)

    def iarr(self, name, n, lo, hi, dtype=np.int64, sort=None):
        a = np.array(self._vals(name), dtype=dtype)
        return A(a, self.xs(a))

    def barr(self, name, n):
        a = np.array([bool(x) for x in self._vals(name)], dtype=bool)
        return A(a, [bool(x) for x in a])

    def f(self, name, lo=None, hi=None, pos=False):
        return float(self._vals(name)[0])

    def i(self, name, lo, hi):
        return int(self._vals(name)[0])

    def b(self, name):
        return bool(self._vals(name)[0])

    def choice(self, name, n):
        return int(self._vals(name)[0])

    def cf(self, v): return float(v)
    def ci(self, v): return int(v)

    def fconst(self, vals, dtype=np.float64):
        a = np.array([v for v in vals], dtype=dtype)
        return A(a, self.xs(a))
    iconst = fconst

    def x(self, v):
        if v is None:
            return math.nan
        if isinstance(v, (bool, np.bool_)):
            return bool(v)
        if isinstance(v, (int, np.integer)):
            return int(v)
        if isinstance(v, Fraction):
            return v
        if isinstance(v, (float, np.floating)):
            v = float(v)
            return v if v != v or abs(v) == math.inf else Fraction(v)
        if isinstance(v, np.ndarray) and v.size == 1:
            return self.x(v.item())
        if hasattr(v, 'item'):
            return self.x(v.item())
        return v

    def xs(self, a):
        if hasattr(a, 'to_numpy') and not isinstance(a, np.ndarray):
            a = a.to_numpy()
        return [self.x(e) for e in (a.ravel() if isinstance(a, np.ndarray) else a)]

    xs_keep = xs

    def arr2(self, a):
        return [self.xs(r) for r in a]

    @staticmethod
    def ite(c, a, b): return a if c else b
    @staticmethod
    def max(a, b):
        return b if b > a else a
    @staticmethod
    def min(a, b):
        return b if a > b else a

    def sqrt(self, v):
        if isinstance(v, float) and v != v or v < 0:
            return math.nan
        return self.x(math.sqrt(v))

    def log(self, v):
        if isinstance(v, float) and v != v:
            return v
        return math.nan if v < 0 else (-math.inf if v == 0 else self.x(math.log(v)))

    def exp(self, v):
        return self.x(math.exp(v))

    def uf(self, name, v):
        return self.x(float(getattr(np, name)(float(v))))

    def floor(self, v):
        return math.floor(v)

    def sorted(self, vals):
        nan = [v for v in vals if isinstance(v, float) and v != v]
        return sorted([v for v in vals if not (isinstance(v, float) and v != v)]) + nan

    def num(self, b): return int(bool(b))
    def And(self, *bs): return all(bool(b) for b in bs)
    def Or(self, *bs): return any(bool(b) for b in bs)
    def Not(self, b): return not b
    def Implies(self, a, b): return (not a) or bool(b)
    def isnan(self, v): return isinstance(v, (float, np.floating)) and v != v

    def assume(self, c):
        if not c:
            self.cut = True
            raise PathDone()

    def prefer(self, c):
        pass

    def feasible(self):
        pass

    def concretize(self, v): return int(v)

    def exact(self):
        class N:
            def __enter__(s): return None
            def __exit__(s, *a): return False
        return N()

    def prove(self, cond, label, weak=None):
        self.reach(label)
        if not bool(cond):
            if weak is not None and bool(weak() if callable(weak) else weak):
                return True
            self.failed.append((label, ''))
            return False
        return True

    def obs(self, name, v):
        self.obs_list.append((name, v))

    def eq(self, got, want, label, tol=1e-6, atol=None, obs=True):
        self.reach(label)
        if obs and len(self.obs_list) < 40:
            self.obs_list.append((label, got))
        g, w = self.x(got), self.x(want)
        gs, ws = isinstance(g, float), isinstance(w, float)
        if gs or ws:
            ok = gs and ws and ((g != g and w != w) or g == w)
        elif tol == 0:
            ok = g == w
        else:
            at = tol if atol is None else atol
            ok = abs(g - w) <= (at + tol * abs(w)) * 0.5
        if not ok:
            self.failed.append((label, f'got {show(g)} expected {show(w)}'))
        return ok

    def eqs(self, got, want, label, tol=1e-6, atol=None, obs=True):
        if not self.f32 and str(getattr(got, 'dtype', '')) in ('float32', 'float16'):
            self.failed.append((label + ': in double precision', str(got.dtype)))
        got, want = self.xs(got), list(want)
        if len(got) != len(want):
            self.reach(label + ':length')
            self.failed.append((label + ':length', f'{len(got)} values, expected {len(want)}'))
            return
        for g, w in zip(got, want):
            self.eq(g, w, label, tol, atol, obs)

    def call(self, f, *a, raises=(), **k):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return f(*a, **k)
        except raises as e:
            return e
        except Exception as e:
            self.failed.append((f'no exception ({type(e).__name__})', str(e)[:300]))
            raise PathDone()

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1


def show(v):
    if isinstance(v, (Fraction, int)) and not isinstance(v, bool):
        return repr(float(v)) if isinstance(v, Fraction) else str(v)
    return repr(v)
