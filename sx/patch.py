"""Load finmlkit with numba disabled and point the names its modules use at the symbolic
versions.  The repository's functions themselves are never rewritten: they are the functions
imported from /repo's working tree, executed by the Python interpreter."""
import importlib
import math
import os
import pkgutil
import sys
import types

import numpy as np

_DONE = False
POISON = False


def load_real():
    """import every finmlkit module (whatever JIT mode is active)"""
    if '/repo' not in sys.path:
        sys.path.insert(0, '/repo')
    os.environ.setdefault('FMK_LOG_FILE_PATH', os.path.join('/tmp', f'sx_fmk_{os.getpid()}.log'))
    import logging
    logging.disable(logging.CRITICAL)
    import finmlkit
    mods = ['finmlkit']
    for m in pkgutil.walk_packages(finmlkit.__path__, 'finmlkit.'):
        mods.append(m.name)
    for m in mods:
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    return [sys.modules[m] for m in sorted(sys.modules) if m == 'finmlkit' or m.startswith('finmlkit.')]


def install():
    """symbolic execution mode"""
    global _DONE
    if _DONE:
        return
    _DONE = True
    assert os.environ.get('NUMBA_DISABLE_JIT') == '1'
    from . import arr, npx
    mods = load_real()
    import numba
    try:
        from numba.typed import List as NL
    except Exception:
        NL = None
    npf = {}
    for n, f in arr.FUNCS.items():
        r = getattr(np, n, None)
        if r is not None:
            try:
                npf[r] = f
            except TypeError:
                pass
    try:
        npf[np.lib.stride_tricks.sliding_window_view] = arr.np_swv
    except Exception:
        pass
    mth = {}
    for n in dir(math):
        f = getattr(math, n)
        if callable(f):
            mth[f] = getattr(arr.MATHSHIM, n)
    for m in mods:
        d = m.__dict__
        for k, v in list(d.items()):
            if v is np:
                d[k] = arr.NPSHIM
            elif v is math:
                d[k] = arr.MATHSHIM
            elif NL is not None and v is NL:
                d[k] = arr.ListShim
            elif isinstance(v, (types.BuiltinFunctionType, types.FunctionType, np.ufunc)) or type(v).__name__ == '_ArrayFunctionDispatcher':
                if v in npf:
                    d[k] = npf[v]
                elif v in mth:
                    d[k] = mth[v]
            elif isinstance(v, type) and issubclass(v, np.generic) and k in ('float64', 'int64', 'float32', 'int32', 'int8'):
                d[k] = getattr(arr.NPSHIM, k)
        for k, v in arr.BUILTINS.items():
            if k not in d:
                d[k] = v
    from . import par
    par.install(mods)
    from . import sci
    arr.FUNCS['polyfit'] = sci.polyfit
    npf[np.polyfit] = sci.polyfit
    sci.install(mods)
    patch_pandas()
    from . import frames
    frames.install()
    from . import times
    times.install()


def poison_empty():
    """concrete replay without JIT: memory returned by np.empty holds arbitrary bytes; make
    them conspicuous.  Only np.empty / np.empty_like are replaced."""
    mods = load_real()

    class P(types.ModuleType):
        def __getattr__(self, n):
            if n == 'empty':
                return _poison
            if n == 'empty_like':
                return lambda a, dtype=None, **k: _poison(np.shape(a), dtype or np.asarray(a).dtype)
            return getattr(np, n)
    p = P('numpy')
    for m in mods:
        for k, v in list(m.__dict__.items()):
            if v is np:
                m.__dict__[k] = p


def _poison(shape, dtype=float, **k):
    a = np.empty(shape, dtype=dtype)
    if a.dtype.kind == 'f':
        a.fill(-7.77e30)
    elif a.dtype.kind in 'iu':
        a.fill(77 if a.dtype.itemsize == 1 else 7777)
    return a


# ----------------------------------------------------------------------------------------
def _from_repo(fr):
    return fr.f_code.co_filename.startswith('/repo/')


def patch_pandas():
    import pandas as pd
    from . import arr, core
    from .arr import SArr, to_plain, asarr
    from .core import Sym, SymB, SymEscape

    def conv(x):
        if isinstance(x, SArr):
            return to_plain(x)
        if isinstance(x, dict):
            return {k: conv(v) for k, v in x.items()}
        if isinstance(x, list) and any(isinstance(e, (Sym, SymB)) for e in x):
            return to_plain(asarr(x))
        return x

    def obj_with_sym(a):
        return isinstance(a, np.ndarray) and a.dtype == object and a.size and any(
            isinstance(e, (Sym, SymB)) for e in a.ravel())

    S, D = pd.Series, pd.DataFrame
    s_init, d_init = S.__init__, D.__init__

    def series_init(self, data=None, index=None, dtype=None, *a, **k):
        if dtype is not None and dtype == object and isinstance(data, (list, tuple, dict)):
            if not isinstance(data, dict):                # elements are kept as they are
                o = np.empty(len(data), dtype=object)
                for i, e in enumerate(data):
                    o[i] = e
                data = o
        else:
            data = conv(data)
        if obj_with_sym(data) and dtype is not None and dtype == object:
            dtype = None
        if dtype is None and isinstance(data, dict) and any(isinstance(v, Sym) for v in data.values()) and any(v is None or isinstance(v, float) for v in data.values()) \
                and all(v is None or isinstance(v, (Sym, float)) or type(v) is int for v in data.values()):
            data = {k: arr.cast(v, np.float64) for k, v in data.items()}      # pandas stores such a series as float64
        if isinstance(data, (Sym, SymB)):
            data = np.array([data] * len(index), dtype=object)
        if obj_with_sym(data) and dtype is not None:
            data, dtype = asarr(data, dtype).raw.copy(), None
        if isinstance(index, SArr):
            index = to_plain(index)
        s_init(self, data, index, dtype, *a, **k)

    def df_init(self, data=None, index=None, columns=None, dtype=None, *a, **k):
        if isinstance(index, SArr):
            index = to_plain(index)
        d_init(self, conv(data), index, columns, dtype, *a, **k)
    S.__init__ = series_init
    D.__init__ = df_init

    s_tonp, s_values, s_astype = S.to_numpy, S.values, S.astype

    def to_numpy(self, dtype=None, *a, **k):
        r = s_tonp(self)
        if obj_with_sym(r):
            return asarr(r, dtype)
        return s_tonp(self, arr.unshim(dtype), *a, **k)

    def values(self):
        r = s_values.fget(self)
        if obj_with_sym(r):
            return arr.column(r)
        if (isinstance(r, np.ndarray) and r.dtype.kind in 'fiub' and _from_repo(sys._getframe(1))):
            return asarr(r)
        return r
    S.to_numpy = to_numpy
    S.values = property(values)

    def astype(self, dtype, *a, **k):
        r = s_tonp(self)
        if obj_with_sym(r):
            return S(asarr(r, dtype).raw.copy(), index=self.index, name=self.name)
        return s_astype(self, arr.unshim(dtype), *a, **k)
    S.astype = astype
    D_set = D.__setitem__

    def df_setitem(self, key, value):
        if isinstance(value, SArr):
            value = to_plain(value)
        return D_set(self, key, value)
    D.__setitem__ = df_setitem

    def numpy_division(f):
        def g(self, *a, **k):
            c = core.CTX
            if c is None:
                return f(self, *a, **k)
            old, c.div0 = c.div0, 'numpy'
            try:
                return f(self, *a, **k)
            finally:
                c.div0 = old
        return g
    S._arith_method = numpy_division(S._arith_method)
    D._arith_method = numpy_division(D._arith_method)
