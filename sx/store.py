"""An in-memory stand-in for pandas.HDFStore used during symbolic execution (replays use the
real one): keys hold copies of frames, `select` evaluates index conditions on symbolic times."""
import os
import re

import numpy as np
import pandas as pd

from .core import SymEscape
from . import times

FILES = {}
_COND = re.compile(r"^\(?\s*index\s*(<=|>=|<|>|==|=)\s*(?:pd\.)?Timestamp\(\s*['\"]?(.+?)['\"]?\s*\)\s*\)?$")


def reset():
    FILES.clear()
    times.TOKENS.clear()


def _k(key):
    return key if key.startswith('/') else '/' + key


class MemStore:
    def __init__(self, path, mode='a', *a, **k):
        self.path = os.path.abspath(str(path))
        self.mode = mode
        if mode in ('r', 'r+') and self.path not in FILES:
            raise FileNotFoundError(self.path)
        if mode == 'w' or self.path not in FILES:
            FILES[self.path] = {}
        self.d = FILES[self.path]

    def __enter__(self): return self
    def __exit__(self, *a): return False
    def open(self, *a, **k): return self
    def close(self): pass
    def flush(self, *a, **k): pass
    def keys(self, *a): return sorted(self.d)
    def __contains__(self, key): return _k(key) in self.d
    def __iter__(self): return iter(self.keys())
    def __len__(self): return len(self.d)

    def _w(self):
        if self.mode == 'r':
            raise ValueError('file is opened read-only')

    def put(self, key, value, format=None, **k):
        self._w()
        self.d[_k(key)] = value.copy()

    def __setitem__(self, key, value): self.put(key, value)

    def append(self, key, value, **k):
        self._w()
        key = _k(key)
        if key in self.d:
            if list(self.d[key].columns) != list(value.columns):
                raise ValueError('columns of the appended table differ')
            value = pd.concat([self.d[key], value])
        self.d[key] = value.copy()

    def remove(self, key, where=None, **k):
        self._w()
        if where is not None:
            raise SymEscape('remove with a condition')
        key = _k(key)
        if key not in self.d:
            raise KeyError(f'No object named {key} in the file')
        del self.d[key]

    def get(self, key):
        key = _k(key)
        if key not in self.d:
            raise KeyError(f'No object named {key} in the file')
        return self.d[key].copy()

    __getitem__ = get

    def get_storer(self, key):
        class S:
            pass
        s = S()
        s.nrows = len(self.get(key))
        return s

    def get_node(self, key):
        return self.d.get(_k(key))

    def select(self, key, where=None, start=None, stop=None, columns=None, **k):
        df = self.get(key)
        if where is None or (isinstance(where, (str, list)) and not len(where)):
            r = df
        else:
            parts = [p for w in ([where] if isinstance(where, str) else list(where)) for p in w.split('&')]
            keep = np.ones(len(df), dtype=bool)
            for p in parts:
                m = _COND.match(p.strip())
                if not m:
                    raise SymEscape(f'condition {p!r} of a table query')
                op, v = m.groups()
                v = times.TOKENS[v] if v in times.TOKENS else pd.Timestamp(v)
                for i, t in enumerate(df.index):
                    if keep[i]:
                        keep[i] = bool({'<=': lambda: t <= v, '>=': lambda: t >= v, '<': lambda: t < v, '>': lambda: t > v}.get(op, lambda: t == v)())
            r = df[keep]
        if start is not None or stop is not None:
            r = r.iloc[start:stop]
        return r[columns] if columns is not None else r


class Future:
    def __init__(self, f, a, k):
        self.e = self.r = None
        try:
            self.r = f(*a, **k)
        except Exception as e:
            self.e = e

    def result(self, timeout=None):
        if self.e is not None:
            raise self.e
        return self.r

    def exception(self): return self.e
    def done(self): return True


class InlineExecutor:
    def __init__(self, max_workers=None, *a, **k):
        pass

    def __enter__(self): return self
    def __exit__(self, *a): return False
    def shutdown(self, *a, **k): pass
    def submit(self, f, *a, **k): return Future(f, a, k)

    def map(self, f, *its, **k):
        return [f(*a) for a in zip(*its)]


class InlinePool:
    def __init__(self, *a, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass
    def join(self): pass
    def terminate(self): pass
    def map(self, f, it, *a): return [f(x) for x in it]
    def imap(self, f, it, *a): return (f(x) for x in it)
    imap_unordered = imap
    def starmap(self, f, it, *a): return [f(*x) for x in it]

    def apply_async(self, f, a=(), k=None):
        r = Future(f, a, k or {})
        r.get = r.result
        return r

    def starmap_async(self, f, it, *a):
        r = Future(self.starmap, (f, it), {})
        r.get = r.result
        return r
    map_async = lambda self, f, it, *a: self.starmap_async(f, [(x,) for x in it])


class _MP:
    """the multiprocessing module with pools that run in this process"""
    Pool = InlinePool

    def get_context(self, *a): return self

    def __getattr__(self, n):
        import multiprocessing
        return getattr(multiprocessing, n)


def installed(order=None):
    """patch HDFStore and the process pool for the duration of a harness (symbolic mode)"""
    import contextlib
    import sys

    @contextlib.contextmanager
    def cm():
        old, saved = pd.HDFStore, []
        reset()
        pd.HDFStore = MemStore
        for nm in ('finmlkit.bar.data_model', 'finmlkit.bar.io'):
            m = sys.modules[nm]
            for a, v in (('ProcessPoolExecutor', InlineExecutor), ('ThreadPoolExecutor', InlineExecutor),
                         ('as_completed', lambda fs, timeout=None: [list(fs)[i] for i in (order(len(fs)) if order else range(len(fs)))]), ('multiprocessing', _MP()), ('Pool', InlinePool)):
                if hasattr(m, a):
                    saved.append((m, a, getattr(m, a)))
                    setattr(m, a, v)
        try:
            yield 'mem.h5'
        finally:
            pd.HDFStore = old
            for m, a, v in saved:
                setattr(m, a, v)
            reset()
    return cm()
