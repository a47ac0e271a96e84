"""helpers shared by harnesses"""
import numpy as np


def closes(c, nb, n, name='ci', first_nonempty=True):
    """bar close positions -1 <= c0 <= c1 <= ... <= n-1, every pattern (enumerated by forking)"""
    a = c.iarr(name, nb + 1, -1, n - 1, sort='asc')
    if first_nonempty:
        c.assume(a.v[1] >= 0)
    idx = [c.concretize(v.it()) if c.sym else int(v) for v in a.v]
    return a, idx


def fmax(c, vals):
    r = vals[0]
    for v in vals[1:]:
        r = c.max(r, v)
    return r


def fmin(c, vals):
    r = vals[0]
    for v in vals[1:]:
        r = c.min(r, v)
    return r


def total(vals, zero=0):
    r = zero
    for v in vals:
        r = r + v
    return r


def median(c, vals):
    s = c.sorted(vals)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / c.x(2.0)


def mixed(c, name, fill, at, dtype=np.float64, **kw):
    """a long input: concrete values everywhere except at the listed positions, which are symbolic"""
    from sx.api import A
    if dtype == np.int8:
        f = c.iarr(name, len(at), kw['lo'], kw['hi'], dtype=dtype)
    else:
        f = c.farr(name, len(at), **kw)
    vals = [c.x(x) for x in fill]
    for k, i in enumerate(at):
        vals[i] = f.v[k]
    if c.sym:
        from sx.arr import SArr
        return A(SArr(list(vals), dtype), vals)
    a = np.array(fill, dtype=dtype)
    for k, i in enumerate(at):
        a[i] = f.a[k]
    return A(a, c.xs(a))


def zigzag(n, base, step, m):
    """n multiples of a power of two around base"""
    return [base + step * ((i * 7) % m) for i in range(n)]
