"""C44: parallel loops give the same result under every schedule."""
import numpy as np
from sx import par
from sx.core import Sym
from .kernels import K

BOUNDS = ('every compiled function with a parallel loop, 3 to 6 elements (up to 5 iterations in flight), every order of the iterations and every interleaving of '
          'their memory accesses')
ASSUMPTIONS = ['scalars assigned in an iteration belong to it and in-place updates of outer scalars are reductions, as numba defines',
               'numba compiles loop bodies faithfully; rounding differences of reordered sums are outside']


def parts(r):
    out = []
    for x in (r if isinstance(r, tuple) else (r,)):
        if x is None:
            continue
        if isinstance(x, (list,)) or type(x).__name__ in ('List', 'ListShim'):
            for y in x:
                out += parts(y)
        elif isinstance(x, np.ndarray):
            out += list(np.ndarray.view(x, np.ndarray).ravel())
        else:
            out.append(x)
    return out


ABSTRACT = {'comp_bar_trade_size_features', 'cusum_test_rolling'}      # logarithms of general terms are abstract


def run(c, fn, a, order=None, rec=None):
    par.ORDER, par.REC = order, rec
    try:
        return parts(c.call(fn, *a))
    finally:
        par.ORDER = par.REC = None


def schedule(c, name, n):
    fn, args, _, _ = K[name]
    if not par.parallel(fn):
        c.prove(True, 'no parallel loop')
        return
    a = args(c, n)
    obs = name.rsplit('.', 1)[1] not in ABSTRACT
    if not c.sym:
        ref = c.xs(run(c, fn, a))
        for kind in ('reverse', 'inside-out'):
            c.eqs(run(c, par.reordered(fn, kind), a, kind), ref, 'same result in every order of the iterations', obs=obs)
        for q in (1, 2, 3):
            try:
                r = par.lockstep(fn, q)(*a)
            except (NameError, SyntaxError):           # a value carried from one iteration to the next: decided by the orders above
                break
            c.eqs(parts(r), ref, 'same result for interleaved iterations', obs=False)
        return
    rec = par.Recorder()
    ref = c.xs(run(c, fn, a, 'forward', rec))
    if rec.conflicts:       # show it on distinct values where there are any
        xs = [c.x(e) for x in a if isinstance(x, np.ndarray) for e in np.ndarray.view(x, np.ndarray).ravel() if isinstance(e, Sym) and not e.const]
        bool(c.And(*[e != g for i, e in enumerate(xs) for g in xs[:i]]))
    c.prove(rec.conflicts == 0, 'same result for interleaved iterations')
    for kind in ('reverse', 'inside-out'):
        c.eqs(run(c, fn, a, kind), ref, 'same result in every order of the iterations', obs=obs)


def cases(tier):
    out = []
    for name, (fn, a, ns, wt) in K.items():
        p = par.parallel(fn)
        for n in ns if tier == 'quick' else ns + (ns[-1] + 1,):
            out.append(dict(name=f'{name}-{n}', fn=schedule, params=dict(name=name, n=n), weight=wt if p else 1))
    return out
