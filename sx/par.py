"""Parallel loops: the schedule as a variable.

A kernel compiled with parallel=True runs the iterations of its `prange` loops in any order and at
the same time.  Its result is the same for every schedule if (1) no cell of memory that an iteration
writes is read or written by another iteration and (2) no scalar is carried from one iteration to the
next.  (1) is decided on every path by recording, for every cell of every array, which iterations
read and write it; (2) by solving for inputs on which two orders of the iterations give different
results.  `lockstep` runs the iterations of the real source in threads that change over after every
few source lines (concrete replay)."""
import ast
import inspect
import sys
import textwrap
import threading
import types

REC = None
ORDER = None        # order of the iterations of parallel loops in Python execution (None: forward)
_FLAG = {}


class Recorder:
    def __init__(self):
        self.cur = None
        self.keep = []
        self.w = {}
        self.r = {}
        self.conflicts = 0
        self.loops = 0
        self.cells = 0

    def begin(self):
        self.w, self.r = {}, {}
        self.loops += 1

    def end(self):
        self.cur = None
        for a, ws in self.w.items():
            if len(ws) > 1 or (self.r.get(a, set()) - ws):
                self.conflicts += 1
        self.cells += len(self.w)

    def note(self, d, addrs, obj):
        self.keep.append(obj)
        for a in addrs:
            d.setdefault(a, set()).add(self.cur)


def read(arr, key=None):
    if REC is not None and REC.cur is not None:
        REC.note(REC.r, cells(arr, key), arr)


def write(arr, key=None):
    if REC is not None and REC.cur is not None:
        REC.note(REC.w, cells(arr, key), arr)


def cells(arr, key):
    import numpy as np
    b = np.ndarray.view(arr, np.ndarray)
    p = b.__array_interface__['data'][0]
    a = np.full(b.shape, p, dtype=np.int64)
    for d, (n, s) in enumerate(zip(b.shape, b.strides)):
        a = a + (np.arange(n, dtype=np.int64) * s).reshape([-1 if k == d else 1 for k in range(b.ndim)])
    if key is not None:
        a = a[key]
    return np.ravel(a).tolist()


def slot(lst, k, w):
    if REC is not None and REC.cur is not None:
        REC.note(REC.w if w else REC.r, [('list', id(lst), k)], lst)


def order(its, kind):
    if kind == 'reverse':
        return its[::-1]
    if kind == 'inside-out':
        return its[len(its) // 2:] + its[:len(its) // 2]
    return its


def prange(*a):
    """stands for numba.prange in the modules of the package when they run as Python"""
    its = list(range(*[x.__index__() for x in a]))
    if ORDER is None and REC is None or not _compiled_parallel(sys._getframe(1).f_code) or (REC is not None and REC.cur is not None):
        return its
    return _iterations(order(its, ORDER), REC)


def _iterations(its, rec):
    if rec is None:
        yield from its
        return
    rec.begin()
    for i in its:
        rec.cur = i
        yield i
        rec.cur = None
    rec.end()


def _compiled_parallel(code):
    """is this code object a function decorated with parallel=True"""
    k = (code.co_filename, code.co_firstlineno)
    if k not in _FLAG:
        _FLAG[k] = False
        try:
            for n in ast.walk(ast.parse(open(code.co_filename).read())):
                if isinstance(n, ast.FunctionDef):
                    l = min([d.lineno for d in n.decorator_list] + [n.lineno])
                    _FLAG[(code.co_filename, l)] = _on(n)
        except (OSError, SyntaxError):
            pass
    return _FLAG[k]


def _on(t):
    return any(isinstance(d, ast.Call) and any(k.arg == 'parallel' and getattr(k.value, 'value', True) for k in d.keywords) for d in t.decorator_list)


def install(mods):
    import numba
    for m in mods:
        for k, v in list(m.__dict__.items()):
            if v is numba.prange:
                m.__dict__[k] = prange


def plain(f):
    return getattr(f, 'py_func', f)


def tree(f):
    f = plain(f)
    return ast.parse(textwrap.dedent(inspect.getsource(f))).body[0]


def is_prange(n):
    return isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and getattr(n.iter.func, 'id', getattr(n.iter.func, 'attr', None)) == 'prange'


def parallel(f, seen=None):
    """the function, or one it calls, is compiled with parallel=True and has a prange loop"""
    f = plain(f)
    seen = set() if seen is None else seen
    if f.__code__ in seen:
        return False
    seen.add(f.__code__)
    if _compiled_parallel(f.__code__) and any(is_prange(n) for n in ast.walk(tree(f))):
        return True
    for nm in f.__code__.co_names:
        g = f.__globals__.get(nm)
        if g is not None and isinstance(plain(g), types.FunctionType) and plain(g).__code__.co_filename.startswith('/repo/finmlkit') and parallel(g, seen):
            return True
    return False


def reordered(f, kind):
    """the function with its own parallel loops in another order (as Python)"""
    f = plain(f)

    def pr(*a):
        return order(list(range(*[int(x) for x in a])), kind)
    g = dict(f.__globals__)
    g['prange'] = pr
    return types.FunctionType(f.__code__, g, f.__name__, f.__defaults__, f.__closure__)


# ------------------------------------------------------------------ concrete interleavings
class _Ret(ast.NodeTransformer):
    def visit_For(self, n): return n
    def visit_While(self, n): return n
    def visit_FunctionDef(self, n): return n
    def visit_Continue(self, n): return ast.copy_location(ast.Return(value=None), n)


class _Out(ast.NodeTransformer):
    def __init__(self, fn):
        self.k = 0
        self.fn = fn

    def visit_For(self, n):
        if not is_prange(n):
            return self.generic_visit(n)
        self.k += 1
        name = f'_iteration_{self.k}'
        body = [_Ret().visit(s) for s in n.body]
        st, aug = {}, set()
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                    aug.add(x.target.id)
                elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    st.setdefault(x.id, 0)
        augt = {id(x.target) for s in n.body for x in ast.walk(s) if isinstance(x, ast.AugAssign)}
        plain_st = {x.id for s in n.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and id(x) not in augt}
        red = sorted(aug - plain_st)
        if red:
            body = [ast.Nonlocal(names=red)] + body
        fd = ast.FunctionDef(name=name, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=n.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]),
                             body=body, decorator_list=[], returns=None, type_params=[])
        call = ast.Expr(ast.Call(func=ast.Name('_in_parallel', ast.Load()), args=[ast.Name(name, ast.Load())] + n.iter.args, keywords=[]))
        return [ast.copy_location(fd, n), ast.copy_location(call, n)]


def lockstep(f, quantum):
    f = plain(f)
    t = tree(f)
    t.decorator_list = []
    t = _Out(t).visit(t)
    t.returns = None
    for a in t.args.args:
        a.annotation = None
    m = ast.fix_missing_locations(ast.Module(body=[t], type_ignores=[]))
    g = dict(f.__globals__)
    g['_in_parallel'] = lambda body, *a: run_threads(body, list(range(*[int(x) for x in a])), quantum)
    exec(compile(m, '<iterations of %s>' % f.__name__, 'exec'), g)
    r = g[t.name]
    r.__defaults__ = f.__defaults__
    return r


def run_threads(body, its, quantum):
    """all iterations at once, one line (or `quantum` lines) at a time each, round robin"""
    cv = threading.Condition()
    live = list(range(len(its)))
    turn = [0]
    errs = []

    def advance(k):
        p = live.index(k)
        turn[0] = live[(p + 1) % len(live)]
        cv.notify_all()

    def worker(k):
        left = [quantum]

        def local(fr, ev, arg):
            if ev == 'line':
                left[0] -= 1
                if left[0] <= 0:
                    left[0] = quantum
                    with cv:
                        advance(k)
                        cv.wait_for(lambda: turn[0] == k)
            return local

        def glob(fr, ev, arg):
            return local if fr.f_code is body.__code__ else None
        with cv:
            cv.wait_for(lambda: turn[0] == k)
        sys.settrace(glob)
        try:
            body(its[k])
        except Exception as e:
            errs.append(e)
        finally:
            sys.settrace(None)
            with cv:
                if len(live) > 1:
                    advance(k)
                live.remove(k)
                cv.notify_all()
    if not its:
        return
    th = [threading.Thread(target=worker, args=(k,), daemon=True) for k in live]
    for x in th:
        x.start()
    for x in th:
        x.join(60)
    if errs:
        raise errs[0]
