"""Symbolic numpy: the contracts assumed of numpy (the trusted base), each function given
by its documented result as a closure / axiom over mathematical integers and reals.
Functions without an entry, applied to symbolic arguments, make the path Unsupported
(the function under verification is then undecided, never 'proved')."""
import z3, math
import numpy as np
from .core import *
from . import core
from .arr import *
from .arr import _b, _shifted_candidates as shifted_candidates, _trigger_candidates as trigger_candidates
from .strs import Text, TextArr, Char

# --------------------------------------------------------------- extended reals (nan / inf)
EXT = z3.Datatype('Ext')
EXT.declare('fin', ('val', R)); EXT.declare('pinf'); EXT.declare('ninf'); EXT.declare('nan')
EXT = EXT.create()
core.EXT = EXT
SORT['x'] = EXT

def sym_in(x, depth=0):
    if isinstance(x, (S, SArr, Text, TextArr)): return True
    if isinstance(x, z3.ExprRef): return True
    if isinstance(x, (list, tuple)) and depth < 4: return any(sym_in(y, depth + 1) for y in x)
    if isinstance(x, slice): return any(sym_in(y) for y in (x.start, x.stop, x.step))
    if isinstance(x, dict) and depth < 2: return any(sym_in(y, depth + 1) for y in x.values())
    return hasattr(x, 'to_sarr') or getattr(x, '_symbolic_', False)

def scal(x):
    "0-d array or scalar -> python-level scalar"
    if isinstance(x, SArr) and x.ndim == 0: return x.item()
    return x

def _shape(sh):
    if isinstance(sh, (tuple, list)): return tuple(zi(d) for d in sh)
    return (zi(sh),)

ZERO = {'r': lambda: z3.RealVal(0), 'i': lambda: z3.IntVal(0), 'b': lambda: z3.BoolVal(False)}
ONE = {'r': lambda: z3.RealVal(1), 'i': lambda: z3.IntVal(1), 'b': lambda: z3.BoolVal(True)}

def zeros(shape, dtype=float, **kw):
    if isinstance(dtype, str) and np.dtype(dtype).kind in 'SU' or dtype is str: return np.zeros(shape, dtype=dtype)
    k = kind_of_dtype(dtype) or 'r'
    return SArr.const(_shape(shape), ZERO[k](), k)
def ones(shape, dtype=float, **kw):
    k = kind_of_dtype(dtype) or 'r'
    return SArr.const(_shape(shape), ONE[k](), k)
def empty(shape, dtype=float, **kw):
    "arbitrary content"
    k = kind_of_dtype(dtype) or 'r'
    sh = _shape(shape)
    f = ctx().fresh_fn('empty', *([I] * len(sh)), SORT[k])
    if not sh: return SArr.new((), lambda i: ctx().fresh('empty', SORT[k]), k)
    return SArr.new(sh, lambda idx: f(*[z3.IntVal(i) if isinstance(i, int) else i for i in idx]), k)
def full(shape, val, dtype=None, **kw):
    if isinstance(val, (str, bytes)):
        if all(isinstance(d, int) for d in _shape(shape)): return np.full(_shape(shape), val)
        return SArr.const(_shape(shape), lift(str(val))[0], 's')
    t, k = lift_x(val)
    if dtype is not None:
        k2 = kind_of_dtype(dtype); t = convert(t, k, k2); k = k2
    return SArr.const(_shape(shape), t, k)
def zeros_like(a, dtype=None, **kw):
    a = as_arr(a); k = kind_of_dtype(dtype) or a.kind
    return SArr.const(a._shape, ZERO[k](), k)
def ones_like(a, dtype=None, **kw):
    a = as_arr(a); k = kind_of_dtype(dtype) or a.kind
    return SArr.const(a._shape, ONE[k](), k)
def full_like(a, val, dtype=None, **kw):
    a = as_arr(a); k = kind_of_dtype(dtype) or a.kind
    t, kk = lift(val)
    return SArr.const(a._shape, convert(t, kk, k), k)
def empty_like(a, dtype=None, **kw):
    a = as_arr(a); return empty(a.shape, dtype=({'r': float, 'i': int, 'b': bool}[a.kind] if dtype is None else dtype))

def lift_x(v):
    "lift allowing nan / inf constants (extended reals)"
    if isinstance(v, (float, np.floating)):
        v = float(v)
        if v != v: return EXT.nan, 'x'
        if v == math.inf: return EXT.pinf, 'x'
        if v == -math.inf: return EXT.ninf, 'x'
    return lift(v)

def to_x(t, k):
    return t if k == 'x' else EXT.fin(toreal(t, k))

def asarray(x, dtype=None, **kw):
    if isinstance(x, TextArr): return x
    a = as_arr(x)
    if dtype is not None:
        if a.kind == 'x': return a
        k = kind_of_dtype(dtype)
        if k != a.kind and not (a.kind == 'w' and k == 'i'): a = a.astype(dtype)
    return a
def array(x, dtype=None, copy=True, **kw):
    if isinstance(x, list) and len(x) and all(isinstance(e, str) for e in x): return np.array(x)
    if isinstance(x, (list, TextArr)) and len(x) and all(isinstance(e, (str, Text)) for e in x): return TextArr(x)
    a = asarray(x, dtype)
    return a.copy() if isinstance(x, SArr) and copy else a
def atleast_1d(x):
    a = as_arr(x)
    return a if a.ndim else a.reshape(1)
def copy(x, **kw): return as_arr(x).copy()
def isscalar(x):
    if isinstance(x, SArr): return False
    if isinstance(x, S): return True
    return np.isscalar(x)
def ndim(x): return as_arr(x).ndim
def shape(x): return as_arr(x).shape
def size(x): return as_arr(x).size

def arange(*a, dtype=None, **kw):
    a = [scal(x) for x in a]
    start, stop, step = 0, None, 1
    if len(a) == 1: stop = a[0]
    elif len(a) == 2: start, stop = a
    else: start, stop, step = a
    if any(isinstance(x, float) or isinstance(x, S) and x.k == 'r' for x in (start, stop, step)): return _arange_real(start, stop, step)
    start, stop = zi(start), zi(stop)
    if step != 1: raise Unsupported('arange step')
    n = zsub(stop, start)
    if not isinstance(n, int):
        n = sz(z3.If(n > 0, n, 0)) if not ctx().entails(n >= 0) else n
    else: n = max(0, n)
    return SArr.new((n,), lambda i: (z3.IntVal(zadd(start, i[0])) if isinstance(zadd(start, i[0]), int) else zadd(start, i[0])), 'i')

def _arange_real(start, stop, step):
    "start + i*step for every i with start + i*step < stop (step > 0)"
    start, stop, step = (convert(*lift(x), 'r') for x in (start, stop, step)); c = ctx()
    c.check('steps of arange are positive', step > 0, kind='pre')
    n = c.fresh('count', I); q = z3.ToReal(n)
    c.add(z3.And(n >= 0, z3.Implies(start < stop, z3.And(n >= 1, start + (q - 1) * step < stop, start + q * step >= stop)), z3.Implies(start >= stop, n == 0)))
    return SArr.new((n,), lambda i: start + z3.ToReal(z3.IntVal(i[0]) if isinstance(i[0], int) else i[0]) * step, 'r')
def linspace(a, b, n=50, **kw):
    a, b, n = scal(a), scal(b), zi(scal(n))
    ta, tb2 = toreal(*lift(a)), toreal(*lift(b))
    nm1 = zsub(n, 1)
    den = z3.RealVal(nm1) if isinstance(nm1, int) else z3.ToReal(nm1)
    if isinstance(n, int) and n == 1: return SArr.new((1,), lambda i: ta, 'r')
    if not isinstance(n, int): ctx().check('linspace needs two points', n >= 2, kind='safety')
    if not isinstance(n, int) and ctx().ghost.get('linspace'):
        # first and last point, and the order of the points, only
        c = ctx(); c.loose.add('linspace'); f = c.fresh_fn('linspace', I, R); i, j = c.fresh('i', I), c.fresh('j', I)
        c.add(f(0) == ta); c.add(f(nm1) == tb2)
        up = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), f(i) < f(j)), patterns=[z3.MultiPattern(f(i), f(j))])
        c.add(z3.Implies(ta < tb2, up))
        return SArr.new((n,), lambda k: f(z3.IntVal(k[0]) if isinstance(k[0], int) else k[0]), 'r')
    def el(i):
        i = i[0]
        if isinstance(i, int) and i == 0: return ta
        if isinstance(i, int) and isinstance(n, int) and i == n - 1: return tb2
        t = z3.RealVal(i) if isinstance(i, int) else z3.ToReal(i)
        if isinstance(n, int): return ta + (tb2 - ta) * t / den
        return ta + (tb2 - ta) * (t / den)
    return SArr.new((n,), el, 'r')

def where(c, a=None, b=None):
    c = as_arr(c)
    if a is None:
        if c.kind != 'b': c = (c != 0)
        sel = selection(c)
        outs = []
        for ax in range(c.ndim):
            def el(i, ax=ax):
                t = sel.select(i[0])[ax]
                return z3.IntVal(t) if isinstance(t, int) else t
            outs.append(SArr.new((sel.m,), el, 'i', IndexMeta(sel=sel if c.ndim == 1 else None)))
        return tuple(outs)
    def tox(v):
        v = scal(v)
        if isinstance(v, (float, np.floating)) and (v != v or abs(v) == math.inf):
            t, k = lift_x(v); return SArr.new((), lambda i: t, k)
        return as_arr(v)
    a, b = tox(a), tox(b)
    ka, kb = a.kind, b.kind
    if 'x' in (ka, kb): return ew(lambda q, x, y: z3.If(q, to_x(x, ka), to_x(y, kb)), 'x', c, a, b)
    k = kind_join([ka, kb])
    return ew(lambda q, x, y: z3.If(q, convert(x, ka, k), convert(y, kb, k)), k, c, a, b)

def nonzero(c): return where(c)
def flatnonzero(c): return where(as_arr(c).ravel())[0]
def argwhere(c):
    w = where(c)
    fs = [x.frozen() for x in w]
    if len(fs) != 1: raise Unsupported('argwhere nd')
    return SArr.new((w[0]._shape[0], 1), lambda i: fs[0]((i[0],)), 'i')

class _R_:
    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        parts = []
        for k in key:
            if isinstance(k, slice): parts.append(arange(k.start or 0, k.stop))
            else: parts.append(k)
        return concatenate([atleast_1d(p) for p in parts])
r_ = _R_()

def seq_offsets(n, length):
    """offsets of a concatenation of n >= 1 pieces, piece j of length(j) >= 0:
    off(0)=0, off(j+1)=off(j)+length(j); which(r) is the piece that row r belongs to"""
    c = ctx()
    j0 = z3.Int('#j')
    with c.binding((j0,)): L0 = length(j0)
    key = ('seq', str(n), L0.sexpr() if z3.is_expr(L0) else str(L0))
    got = c.ghost.get(key)
    if got is not None: return got
    off, which = c.fresh_fn('off', I, I), c.fresh_fn('which', I, I)
    j, r = z3.Int('#j'), z3.Int('#r')
    nt = z3.IntVal(n) if isinstance(n, int) else n
    Lt = lambda q: z3.IntVal(length(q)) if isinstance(length(q), int) else length(q)
    with c.binding((j, r)):
        Lj = Lt(j)
        c.add(off(0) == 0)
        pats = [off(j)] + ([Lj] if z3.is_app(Lj) and Lj.decl().kind() == z3.Z3_OP_UNINTERPRETED and Lj.num_args() else [])
        c.add(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < nt), z3.And(off(j + 1) == off(j) + Lj, Lj >= 0, off(j) >= 0, off(j) + Lj <= off(nt))), patterns=pats))
        w = which(r)
        c.add(z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < off(nt)), z3.And(w >= 0, w < nt, off(w) <= r, r < off(w) + z3.substitute(Lj, (j, w)))), patterns=[w]))
        c.add(z3.ForAll([j, r], z3.Implies(z3.And(j >= 0, j < nt, r >= off(j), r < off(j) + Lj), w == j), patterns=[z3.MultiPattern(off(j), w)]))
    c.ghost[key] = (off, which)
    return off, which
def seq_concat(xs, axis=0):
    "concatenation of a symbolic number of arrays along the first axis"
    from .loader import _count, _element
    c = ctx(); n = _count(xs)
    if axis != 0: raise Unsupported('concatenation of a symbolic list along another axis')
    if not c.decide(_b(zlt(0, n))): raise ValueError('need at least one array to concatenate')
    memo = {}
    def el(k):
        key = k if isinstance(k, int) else k.get_id()
        if key not in memo:
            a = as_arr(_element(xs, k)); memo[key] = (k, a, a.frozen())
        return memo[key]
    k0 = c.fresh('piece', I)
    with c.scope(_b(inrange(k0, n))): a0 = el(k0)[1]; b0 = el(0)[1]
    if a0.ndim == 0: raise ValueError('zero-dimensional arrays cannot be concatenated')
    for x, y in zip(a0._shape[1:], b0._shape[1:]):
        if zeq(x, y) is not True: c.check('pieces of a concatenation have equal row shapes', IMP(inrange(k0, n), zeq(x, y)), kind='safety', assume=False)
    off, which = seq_offsets(n, lambda k: el(k)[1]._shape[0])
    nt = z3.IntVal(n) if isinstance(n, int) else n
    def fn(idx):
        r = z3.IntVal(idx[0]) if isinstance(idx[0], int) else idx[0]
        w = which(r)
        return el(w)[2]((sz(r - off(w)),) + tuple(idx[1:]))
    return SArr.new((off(nt),) + tuple(b0._shape[1:]), fn, a0.kind)
def _symseq(xs):
    from .loader import symbolic_iter, SymGrow
    return not isinstance(xs, (SArr, list, tuple)) and (isinstance(xs, SymGrow) or symbolic_iter(xs))

def concatenate(xs, axis=0, **kw):
    if _symseq(xs): return seq_concat(xs, axis)
    if isinstance(xs, SArr): xs = [xs[k] for k in range(len(xs))]
    if all(isinstance(x, np.ndarray) and x.dtype.kind in 'SUO' for x in xs): return np.concatenate(xs)
    xs = [as_arr(x) for x in xs]
    if axis < 0: axis += xs[0].ndim
    k = kind_join([x.kind for x in xs])
    if k in 'rx':
        for x in xs:
            ls = leaves(x) if x.kind == 'i' else None
            if ls and any(abs(i) > 2 ** 53 for i in ls): ctx().check('integers survive the conversion to floating point', False, kind='safety', assume=False)
    offs, n = [], 0
    for x in xs:
        offs.append(n); n = zadd(n, x._shape[axis])
        for a in range(x.ndim):
            if a != axis and not dim_equal(x._shape[a], xs[0]._shape[a]): raise ValueError('concatenate: dimensions differ')
    fs = [(x.frozen(), x.kind) for x in xs]
    def el(idx):
        i = idx[axis]
        def sub(j): return idx[:axis] + (zsub(i, offs[j]),) + idx[axis + 1:]
        r = None
        for j in reversed(range(len(xs))):
            if isinstance(xs[j]._shape[axis], int) and xs[j]._shape[axis] == 0: continue
            if r is None: r = ((lambda j: lambda: convert(fs[j][0](sub(j)), fs[j][1], k))(j)); continue
            c = zlt(i, zadd(offs[j], xs[j]._shape[axis]))
            r = (lambda j, c, r: lambda: ite(c, lambda: convert(fs[j][0](sub(j)), fs[j][1], k), r))(j, c, r)
        if r is None: raise Unsupported('empty concatenate')
        return r()
    sh = list(xs[0]._shape); sh[axis] = n
    return SArr.new(sh, el, k)
def hstack(xs):
    if _symseq(xs):
        from .loader import _element
        if as_arr(_element(xs, 0)).ndim == 1: return seq_concat(xs)
        raise Unsupported('hstack of a symbolic list')
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, axis=0 if xs[0].ndim == 1 else 1)
def vstack_rows(xs):
    "vstack of a symbolic number of scalars, rows or matrices"
    from .loader import _element, _count
    from .rec import RowArr
    c = ctx(); n = _count(xs)
    if not c.decide(_b(zlt(0, n))): raise ValueError('need at least one array to concatenate')
    x0 = _element(xs, 0)
    if isinstance(x0, str):
        k0 = c.fresh('piece', I)
        with c.scope(_b(inrange(k0, n))):
            if _element(xs, k0) != x0: raise Unsupported('vstack of strings')
        return StrCol(x0, n)
    at = lambda k: (lambda e: e.view if isinstance(e, RowArr) else as_arr(e))(_element(xs, k))
    a0 = at(0)
    one = a0.ndim >= 2 and isinstance(a0._shape[0], int) and a0._shape[0] == 1
    if a0.ndim == 2 and not one: return seq_concat(xs)
    if a0.ndim > 2 and not one: raise Unsupported('vstack of a symbolic list')
    k0 = c.fresh('piece', I)
    with c.scope(_b(inrange(k0, n))): ak = at(k0)
    if ak.ndim != a0.ndim: raise Unsupported('vstack of mixed shapes')
    for x, y in zip(ak._shape, a0._shape):
        if zeq(x, y) is not True: c.check('rows of a vstack have equal length', IMP(inrange(k0, n), zeq(x, y)), kind='safety', assume=False)
    memo = {}
    def el(i):
        key = i[0] if isinstance(i[0], int) else i[0].get_id()
        if key not in memo: a = at(i[0]); memo[key] = (i[0], a.frozen())
        return memo[key][1](() if a0.ndim == 0 else (0,) + i[1:] if one else i[1:])
    # the elements are read now: later writes do not change the result
    sh = (1,) if a0.ndim == 0 else a0._shape[1:] if one else a0._shape
    ix = [c.fresh('vs', I) for _ in range(1 + len(sh))]
    t = el(tuple(ix))
    fn = lambda i: z3.substitute(t, *[(x, z3.IntVal(y) if isinstance(y, int) else y) for x, y in zip(ix, i)])
    return SArr.new((n,) + tuple(sh), fn, a0.kind)
class StrCol:
    "column of n equal strings"
    def __init__(s, val, n): s.val, s.n = val, n
def vstack(xs):
    if _symseq(xs):
        return vstack_rows(xs)
    xs = [as_arr(x) for x in (xs if isinstance(xs, (list, tuple)) else [xs[k] for k in range(len(xs))])]
    xs = [x.reshape((1, 1)) if x.ndim == 0 else (x.reshape((1,) + x.shape) if x.ndim == 1 else x) for x in xs]
    return concatenate(xs, axis=0)
def stack(xs, axis=0):
    if axis != 0: raise Unsupported('stack axis')
    return from_list(list(xs))
def append(a, b, axis=None):
    a, b = as_arr(a), as_arr(b)
    if axis is None: return concatenate([a.ravel(), b.ravel()])
    return concatenate([a, b], axis=axis)
def tile(a, reps):
    a = as_arr(a)
    reps = tuple(zi(r) for r in reps) if isinstance(reps, tuple) else (zi(reps),)
    if a.ndim == 1 and len(reps) == 2 and isinstance(reps[1], int) and reps[1] == 1:
        f = a.frozen()
        return SArr.new((reps[0], a._shape[0]), lambda i: f((i[1],)), a.kind)
    if len(reps) == a.ndim and all(isinstance(r, int) and r == 1 for r in reps[1:]) and isinstance(a._shape[0], int) and a._shape[0] == 1:
        f = a.frozen()
        return SArr.new((reps[0],) + tuple(a._shape[1:]), lambda i: f((0,) + tuple(i[1:])), a.kind)
    raise Unsupported('tile')
def split(a, sections, axis=0):
    a = as_arr(a)
    if not isinstance(sections, int): raise Unsupported('split at indices')
    if axis < 0: axis += a.ndim
    N = a._shape[axis]
    if isinstance(N, int):
        if N % sections: raise ValueError('array split does not result in an equal division')
        w = N // sections
    else:
        if not ctx().decide(_b(zeq(sz(N % sections), 0))): raise ValueError('array split does not result in an equal division')
        w = sz(N / sections)
    out = []
    for j in range(sections):
        key = [slice(None)] * a.ndim; key[axis] = slice(dim(zmul(j, w)), dim(zmul(j + 1, w)))
        out.append(a[tuple(key)])
    return out
def outer(a, b):
    a, b = as_arr(a), as_arr(b)
    return a.reshape((a.size, 1)) * b.reshape((1, b.size))
def expand_dims(a, axis):
    a = as_arr(a)
    sh = list(a.shape); sh.insert(axis if axis >= 0 else axis + a.ndim + 1, 1)
    return a.reshape(tuple(sh))
def squeeze(a, axis=None):
    a = as_arr(a)
    return a.reshape(tuple(dim(d) for d in a._shape if not (isinstance(d, int) and d == 1)))
def reshape(a, s): return as_arr(a).reshape(s)
def ravel(a): return as_arr(a).ravel()
def transpose(a, p=None): return as_arr(a).transpose(*((p,) if p is not None else ()))
def swapaxes(a, i, j): return as_arr(a).swapaxes(i, j)
def broadcast_to(a, shape):
    a = as_arr(a); sh = _shape(shape); f, s0 = a.frozen(), a._shape
    return SArr.new(sh, lambda i: f(bidx(i, s0)), a.kind)
def ascontiguousarray(a, dtype=None): return asarray(a, dtype)
def diff(a):
    a = as_arr(a); return a[1:] - a[:-1]
def fill_diagonal(a, v):
    t, k = lift(v); kk = a.kind
    i, j = a._shape
    f = a.frozen()
    val = convert(t, k, kk)
    new = SArr.new(a._shape, lambda idx: ite(zeq(idx[0], idx[1]), val, lambda: f(idx)), kk)
    write_view(a, new)
def eye(n, *a, **k):
    n = zi(n); return SArr.new((n, n), lambda i: ite(zeq(i[0], i[1]), z3.RealVal(1), z3.RealVal(0)), 'r')
def diag(v):
    v = as_arr(v); f, k = v.frozen(), v.kind
    if v.ndim == 1:
        return SArr.new((v._shape[0],) * 2, lambda i: ite(zeq(i[0], i[1]), lambda: f((i[0],)), ZERO[k]()), k)
    return SArr.new((v._shape[0],), lambda i: f((i[0], i[0])), k)

# --------------------------------------------------------------- elementwise math
def _el1(fn, kind='r'):
    def g(x, *a, **kw):
        if isinstance(x, SArr) or not isinstance(x, (S, int, float, bool, np.generic)):
            x = as_arr(x); k = x.kind
            return ew(lambda t: fn(t, k), kind if kind else x.kind, x)
        t, k = lift(x)
        return S(fn(t, k))
    return g

def _uf(name): return _el1(lambda t, k: ufun(name)(toreal(t, k)))
exp = _el1(lambda t, k: mexp(toreal(t, k)))
log = _el1(lambda t, k: mlog(toreal(t, k)))
def xsqrt(t): return z3.If(EXT.is_fin(t), z3.If(EXT.val(t) >= 0, EXT.fin(msqrt(EXT.val(t))), EXT.nan), z3.If(t == EXT.pinf, EXT.pinf, EXT.nan))
def sqrt(x, *a, **kw):
    y = x if isinstance(x, S) or not hasattr(x, '__len__') and not isinstance(x, SArr) else as_arr(x)
    if isinstance(y, S) and y.k == 'x': return S(xsqrt(y.t), 'x')
    if isinstance(y, SArr) and y.kind == 'x': return ew(xsqrt, 'x', y)
    return _sqrt(x, *a, **kw)
_sqrt = _el1(lambda t, k: msqrt(toreal(t, k)))
sin, cos, log10, floor, log2 = _uf('sin'), _uf('cos'), _uf('log10'), _uf('floor'), _uf('log2')
def abs_(x, *a, **k): return abs(x) if isinstance(x, S) else abs(as_arr(x))
def absolute(x): return abs_(x)
def fabs(x): return abs_(x)
def negative(x): return -as_arr(x) if not isinstance(x, S) else -x
def square(x): return x * x

def mexp(t):
    ctx().facts_add('exp', t, lambda x: [ufun('exp')(x) > 0, z3.Implies(x <= 0, ufun('exp')(x) <= 1),
                    z3.Implies(x == 0, ufun('exp')(x) == 1), z3.Implies(x >= 0, ufun('exp')(x) >= 1)])
    return ufun('exp')(t)
def mlog(t):
    L = ufun('log')
    c = ctx()
    c.facts_add('log', t, lambda x: [z3.Implies(x == 1, L(x) == 0), z3.Implies(x > 1, L(x) > 0),
                    z3.Implies(z3.And(x > 0, x < 1), L(x) < 0)])
    if not c.mentions_bound(t):
        reg = c.ghost.setdefault('logs', [])
        new = [t]
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DIV and frac_is(t.arg(0), 1):
            u = t.arg(1); new.append(u)
            c.add(z3.Implies(u > 0, L(t) == -L(u)))
        for u in new:
            if any(u.eq(w) for w in reg): continue
            for w in reg:       # strictly increasing on the positive reals
                c.add(z3.Implies(z3.And(u > 0, w > 0), z3.And((u < w) == (L(u) < L(w)), (u == w) == (L(u) == L(w)))))
            reg.append(u)
        if len(new) > 1:
            c.add(z3.Implies(new[1] == 1, L(new[1]) == 0)); c.add(z3.Implies(new[1] > 1, L(new[1]) > 0)); c.add(z3.Implies(z3.And(new[1] > 0, new[1] < 1), L(new[1]) < 0))
    return L(t)
def frac_is(t, v):
    return (z3.is_rational_value(t) and t.as_fraction() == v) or (z3.is_int_value(t) and t.as_long() == v)
def msqrt(t):
    ctx().facts_add('sqrt', t, lambda x: [z3.Implies(x >= 0, z3.And(ufun('sqrt')(x) >= 0, ufun('sqrt')(x) * ufun('sqrt')(x) == x)),
                    z3.Implies(x > 0, ufun('sqrt')(x) > 0)])
    return ufun('sqrt')(t)

def power(a, b):
    return a ** b if isinstance(a, (S, SArr)) else as_arr(a) ** b if isinstance(b, SArr) else S(*lift(a)) ** b
def multiply(a, b, out=None): return as_arr(a) * b
def add(a, b): return as_arr(a) + b
def subtract(a, b): return as_arr(a) - b
def divide(a, b): return as_arr(a) / b
true_divide = divide

def _minmax(op):
    def g(a, b):
        if not (isinstance(a, (SArr, np.ndarray, list)) or isinstance(b, (SArr, np.ndarray, list))):
            (ta, ka), (tb2, kb) = lift(a), lift(b)
            k = kind_join([ka, kb]); ta, tb2 = convert(ta, ka, k), convert(tb2, kb, k)
            return S(z3.If(ta <= tb2, ta, tb2) if op == 'min' else z3.If(ta >= tb2, ta, tb2), k)
        a, b = as_arr(a), as_arr(b); ka, kb = a.kind, b.kind
        k = kind_join([ka, kb])
        def f(x, y):
            x, y = convert(x, ka, k), convert(y, kb, k)
            return z3.If(x <= y, x, y) if op == 'min' else z3.If(x >= y, x, y)
        return ew(f, k, a, b)
    return g
minimum, maximum = _minmax('min'), _minmax('max')
def clip(a, lo, hi):
    if lo is not None: a = maximum(a, lo)
    if hi is not None: a = minimum(a, hi)
    return a

def isnan(x):
    if isinstance(x, S):
        return S(z3.BoolVal(False)) if x.k != 'x' else S(x.t == EXT.nan)
    a = as_arr(x)
    if a.kind == 'x': return ew(lambda t: t == EXT.nan, 'b', a)
    return SArr.const(a._shape, z3.BoolVal(False), 'b')
def isinf(x):
    a = as_arr(x)
    if a.kind == 'x': return ew(lambda t: z3.Or(t == EXT.pinf, t == EXT.ninf), 'b', a)
    return SArr.const(a._shape, z3.BoolVal(False), 'b')
def isneginf(x):
    a = as_arr(x)
    return ew(lambda t: t == EXT.ninf, 'b', a) if a.kind == 'x' else SArr.const(a._shape, z3.BoolVal(False), 'b')
def isposinf(x):
    a = as_arr(x)
    return ew(lambda t: t == EXT.pinf, 'b', a) if a.kind == 'x' else SArr.const(a._shape, z3.BoolVal(False), 'b')
def isfinite(x):
    if isinstance(x, S): return S(z3.BoolVal(True)) if x.k != 'x' else S(EXT.is_fin(x.t))
    a = as_arr(x)
    if a.kind == 'x': return ew(lambda t: EXT.is_fin(t), 'b', a)
    return SArr.const(a._shape, z3.BoolVal(True), 'b')
def logical_not(x): return ~as_arr(x)
def logical_and(x, y): return as_arr(x) & as_arr(y)
def logical_or(x, y): return as_arr(x) | as_arr(y)

# --------------------------------------------------------------- reductions
def bvars(name, n):
    return tuple(z3.Const('%s!q%d' % (name, a), I) for a in range(n))

def qall(shape, fn, patterns=None):
    """forall index tuples in range: fn(idx) -- expanded for small concrete shapes"""
    if all(isinstance(d, int) for d in shape):
        tot = 1
        for d in shape: tot *= d
        if tot <= 64:
            import itertools
            return AND(*[fn(p) for p in itertools.product(*[range(d) for d in shape])])
    c = ctx()
    vs = tuple(c.fresh('q', I) for _ in shape)
    with c.binding(vs):
        body = IMP(AND(*[inrange(v, d) for v, d in zip(vs, shape)]), fn(vs))
    body = _b(body)
    if z3.is_true(body): return True
    pats = patterns(vs) if patterns else None
    if pats is None and len(vs) == 1: body = reindex(body, vs[0])
    return z3.ForAll(list(vs), body, patterns=pats) if pats else z3.ForAll(list(vs), body)

def reindex(body, v):
    """bound index used only as f(v + offset) with one offset: bind v + offset instead
    (same meaning, and the array term becomes a usable trigger)"""
    ca = shifted_candidates(body, v)
    offs = []
    for _, o in ca:
        if not any(o.eq(x) for x in offs): offs.append(o)
    if len(offs) != 1 or trigger_candidates(body, [v]): return body
    return z3.simplify(z3.substitute(body, (v, z3.simplify(v - offs[0]))))

def qany(shape, fn):
    return NOT(qall(shape, lambda i: NOT(fn(i))))

def _reduce_axis(a, axis):
    "-> (outer shape, inner shape, join(outer idx, inner idx))"
    nd = a.ndim
    if axis is None: return (), a._shape, (lambda o, i: i)
    axes = (axis,) if isinstance(axis, int) else tuple(axis)
    axes = tuple(x % nd for x in axes)
    outer_ax = [x for x in range(nd) if x not in axes]
    def join(o, i):
        r = [None] * nd
        for k, x in enumerate(outer_ax): r[x] = o[k]
        for k, x in enumerate(axes): r[x] = i[k]
        return tuple(r)
    return tuple(a._shape[x] for x in outer_ax), tuple(a._shape[x] for x in axes), join

def _boolarr(a):
    a = as_arr(a)
    return a if a.kind == 'b' else (a != 0)

def red_all(a, axis=None, **kw):
    a = _boolarr(a); f = a.frozen()
    out, inn, join = _reduce_axis(a, axis)
    def el(o): return _b(qall(inn, lambda i: S(f(join(o, i)), 'b')))
    if not out: return S(el(()), 'b')
    return SArr.new(out, el, 'b')
def red_any(a, axis=None, **kw):
    a = _boolarr(a); f = a.frozen()
    out, inn, join = _reduce_axis(a, axis)
    def el(o): return _b(qany(inn, lambda i: S(f(join(o, i)), 'b')))
    if not out: return S(el(()), 'b')
    return SArr.new(out, el, 'b')

def _nonempty(inn):
    c = ctx()
    for d in inn:
        if isinstance(d, int):
            if d == 0: raise ValueError('zero-size array to reduction operation which has no identity')
        else: c.check('reduction over a non-empty array', zlt(0, d), kind='safety')

def sums_mentions(t, x):
    from .sums import mentions
    return mentions(t, x)
def red_ext(a, axis, op, initial=None):
    a = as_arr(a); f = a.frozen(); k = a.kind
    out, inn, join = _reduce_axis(a, axis)
    _nonempty(inn)
    if k == 'b': f0 = f; f = lambda i: num(f0(i), 'b'); k = 'i'
    le = (lambda x, y: x <= y) if op == 'min' else (lambda x, y: x >= y)
    def one(o):
        if all(isinstance(d, int) for d in inn) and _prod(inn) <= 16:
            import itertools
            r = None
            for i in itertools.product(*[range(d) for d in inn]):
                t = f(join(o, i)); r = t if r is None else z3.If(le(r, t), r, t)
            return r
        c = ctx()
        reg = c.ghost.setdefault('ext', {})
        iv = bvars('ex', len(inn))
        body = f(join(o, iv))
        if not any(sums_mentions(body, x) for x in iv): return body        # the same for every index reduced over, of which there is one
        key = (op, str(inn), z3.simplify(body).sexpr())
        if key in reg: return reg[key][0]
        if any(c.is_bound(x) for x in o): raise Unsupported('reduction inside a quantified element')
        m = c.fresh('m' + op, SORT[k])
        w = tuple(c.fresh('w' + op, I) for _ in inn)
        c.add(_b(AND(*[inrange(x, d) for x, d in zip(w, inn)])))
        c.add(f(join(o, w)) == m)
        q = qall(inn, lambda i: le(m, f(join(o, i))))
        c.add(_b(q))
        c.ghost.setdefault('extfacts', []).append((m, w, lambda i, o=o: le(m, f(join(o, i))), inn))
        reg[key] = (m, w)
        return m
    if not out: return S(one(()), k)
    if all(isinstance(d, int) for d in inn) and _prod(inn) <= 16 or all(isinstance(d, int) for d in out):
        return SArr.new(out, lambda o: one(o), k)
    return SArr.new(out, lambda o: one(o), k)
def _prod(t):
    r = 1
    for d in t: r *= d
    return r
def red_min(a, axis=None, **kw): return red_ext(a, axis, 'min')
def red_max(a, axis=None, **kw): return red_ext(a, axis, 'max')
amin, amax = red_min, red_max
def min_(a, axis=None, **kw): return red_ext(a, axis, 'min')
def max_(a, axis=None, **kw): return red_ext(a, axis, 'max')

def _argext(a, op, axis=None):
    "first index attaining the extremum"
    a = as_arr(a); f = a.frozen()
    if a.ndim != 1: raise Unsupported('argmin of nd array')
    n = a._shape[0]; _nonempty((n,))
    le = (lambda x, y: x <= y) if op == 'min' else (lambda x, y: x >= y)
    lt = (lambda x, y: x < y) if op == 'min' else (lambda x, y: x > y)
    if a.kind == 'b': f0 = f; f = lambda i: num(f0(i), 'b')
    if isinstance(n, int) and n <= 32:
        # concrete length: fork on the position
        c = ctx()
        for k in range(n - 1):
            t = f((k,))
            g = AND(*([lt(t, f((j,))) for j in range(k)] + [le(t, f((j,))) for j in range(k + 1, n)]))
            if c.decide(_b(g)): return k
        c.add(_b(AND(*[lt(f((n - 1,)), f((j,))) for j in range(n - 1)])))
        return n - 1
    c = ctx()
    memo = c.ghost.setdefault('argext', {}); key = (op, str(n), z3.simplify(f((z3.Int('key!'),))).sexpr())     # a function of the content
    if key in memo: return S(memo[key], 'i')
    w = c.fresh('arg' + op, I)
    c.add(_b(inrange(w, n)))
    fw = f((w,))
    c.add(_b(qall((n,), lambda i: AND(le(fw, f(i)), IMP(zlt(i[0], w), lt(fw, f(i)))))))
    if not c.mentions_bound(w): memo[key] = w
    return S(w, 'i')
def argmin(a, axis=None): return _argext(a, 'min', axis)
def argmax(a, axis=None): return _argext(a, 'max', axis)

class PermSel:
    "permutation of range(n): select = perm, rankof = inverse"
    def __init__(self, n, p, q):
        self.n, self.p, self.q, self.m = n, p, q, n
    def mask(self, idx): return inrange(idx[0], self.n)
    def rankof(self, idx):
        i = idx[0]
        if z3.is_expr(i) and z3.is_app(i) and i.decl().eq(self.p): return i.arg(0)
        return self.q(z3.IntVal(i) if isinstance(i, int) else i)
    def select(self, k): return (self.p(z3.IntVal(k) if isinstance(k, int) else k),)

def _perm(n, lt_or_le, name='perm', stable=False, eq=None):
    """sorting permutation of n rows.  lt_or_le(i,j): row i may precede row j."""
    c = ctx()
    if isinstance(n, int):
        # concrete: fork over the sorting (insertion sort decided by path forking)
        order = []
        for i in range(n):
            k = len(order)
            while k > 0 and not c.decide(_b(lt_or_le(order[k - 1], i))): k -= 1
            order.insert(k, i)
        return SArr.new((n,), lambda i: (z3.IntVal(order[i[0]]) if isinstance(i[0], int) else
                        _chain(i[0], order)), 'i', IndexMeta(sel=FixedSel((n,), [(o,) for o in order])))
    p, q = c.fresh_fn(name, I, I), c.fresh_fn(name + 'inv', I, I)
    k, l = c.fresh('k', I), c.fresh('l', I)
    c.add(z3.ForAll([k], z3.Implies(_b(inrange(k, n)), _b(AND(inrange(p(k), n), q(p(k)) == k))), patterns=[p(k)]))
    c.add(z3.ForAll([k], z3.Implies(_b(inrange(k, n)), _b(AND(inrange(q(k), n), p(q(k)) == k))), patterns=[q(k)]))
    with c.binding((k, l)):
        body = _b(lt_or_le(p(k), p(l)))
    c.add(z3.ForAll([k, l], z3.Implies(_b(AND(zle(0, k), zlt(k, l), zlt(l, n))), body),
          patterns=[z3.MultiPattern(p(k), p(l))]))
    if stable:
        with c.binding((k, l)):
            e = _b(eq(p(k), p(l)))
        c.add(z3.ForAll([k, l], z3.Implies(_b(AND(zle(0, k), zlt(k, l), zlt(l, n), e)), p(k) < p(l)),
              patterns=[z3.MultiPattern(p(k), p(l))]))
    sel = PermSel(n, p, q)
    return SArr.new((n,), lambda i: p(z3.IntVal(i[0]) if isinstance(i[0], int) else i[0]), 'i', IndexMeta(sel=sel))
def _chain(i, order):
    t = z3.IntVal(order[-1])
    for k in range(len(order) - 2, -1, -1): t = z3.If(i == k, z3.IntVal(order[k]), t)
    return t

def argsort(a, axis=-1, kind=None, stable=None, **kw):
    """a permutation that orders the values (no stability assumed unless requested)"""
    a = as_arr(a)
    if a.ndim == 2 and axis == 0 and isinstance(a._shape[1], int) and a._shape[1] == 1:
        return argsort(a[:, 0], kind=kind, stable=stable).reshape((-1, 1))
    if a.ndim != 1: raise Unsupported('argsort of nd array')
    f = a.frozen(); k = a.kind
    g = (lambda i: num(f((i,)), 'b')) if k == 'b' else (lambda i: f((i,)))
    if k == 'x':        # numpy sorts nan last
        return _perm(a._shape[0], lambda i, j: z3.Or(g(j) == EXT.nan, compare_t('<=', g(i), 'x', g(j), 'x')), 'argsort', stable=False)
    return _perm(a._shape[0], lambda i, j: g(i) <= g(j), 'argsort', stable=(kind == 'stable' or stable is True),
                 eq=lambda i, j: g(i) == g(j))
def sort(a, axis=-1, **kw):
    a = as_arr(a); return a[argsort(a)]
def lexsort(keys, axis=-1):
    "rows ordered by the last key first; stable"
    keys = [as_arr(k) for k in keys]
    if keys[0].ndim == 2 and axis == 0 and all(isinstance(k._shape[1], int) and k._shape[1] == 1 for k in keys):
        keys = [k[:, 0] for k in keys]
        two = True
    else: two = False
    if keys[0].ndim != 1: raise Unsupported('lexsort of nd keys')
    fs = [((lambda f, kk: (lambda i: num(f((i,)), kk) if kk == 'b' else f((i,))))(k.frozen(), k.kind)) for k in keys][::-1]
    def le(i, j):
        r = True
        for g in reversed(fs): r = OR(g(i) < g(j), AND(g(i) == g(j), r))
        return r
    p = _perm(keys[0]._shape[0], le, 'lexsort', stable=True, eq=lambda i, j: AND(*[g(i) == g(j) for g in fs]))
    return p.reshape((-1, 1)) if two else p

# --------------------------------------------------------------- sums
from .sums import SumOf, np_sum, dot, matmul
def sum_(a, axis=None, **kw): return np_sum(a, axis=axis, **kw)
def mean(a, axis=None, **kw):
    a = as_arr(a)
    out, inn, join = _reduce_axis(a, axis)
    n = 1
    for d in inn: n = zmul(n, d)
    return np_sum(a, axis=axis) / dim(n)
def vdot(a, b): return dot(a, b)
def inner(a, b): return dot(a, b)
def einsum(*a, **k): raise Unsupported('einsum')
def count_nonzero(a, **k): return np_sum(as_arr(a) != 0)
def cumsum(*a, **k): raise Unsupported('cumsum')

# --------------------------------------------------------------- polynomial fit (assumed contract)
def polyfit(x, y, deg):
    """assumed contract of numpy.polyfit for deg=2 and three points: the interpolating
    parabola when the abscissae are distinct"""
    x, y = as_arr(x), as_arr(y)
    n = x._shape[0]
    if not dim_equal(n, y._shape[0]): raise TypeError('expected x and y to have same length')
    if not (isinstance(n, int) and n == deg + 1): raise Unsupported('polyfit least squares')
    c = ctx()
    key = ('polyfit', deg) + tuple(z3.simplify(toreal(a.at(i), a.kind)).sexpr() for a in (x, y) for i in range(n))
    if key in c.ghost: return c.ghost[key]
    co = [c.fresh('poly%d' % k, R) for k in range(deg + 1)]
    c.ghost[key] = tuple(S(t, 'r') for t in co)
    for i in range(n):
        xi = toreal(x.at(i), x.kind); v = z3.RealVal(0); 
        for q in co: v = v * xi + q
        c.add(v == toreal(y.at(i), y.kind))
    return tuple(S(t, 'r') for t in co)

def interp(x, xp, fp, left=None, right=None):
    x, xp, fp = as_arr(x), as_arr(xp), as_arr(fp)
    c = ctx()
    n = xp._shape[0]
    if isinstance(n, int) and n == 0 or not isinstance(n, int) and not c.entails(n > 0):
        if c.decide(_b(zeq(n, 0))): raise ValueError('array of sample points is empty')
    # assumed: result otherwise unconstrained
    c.loose.add('numpy.interp')
    f = c.fresh_fn('interp', *([I] * x.ndim), R)
    return SArr.new(x._shape, lambda i: f(*[z3.IntVal(j) if isinstance(j, int) else j for j in i]), 'r')

def array_equal(a, b):
    a, b = as_arr(a), as_arr(b)
    return red_all(a == b)
def allclose(*a, **k): raise Unsupported('allclose')
def unique(a, **k):
    "the distinct values in increasing order"
    if k: raise Unsupported('unique with options')
    a = as_arr(a).ravel(); c = ctx(); n = a._shape[0]
    if a.kind == 's':
        ls = leaves(a)
        if ls is None or len(ls) > 8: raise Unsupported('unique of unknown strings')
        return np.array(sorted(STRS[x] for x in ls if c.decide(_b(zlt(0, selection(a == STRS[x]).m)))))
    if a.kind not in 'ir': raise Unsupported('unique of %s' % a.kind)
    f = a.frozen()
    m, u, wh, fr = c.fresh('nuniq', I), c.fresh_fn('uniq', I, SORT[a.kind]), c.fresh_fn('uwhere', I, I), c.fresh_fn('ufirst', I, I)
    q, p = c.fresh('q', I), c.fresh('p', I); nt = z3.IntVal(n) if isinstance(n, int) else n
    c.add(z3.And(m >= 0, m <= nt)); c.add(z3.Implies(nt >= 1, m >= 1))
    with c.binding((q, p)):
        fq, ff = f((q,)), f((fr(q),))
        c.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < nt), z3.And(wh(q) >= 0, wh(q) < m, u(wh(q)) == fq)), patterns=[wh(q)]))
        pats = trigger_candidates(fq, [q])
        for t in pats[:2]: c.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < nt), z3.And(wh(q) >= 0, wh(q) < m, u(wh(q)) == fq)), patterns=[t]))
        c.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m), z3.And(fr(q) >= 0, fr(q) < nt, ff == u(q))), patterns=[u(q)]))
        c.add(z3.ForAll([q, p], z3.Implies(z3.And(0 <= q, q < p, p < m), u(q) < u(p)), patterns=[z3.MultiPattern(u(q), u(p))]))
    return SArr.new((m,), lambda i: u(z3.IntVal(i[0]) if isinstance(i[0], int) else i[0]), a.kind)
def pad(a, width, mode='constant', constant_values=0, **k):
    "zeros after the columns of a matrix"
    a = as_arr(a); w = [tuple(x) for x in width] if isinstance(width, (list, tuple)) and width and isinstance(width[0], (list, tuple)) else None
    if k or mode != 'constant' or w is None or len(w) != a.ndim or a.ndim != 2 or constant_values != 0 or w[0] != (0, 0) or w[1][0] != 0: raise Unsupported('pad')
    n = w[1][1]
    if isinstance(n, int) and n == 0: return a.copy()
    if a.kind == 's': raise Unsupported('pad of texts')
    return concatenate([a, zeros((a.shape[0], n), {'r': float, 'i': int, 'b': bool}[a.kind])], axis=1)
def isin(a, b, **k):
    if k: raise Unsupported('isin with options')
    a, b = as_arr(a), as_arr(b)
    if b.ndim != 1: raise Unsupported('isin')
    if not isinstance(b._shape[0], int): return _isin_symbolic(a, b)
    if b._shape[0] > 16: raise Unsupported('isin')
    r = SArr.const(a._shape, z3.BoolVal(False), 'b')
    for j in range(b._shape[0]): r = r | (a == S(b.at((j,)), b.kind))
    return r

def _isin_symbolic(a, b):
    "membership in an array of unknown length: a witness where it holds, no element where it does not"
    import itertools
    from .arr import _trigger_candidates
    c = ctx(); n = b._shape[0]; bf, af = b.frozen(), a.frozen(); nd = a.ndim
    if a.kind not in 'is' or b.kind not in 'is' or not nd: raise Unsupported('isin of %s' % a.kind)
    r, w = c.fresh_fn('isin', *([I] * nd), B), c.fresh_fn('isinat', *([I] * nd), I)
    k = z3.Const('k', I); pats = _trigger_candidates(bf((k,)), [k])[:2]
    def axioms(iv, rng, bound):
        yes = z3.Implies(z3.And(_b(rng), r(*iv)), z3.And(_b(inrange(w(*iv), n)), bf((w(*iv),)) == af(tuple(iv))))
        c.add(z3.ForAll(bound, yes, patterns=[r(*iv)]) if bound else yes)
        no = z3.Implies(z3.And(_b(rng), _b(inrange(k, n)), bf((k,)) == af(tuple(iv))), r(*iv))
        c.add(z3.ForAll(bound + [k], no, patterns=[z3.MultiPattern(r(*iv), p) for p in pats] if bound else pats))
    if all(isinstance(d, int) for d in a._shape):
        for iv in itertools.product(*[range(d) for d in a._shape]): axioms([z3.IntVal(i) for i in iv], True, [])
    else:
        iv = [z3.Const('i%d' % q, I) for q in range(nd)]; axioms(iv, AND(*[inrange(i, d) for i, d in zip(iv, a._shape)]), iv)
    return SArr.new(a._shape, lambda idx: r(*[z3.IntVal(i) if isinstance(i, int) else i for i in idx]), 'b')
def searchsorted(a, v, side='left', sorter=None):
    "position by counting; the array has to be in order"
    a = as_arr(a); x = as_arr(v); n = a._shape[0]
    if a.ndim != 1 or sorter is not None or side not in ('left', 'right') or not isinstance(n, int) or n > 64 or 's' in (a.kind, x.kind) : raise Unsupported('searchsorted')
    for q in range(n - 1): ctx().check('searchsorted: the array is in order', S(a.at((q,)), a.kind) <= S(a.at((q + 1,)), a.kind), kind='safety')
    return constant(ew(lambda t: z3.Sum([z3.IntVal(0)] + [z3.If(_b(tb((S(a.at((q,)), a.kind) < S(t, x.kind)) if side == 'left' else (S(a.at((q,)), a.kind) <= S(t, x.kind)))), 1, 0) for q in range(n)]), 'i', x))
def constant(a):
    "an integer array whose elements are all known, as a numpy array"
    import itertools
    if not all(isinstance(d, int) for d in a._shape) or a.ndim != 1: return a
    ts = [z3.simplify(S(a.at((q,)), 'i').t) for q in range(a._shape[0])]
    return np.array([t.as_long() for t in ts], dtype=int) if all(z3.is_int_value(t) for t in ts) else a

class _Linalg:
    LinAlgError = np.linalg.LinAlgError
    def solve(self, a, b):
        return LINALG['solve'](a, b)
    def __getattr__(self, n): raise Unsupported('linalg.%s' % n)

def _solve(a, b):
    """assumed contract: raises LinAlgError when singular, else a x == b (b a vector or a column)"""
    c = ctx()
    a, b = as_arr(a), as_arr(b)
    if a.ndim != 2: raise Unsupported('batched solve')
    n = a._shape[0]
    if not dim_equal(n, a._shape[1]): raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    if not dim_equal(n, b._shape[0]): raise ValueError('solve: mismatch in dimensions')
    col = b.ndim == 2
    if col and not (isinstance(b._shape[1], int) and b._shape[1] == 1): raise Unsupported('several right-hand sides')
    if c.choose(2) == 1: raise np.linalg.LinAlgError('Singular matrix')
    f = c.fresh_fn('solution', I, R)
    fx = lambda i: f(z3.IntVal(i) if isinstance(i, int) else i)
    fa, fb = a.frozen(), b.frozen()
    rhs = lambda p: toreal(fb((p, 0) if col else (p,)), b.kind)
    lhs = lambda p: SumOf(n, lambda q: toreal(fa((p, q)), a.kind) * fx(q), 'r')
    if isinstance(n, int):
        for i in range(n): c.add(lhs(i) == rhs(i))
    else:
        p = z3.Int('#p')
        with c.binding((p,)): body = lhs(p) == rhs(p)
        c.add(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < n), body)))
    return SArr.new((n, 1) if col else (n,), lambda i: fx(i[0]), 'r')
LINALG = {'solve': _solve}

class ErrState:
    def __init__(self, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False

class _NDMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (SArr, np.ndarray))
    def __eq__(cls, o): return o is cls or o is SArr or o is np.ndarray
    def __hash__(cls): return 1
class ndarray(metaclass=_NDMeta):
    pass

_ALWAYS = {'zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like', 'full_like', 'empty_like'}
_RENAME = {'abs': 'abs_', 'min': 'min_', 'max': 'max_', 'sum': 'sum_', 'any': 'red_any', 'all': 'red_all'}
_NAMES = set('''zeros ones empty full zeros_like ones_like full_like empty_like asarray array atleast_1d copy
isscalar ndim shape size arange linspace where nonzero flatnonzero argwhere concatenate hstack vstack stack append tile split
outer expand_dims squeeze reshape ravel transpose swapaxes broadcast_to ascontiguousarray diff fill_diagonal eye diag
exp log sqrt sin cos log10 log2 abs absolute fabs negative square power multiply add subtract divide true_divide
minimum maximum clip isnan isinf isneginf isposinf isfinite logical_not logical_and logical_or all any min max amin amax argmin argmax
argsort sort lexsort sum mean dot vdot inner matmul count_nonzero polyfit interp array_equal unique pad isin searchsorted'''.split())

class _Num(type):
    "np.int64 and np.float64 as the code sees them: the same types, also callable on symbolic values"
    def __call__(c, *a, **k):
        if core._CUR[0] is not None and sym_in(a):
            x = as_arr(a[0]) if not isinstance(a[0], S) else a[0]
            return to_kind(x, c._kind) if isinstance(x, S) else x.astype(c._real)
        return c._real(*a, **k)
    def __instancecheck__(c, x): return isinstance(x, c._real)
    def __subclasscheck__(c, x): return issubclass(x, c._real)
    def __eq__(c, o): return c is o or o is c._real
    def __hash__(c): return hash(c._real)
class _Int64(np.int64, metaclass=_Num): _kind, _real = 'i', np.int64
class _Float64(np.float64, metaclass=_Num): _kind, _real = 'r', np.float64
_TYPES = dict(int64=_Int64, int_=_Int64, intp=_Int64, float64=_Float64, double=_Float64)

_CHAR = Char()
_DT = {'b_int': int, 'b_float': float, 'b_bool': bool, 'b_str': str}
def _dt(k):
    d = k.get('dtype')
    return dict(k, dtype=_DT[d.__name__]) if callable(d) and getattr(d, '__name__', None) in _DT else k
class Facade:
    "what the code under verification sees as numpy"
    newaxis = None
    inf, nan, pi = math.inf, math.nan, math.pi
    ndarray = ndarray
    r_ = None
    linalg = _Linalg()
    overrides = {}
    def __getattr__(self, name):
        if core._CUR[0] is None: return getattr(np, name)
        ov = Facade.overrides.get(name)
        if ov is not None: return ov
        if name in _NAMES:
            mine = globals()[_RENAME.get(name, name)]
            if name in _ALWAYS: return mine
            real = getattr(np, name)
            def call(*a, **k):
                if sym_in(a) or sym_in(tuple(k.values())): return mine(*a, **k)
                return real(*a, **_dt(k))
            call.__name__ = name
            return call
        if name == 'char': return _CHAR
        if name in ('random',): return getattr(np, name)
        if name in _TYPES: return _TYPES[name]
        real = getattr(np, name)
        if callable(real) and not isinstance(real, type):
            def call(*a, **k):
                if sym_in(a) or sym_in(tuple(k.values())): raise Unsupported('numpy.%s on symbolic values' % name)
                return real(*a, **k)
            return call
        return real
    @property
    def linalg(self):
        return _Linalg() if core._CUR[0] is not None else np.linalg
    @property
    def r_(self):
        return r_ if core._CUR[0] is not None else np.r_
    @property
    def ndarray(self):
        return ndarray
    @property
    def errstate(self): return ErrState
facade = Facade()
