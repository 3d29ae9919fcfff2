"""Symbolic arrays: shape (python ints or z3 Int terms) + element closure over index terms.

Views share a buffer and in-place writes go through the view, as in numpy."""
import z3
from .core import *
from . import core

def sz(x):  # simplify an index term
    if isinstance(x, int): return x
    t = z3.simplify(x)
    return t.as_long() if z3.is_int_value(t) else t

def zadd(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(b, int) and b == 0: return a
    if isinstance(a, int) and a == 0: return b
    return sz(a + b)
def zsub(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    if isinstance(b, int) and b == 0: return a
    return sz(a - b)
def zmul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    if isinstance(a, int) and a == 1: return b
    if isinstance(b, int) and b == 1: return a
    return sz(a * b)
def zlt(a, b):
    if isinstance(a, int) and isinstance(b, int): return a < b
    return a < b
def zle(a, b):
    if isinstance(a, int) and isinstance(b, int): return a <= b
    return a <= b
def zeq(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b): return True
    return a == b
def inrange(i, n):
    return AND(zle(0, i), zlt(i, n))

def dim_equal(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b): return True
    d = sz(zsub(a, b))
    if isinstance(d, int): return d == 0
    return ctx().entails(d == 0)

class Buf:
    width = None      # of stored strings
    def __init__(self, shape, fn, kind):
        c = ctx()
        self.shape, self.fn, self.kind = tuple(shape), fn, kind
        self.id = c.nbuf; c.nbuf += 1
        self.memo = {}
    def at(self, idx):
        key = tuple(i if isinstance(i, int) else i.get_id() for i in idx)
        m = self.memo.get(key)
        if m is None:
            m = (self.fn(idx), idx)     # keep idx alive so ids stay valid
            self.memo[key] = m
        return m[0]
    version = 0
    def setfn(self, fn):
        self.fn = fn; self.memo = {}; self.version += 1
    def promote(self):
        "a float array receives nan / inf: extended reals from here on"
        for L in ctx().loopstack:
            if self.id < L.buf_mark: raise Unsupported('infinite value stored in an array of an enclosing loop')
        old = freeze(self)
        self.setfn(lambda i: xlift(old(i), 'r')); self.kind = 'x'
    rebound = None
    def note_write(self):
        if self.rebound is not None: raise Unsupported('array %s is both rebound and written in place by a loop' % self.rebound)
        for L in ctx().loopstack:
            if self.id < L.buf_mark and self.id not in L.havocked:
                L.need(self.id)

def freeze(buf):
    "pure element function of the current content"
    fn, memo = buf.fn, buf.memo
    def at(idx):
        key = tuple(i if isinstance(i, int) else i.get_id() for i in idx)
        m = memo.get(key)
        if m is None:
            m = (fn(idx), idx); memo[key] = m
        return m[0]
    return at

def _dag_size(t, lim):
    seen, st = set(), [t]
    while st and len(seen) <= lim:
        e = st.pop(); i = e.get_id()
        if i in seen: continue
        seen.add(i); st.extend(e.children())
    return len(seen)
DEFS = {}       # function introduced by define_content -> (indices, range, content)
def define_content(a, lim):
    "definitional extension: the content of the buffer of a becomes f(indices), with the axiom f(i) == old content in range"
    b, c = a.buf, ctx()
    if b.kind == 'x' or not b.shape: return
    old = freeze(b); sym = [z3.Int('#d%d' % k) for k in range(len(b.shape))]
    with c.binding(tuple(sym)): t = old(tuple(sym))
    if _dag_size(t, lim) <= lim: return
    # a name of its own across all paths: DEFS is keyed by it
    f = z3.Function('def!%d' % len(DEFS), *([I] * len(sym)), SORT[b.kind])
    rng = z3.And(*[z3.And(q >= 0, q < (d if z3.is_expr(d) else z3.IntVal(d))) for q, d in zip(sym, b.shape)])
    c.add(z3.ForAll(sym, z3.Implies(rng, f(*sym) == t), patterns=[f(*sym)]))
    DEFS[f.name()] = (sym, rng, t)
    b.fn = lambda idx: f(*[z3.IntVal(i) if isinstance(i, int) else i for i in idx]); b.memo = {}

def convert(t, k, k2):
    if k == k2: return t
    if 's' in (k, k2): raise Unsupported('conversion of strings')
    return to_kind(S(t, k), k2).t if k2 in 'ribx' else toword(t, k)

class StrDtype:
    "dtype of an array of strings whose stored width is not modelled"
    kind, char = 'U', 'U'
    def __init__(s, enc=False):
        if enc: s.kind = s.char = 'S'
    def __eq__(s, o): return not (s != o)
    def __ne__(s, o): return True if ctx().ghost.get('string widths differ') else ctx().choose(2) == 0
    __hash__ = None
def cut(a, w):
    "strings stored with a fixed width lose what does not fit"
    if w is None or a.kind != 's': return a
    ls = leaves(a)
    if ls is None: raise Unsupported('strings of unknown length in a column of fixed width')
    long = [x for x in ls if len(STRS[x]) > w]
    if not long: return a
    def f(t):
        r = t
        for x in long: r = z3.If(t == x, z3.IntVal(scode(STRS[x][:w])), r)
        return r
    return ew(f, 's', a)
def leaves(a):
    "the values of an integer-coded array when they are constants under conditions only, else None"
    iv = tuple(ctx().fresh('lv', I) for _ in a._shape)
    st, out, seen = [z3.simplify(a.at(iv)) if z3.is_expr(a.at(iv)) else z3.IntVal(a.at(iv))], set(), set()
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_int_value(t): out.add(t.as_long()); continue
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE: st += [t.arg(1), t.arg(2)]; continue
        return None
    return out
class Seg:
    "the elements of an array of symbolic length, added to a python list by extend"
    _seg_ = True
    def __init__(s, a): s.a = a
    def _u(s, *a, **k): raise Unsupported('element of a list extended by an array of symbolic length')
    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __getitem__ = __bool__ = __lt__ = __gt__ = __le__ = __ge__ = __eq__ = __ne__ = __iter__ = __len__ = __index__ = __call__ = _u
    __hash__ = None
class SArr:
    __array_like__ = True
    __array_ufunc__ = None
    __array_priority__ = 2000
    rows_from = None            # index array this array was selected with
    unravel = None              # (element function, shape) of the array this one flattens in C order
    def __init__(self, buf, shape, axes, meta=None):
        self.buf, self._shape, self.axes = buf, tuple(shape), axes
        self._meta, self._mv = meta, buf.version
    @property
    def meta(self): return self._meta if self._mv == self.buf.version else None    # not after the array was written
    @meta.setter
    def meta(self, m): self._meta, self._mv = m, self.buf.version
    @property
    def kind(self): return self.buf.kind
    @staticmethod
    def new(shape, fn, kind, meta=None):
        shape = tuple(sz(s) if z3.is_expr(s) else int(s) for s in shape)
        b = Buf(shape, fn, kind)
        return SArr(b, shape, [('ax', a, 0, 1) for a in range(len(shape))], meta)
    @staticmethod
    def const(shape, val, kind):
        return SArr.new(shape, lambda idx: val, kind)
    # -- element access on raw index terms
    def base(self, idx):
        r = []
        for d in self.axes:
            if d[0] == 'fix': r.append(d[1])
            else:
                i = idx[d[1]]
                r.append(zadd(d[2], i if d[3] == 1 else zmul(d[3], i)))
        return tuple(r)
    def at(self, *idx):
        if len(idx) == 1 and isinstance(idx[0], tuple): idx = idx[0]
        assert len(idx) == len(self._shape), (idx, self._shape)
        return self.buf.at(self.base(idx))
    def frozen(self):
        f = freeze(self.buf); ax = list(self.axes); me = SArr(self.buf, self._shape, ax)
        return lambda idx: f(me.base(idx))
    def s(self, *idx):
        return S(self.at(tuple(zi(i) for i in idx)), self.kind)
    # -- numpy surface
    @property
    def shape(self): return tuple(dim(d) for d in self._shape)
    @shape.setter
    def shape(self, v):
        r = self.reshape(tuple(v) if isinstance(v, (tuple, list)) else (v,))
        if r.buf is not self.buf:
            # a copy is the same array when nobody else holds the buffer: flat buffers restored to the shape they came from
            if self.unravel is None: raise Unsupported('assignment to shape')
        self.buf, self._shape, self.axes, self.meta, self.unravel = r.buf, r._shape, r.axes, r.meta, None
    @property
    def ndim(self): return len(self._shape)
    @property
    def size(self):
        r = 1
        for d in self._shape: r = zmul(r, d)
        return dim(r)
    @property
    def dtype(self):
        import numpy as np
        if self.kind == 's': return StrDtype(getattr(self, 'enc', False))
        return {'r': np.dtype(float), 'i': np.dtype(int), 'b': np.dtype(bool), 'w': np.dtype(int)}[self.kind]
    @property
    def T(self): return self.transpose()
    def transpose(self, *p):
        n = self.ndim
        if len(p) == 1 and isinstance(p[0], (tuple, list)): p = tuple(p[0])
        p = p or tuple(range(n))[::-1]
        inv = {a: k for k, a in enumerate(p)}
        axes = [d if d[0] == 'fix' else ('ax', inv[d[1]], d[2], d[3]) for d in self.axes]
        return SArr(self.buf, tuple(self._shape[a] for a in p), axes)
    def swapaxes(self, a, b):
        p = list(range(self.ndim)); p[a], p[b] = p[b], p[a]
        return self.transpose(*p)
    def __len__(self):
        d = self._shape[0]
        if isinstance(d, int): return d
        raise Unsupported('len() of symbolic length outside verified code')
    def __iter__(self):
        d = self._shape[0]
        if not isinstance(d, int): raise Unsupported('iteration over symbolic array')
        return iter([self[k] for k in range(d)])
    def __bool__(self):
        n = self.size
        if isinstance(n, int) and n == 1: return bool(S(self.at(*([0] * self.ndim)), self.kind))
        raise Unsupported('truth value of array')
    def __hash__(self): raise Unsupported('hash of array')
    def copy(self, *a, **k):
        f = self.frozen()
        r = SArr.new(self._shape, f, self.kind, self.meta); r.buf.width = self.buf.width
        if self.unravel is not None and self.unravel[2] == self.buf.version: r.unravel = self.unravel[:2] + (r.buf.version,)
        return r
    def get(self): return self
    def view(self, *a): return self
    def flatten(self, *a):
        if self.ndim == 1: return self.copy()
        r = self.reshape(-1)
        return r if r.buf is not self.buf else r.copy()
    def ravel(self, *a):
        if self.ndim == 1: return self
        return self.reshape(-1)
    def astype(self, dt, copy=True):
        if self.kind == 's':
            import numpy as np
            d = np.dtype(dt if not isinstance(dt, type) else str)
            if d.kind != 'U' or d.itemsize and leaves(self) is None: raise Unsupported('conversion of strings')
            r = self.copy(); r.buf.width = None
            if d.itemsize: r = cut(r, d.itemsize // 4); r.buf.width = d.itemsize // 4
            return r
        k = kind_of_dtype(dt)
        if self.kind == 'w' and k == 'i': return self.copy()
        f, k0 = self.frozen(), self.kind
        if k0 == 'x' and k == 'r': return self.copy()
        if k == 'i' and k0 == 'i':
            import numpy as np
            try: b = np.dtype(dt).itemsize
            except TypeError: b = 8
            if b < 4:
                from .npf import qall
                h = 2 ** (8 * b - 1) if np.dtype(dt).kind == 'i' else None
                lo, hi = (-h, h) if h else (0, 2 ** (8 * b))
                ctx().check('the values fit into %d-bit integers' % (8 * b), qall(self._shape, lambda i: AND(S(f(i), 'i') >= lo, S(f(i), 'i') < hi)), kind='safety')
        return SArr.new(self._shape, lambda i: convert(f(i), k0, k), k)
    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)): shape = tuple(shape[0])
        shape = [zi(d) for d in shape]
        mine = [d for d in self._shape]
        if -1 in [d for d in shape if isinstance(d, int)]:
            if len(shape) == 1:
                tot = 1
                for d in mine: tot = zmul(tot, d)
                shape = [tot]
            else:
                rest = [d for d in shape if not (isinstance(d, int) and d == -1)]
                left = list(mine)
                for d in rest:
                    for k, m in enumerate(left):
                        if zeq(m, d) is True: left.pop(k); break
                    else:
                        if d != 1: raise Unsupported('reshape with -1')
                tot = 1
                for d in left: tot = zmul(tot, d)
                shape = [tot if (isinstance(d, int) and d == -1) else d for d in shape]
        # only insertion / removal of unit axes, or all-concrete, or flattening with one non-unit axis
        a = [d for d in mine if not (isinstance(d, int) and d == 1)]
        b = [d for d in shape if not (isinstance(d, int) and d == 1)]
        f, kind = self.frozen(), self.kind
        if len(a) == len(b) and all(dim_equal(x, y) for x, y in zip(a, b)):
            # copy-free in numpy; returned as a view over the same buffer
            src = [k for k, d in enumerate(mine) if not (isinstance(d, int) and d == 1)]
            dst = [k for k, d in enumerate(shape) if not (isinstance(d, int) and d == 1)]
            mp = dict(zip(src, dst))
            axes = []
            for d in self.axes:
                if d[0] == 'fix': axes.append(d)
                elif d[1] in mp: axes.append(('ax', mp[d[1]], d[2], d[3]))
                else: axes.append(('fix', d[2]))
            return SArr(self.buf, shape, axes)
        if all(isinstance(d, int) for d in list(mine) + list(shape)):
            import math
            if math.prod(mine) != math.prod(shape): raise ValueError('cannot reshape')
            def fn(idx):
                lin = 0
                for i, d in zip(idx, shape): lin = zadd(zmul(lin, d), i)
                if not isinstance(lin, int): raise Unsupported('reshape access')
                out = []
                for d in reversed(mine): out.append(lin % d); lin //= d
                return f(tuple(reversed(out)))
            return SArr.new(shape, fn, kind)
        if len(shape) == 1:
            # C-order flattening; the elements are known again when the shape is restored
            tot = 1
            for d in mine: tot = zmul(tot, d)
            if dim_equal(tot, shape[0]):
                g = ctx().fresh_fn('flat', I, SORT[kind])
                r = SArr.new((shape[0],), lambda i: g(z3.IntVal(i[0]) if isinstance(i[0], int) else i[0]), kind)
                r.unravel = (f, tuple(mine), r.buf.version); return r
        if self.unravel is not None and self.unravel[2] == self.buf.version and len(shape) == len(self.unravel[1]) and all(dim_equal(x, y) for x, y in zip(shape, self.unravel[1])):
            return SArr.new(shape, self.unravel[0], kind)
        raise Unsupported('reshape %s -> %s' % (mine, shape))
    # -- indexing
    def __getitem__(self, key):
        return getitem(self, key)
    def __setitem__(self, key, val):
        setitem(self, key, val)
    # -- reductions
    def sum(self, axis=None, **kw): 
        from .npf import np_sum
        return np_sum(self, axis=axis, **kw)
    def max(self, axis=None):
        from .npf import red_max
        return red_max(self, axis)
    def min(self, axis=None):
        from .npf import red_min
        return red_min(self, axis)
    def any(self, axis=None):
        from .npf import red_any
        return red_any(self, axis)
    def all(self, axis=None):
        from .npf import red_all
        return red_all(self, axis)
    def argsort(self, axis=-1, kind=None, stable=None):
        from .npf import argsort
        return argsort(self, axis, kind=kind, stable=stable)
    def argmin(self, axis=None):
        from .npf import argmin
        return argmin(self, axis)
    def argmax(self, axis=None):
        from .npf import argmax
        return argmax(self, axis)
    def dot(self, o):
        from .npf import dot
        return dot(self, o)
    def fill(self, v): self[...] = v
    def tolist(self):
        return [self[k] for k in range(len(self))]
    def item(self):
        return S(self.at(*([0] * self.ndim)), self.kind)

def full_slice(d):
    return ('sl', 0, d, 1)

def norm_index(i, n, what='index'):
    "program-level scalar index i on axis of length n -> base index term (numpy wrap-around, bounds obligation)"
    c = ctx()
    i = zi(i)
    if isinstance(i, int) and isinstance(n, int):
        if not (-n <= i < n): raise IndexError('index %d out of bounds for axis of size %d' % (i, n))
        return i % n
    if isinstance(i, int):
        if i >= 0:
            c.check('index %d within bounds' % i, zlt(i, n), kind='safety'); return i
        c.check('index %d within bounds' % i, zle(-i, n), kind='safety'); return zadd(n, i)
    neg = c.decide(i < 0)
    if neg:
        c.check('index within bounds', zle(0, zadd(n, i)), kind='safety')
        return zadd(n, i)
    c.check('index within bounds', zlt(i, n), kind='safety')
    return i

def clamp(i, n):
    c = ctx()
    if isinstance(i, int) and isinstance(n, int):
        if i < 0: i = max(0, n + i)
        return min(i, n)
    if isinstance(i, int) and i == 0: return 0
    if c.decide(tb(zlt(i, 0))):
        j = zadd(n, i)
        return 0 if c.decide(tb(zlt(j, 0))) else j
    return i if c.decide(tb(zle(i, n))) else n

def norm_slice(sl, n):
    step = 1 if sl.step is None else sl.step
    if not isinstance(step, int): raise Unsupported('symbolic slice step')
    if step == -1 and sl.start is None and sl.stop is None:
        return (zsub(n, 1), n, -1)
    if step < 1: raise Unsupported('slice step')
    lo = 0 if sl.start is None else clamp(zi(sl.start), n)
    hi = n if sl.stop is None else clamp(zi(sl.stop), n)
    ln = zsub(hi, lo)
    if isinstance(ln, int): ln = max(0, ln)
    elif not ctx().decide(tb(zle(0, ln))): ln = 0
    if step > 1:
        if isinstance(ln, int): ln = (ln + step - 1) // step
        else: ln = sz((ln + (step - 1)) / step)
    return (lo, ln, step)

def is_arr(x): return isinstance(x, SArr)

def as_arr(x, kind=None):
    import numpy as np
    if isinstance(x, SArr): return x
    if isinstance(x, (S, int, float, bool, np.generic)):
        t, k = lift(x); return SArr.new((), lambda i: t, k)
    if isinstance(x, str): t = lift(x)[0]; return SArr.new((), lambda i: t, 's')
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'U': return from_codes(np.array([scode(e) for e in x.ravel()], dtype=int).reshape(x.shape))
        if x.dtype.kind not in 'fiub': raise Unsupported('object array')
        if x.dtype.kind == 'f' and not np.isfinite(x).all(): raise Unsupported('non-finite constant array')
        return from_np(x)
    if isinstance(x, (list, tuple)):
        if any(type(e) is Seg for e in x): return from_segs(x)
        return from_list(list(x))
    if hasattr(x, 'to_sarr'): return x.to_sarr()
    raise Unsupported('array from %r' % type(x))

def from_codes(x):
    a = from_np(x); f = a.frozen(); return SArr.new(a._shape, f, 's')
def from_np(x):
    k = {'f': 'r', 'i': 'i', 'u': 'i', 'b': 'b'}[x.dtype.kind]
    def fn(idx):
        if all(isinstance(i, int) for i in idx):
            return lift(x[idx].item() if idx else x.item())[0]
        return _ite_chain(x, idx)
    return SArr.new(x.shape, fn, k)

def _ite_chain(x, idx):
    if len(idx) == 0: return lift(x.item())[0]
    i = idx[0]
    if isinstance(i, int): return _ite_chain(x[i], idx[1:])
    if x.shape[0] > 4096: raise Unsupported('symbolic index into large constant table')
    if x.shape[0] == 0: return lift(x.dtype.type(0).item())[0]
    flat = x.ravel()
    if (flat == flat[0]).all() and flat.size: return lift(flat[0].item())[0]
    r = _ite_chain(x[-1], idx[1:])
    for k in range(x.shape[0] - 2, -1, -1):
        r = z3.If(i == k, _ite_chain(x[k], idx[1:]), r)
    return r

def kind_join(ks):
    if 's' in ks:
        if any(k != 's' for k in ks): raise Unsupported('array of strings and numbers')
        return 's'
    if 'x' in ks: return 'x'
    if 'r' in ks: return 'r'
    if 'w' in ks: return 'w'
    if 'i' in ks: return 'i'
    return 'b'

def from_segs(xs):
    "list with symbolic segments: their concatenation; knows where a value is, when the segments do"
    from .npf import concatenate
    ps = [e.a if type(e) is Seg else from_list([e]) for e in xs]
    r = concatenate(ps)
    if r.kind == 'i' and all(p.ndim == 1 and p.meta is not None and p.meta.hit is not None for p in ps):
        offs, n = [], 0
        for p in ps: offs.append(n); n = zadd(n, p._shape[0])
        def inv(val):
            t = z3.IntVal(0)
            for p, o in reversed(list(zip(ps, offs))):
                h = p.meta.hit(val); t = ite(h, zadd(o, p.meta.pos(val)), t)
            return t
        r.meta = IndexMeta(inverse=inv); r.meta.hit = lambda val: OR(*[p.meta.hit(val) for p in ps])
    return r
def from_list(xs):
    if len(xs) == 0: return SArr.new((0,), lambda i: z3.RealVal(0), 'r')
    import numpy as np
    if any(isinstance(x, (SArr, list, tuple, np.ndarray)) for x in xs):
        rows = [as_arr(x) for x in xs]
        nd = rows[0].ndim
        for r in rows[1:]:
            if r.ndim != nd: raise ValueError('inhomogeneous array')
            for a, b in zip(r._shape, rows[0]._shape):
                if not dim_equal(a, b): raise ValueError('inhomogeneous array')
        k = kind_join([r.kind for r in rows])
        fs = [(r.frozen(), r.kind) for r in rows]
        def fn(idx):
            i = idx[0]
            if isinstance(i, int): return convert(fs[i][0](idx[1:]), fs[i][1], k)
            t = convert(fs[-1][0](idx[1:]), fs[-1][1], k)
            for j in range(len(fs) - 2, -1, -1):
                t = z3.If(i == j, convert(fs[j][0](idx[1:]), fs[j][1], k), t)
            return t
        return SArr.new((len(xs),) + rows[0]._shape, fn, k)
    ts = [lift(x) for x in xs]
    k = kind_join([t[1] for t in ts])
    ts = [convert(t, kk, k) for t, kk in ts]
    def fn(idx):
        i = idx[0]
        if isinstance(i, int): return ts[i]
        t = ts[-1]
        for j in range(len(ts) - 2, -1, -1): t = z3.If(i == j, ts[j], t)
        return t
    return SArr.new((len(xs),), fn, k)

# ---------------------------------------------------------------- broadcasting
def broadcast_shape(shapes):
    nd = max((len(s) for s in shapes), default=0)
    out = []
    for a in range(1, nd + 1):
        d = 1
        for s in shapes:
            if len(s) < a: continue
            e = s[-a]
            if isinstance(e, int) and e == 1: continue
            if isinstance(d, int) and d == 1: d = e; continue
            if not dim_equal(d, e):
                if isinstance(d, int) and isinstance(e, int): raise ValueError('operands could not be broadcast together')
                # symbolic: equal or incompatible (unit symbolic axes treated as incompatible)
                if not ctx().decide(tb(zeq(d, e))): raise ValueError('operands could not be broadcast together')
        out.append(d)
    return tuple(reversed(out))

def bidx(idx, shape):
    "index of an operand of this shape under broadcasting"
    off = len(idx) - len(shape)
    return tuple((0 if (isinstance(d, int) and d == 1) else idx[off + a]) for a, d in enumerate(shape))

def ew(fn, kind, *ops):
    "elementwise operation; fn receives z3 terms (and kinds via closure)"
    arrs = [as_arr(o) for o in ops]
    shp = broadcast_shape([a._shape for a in arrs])
    fs = [(a.frozen(), a._shape) for a in arrs]
    def el(idx):
        return fn(*[f(bidx(idx, s)) for f, s in fs])
    if callable(kind): kind = kind(*[a.kind for a in arrs])
    return SArr.new(shp, el, kind)

def _mk(op):
    def f(self, o, swap=False):
        if o is None: return NotImplemented
        try: A, Bb = as_arr(self), as_arr(o)
        except Unsupported:
            if hasattr(o, 'to_sarr') or isinstance(o, (S, int, float)): raise
            return NotImplemented
        if swap: A, Bb = Bb, A
        ka, kb = A.kind, Bb.kind
        if op in ('<', '<=', '>', '>=', '==', '!='):
            return ew(lambda x, y: compare_t(op, x, ka, y, kb), 'b', A, Bb)
        if op in '&|^':
            k = bitop_kind(ka, kb)
            return ew(lambda x, y: bitop_t(op, x, ka, y, kb)[0], k, A, Bb)
        if op == '/':
            div_safety(Bb)
        k = 'x' if 'x' in (ka, kb) else 'r' if op == '/' or 'r' in (ka, kb) else ('r' if op == '**' and _fracpow(Bb) else 'i')
        def g(x, y):
            t, kk = arith_t(op, x, ka, y, kb)
            return convert(t, kk, k)
        return ew(g, k, A, Bb)
    return f
def bitop_kind(a, b):
    if 'w' in (a, b): return 'w'
    if a == b == 'b': return 'b'
    raise Unsupported('bitwise op on integer arrays')
def _fracpow(b):
    return b.kind == 'r'

def div_safety(b):
    """elementwise division: every divisor must be non-zero (numpy would give inf/nan with a warning);
    emitted as one obligation over the whole divisor array"""
    c = ctx()
    if not getattr(c, 'check_div', True): return
    idx = [c.fresh('dv', I) for _ in b._shape]
    rng = AND(*[inrange(i, d) for i, d in zip(idx, b._shape)])
    t = num(b.at(tuple(bidx(tuple(idx), b._shape))) if b._shape else b.at(), b.kind)
    s = simp(t != 0)
    if z3.is_true(s): return
    c.check('division by zero cannot happen', IMP(rng, t != 0), kind='safety', assume=False)

for _op, _n in [('+','add'),('-','sub'),('*','mul'),('/','truediv'),('//','floordiv'),('%','mod'),('**','pow'),
                ('&','and'),('|','or'),('^','xor')]:
    f = _mk(_op)
    setattr(SArr, '__%s__' % _n, (lambda g: lambda s, o: g(s, o))(f))
    setattr(SArr, '__r%s__' % _n, (lambda g: lambda s, o: g(s, o, True))(f))
    def _ip(g):
        def ip(self, o):
            r = g(self, o)
            if r is NotImplemented: return r
            write_view(self, r); return self
        return ip
    setattr(SArr, '__i%s__' % _n, _ip(f))
for _op, _n in [('<','lt'),('<=','le'),('>','gt'),('>=','ge'),('==','eq'),('!=','ne')]:
    f = _mk(_op)
    setattr(SArr, '__%s__' % _n, (lambda g: lambda s, o: g(s, o))(f))
def _neg(s): k = s.kind; return ew(lambda x: -num(x, k), 'r' if k == 'r' else 'i', s)
SArr.__neg__ = _neg
def _inv(s):
    if s.kind == 'b': return ew(lambda x: z3.Not(x), 'b', s)
    if s.kind == 'w': return ew(lambda x: ~x, 'w', s)
    raise Unsupported('~ on integer array')
SArr.__invert__ = _inv
def _abs(s): k = s.kind; return ew(lambda x: z3.If(num(x, k) >= 0, num(x, k), -num(x, k)), k if k != 'b' else 'i', s)
SArr.__abs__ = _abs
def _matmul(a, b):
    from .npf import matmul
    return matmul(a, b)
SArr.__matmul__ = lambda s, o: _matmul(s, o)
SArr.__rmatmul__ = lambda s, o: _matmul(o, s)

# ---------------------------------------------------------------- selections
class Sel:
    "enumeration of the true positions of a mask, in row-major order"
    def __init__(self, shape, mask):
        c = ctx()
        self.shape, self.mask = shape, mask
        nd = len(shape)
        self.m = c.fresh('nsel', I)
        self.sel = [c.fresh_fn('sel%d' % a, I, I) for a in range(nd)]
        self.rank = c.fresh_fn('rank', *([I] * nd), I)
        c.add(self.m >= 0)
        k = z3.Const('k', I)
        sk = [f(k) for f in self.sel]
        c.add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < self.m),
              _b(AND(*[inrange(x, d) for x, d in zip(sk, shape)], mask(tuple(sk)), self.rank(*sk) == k))),
              patterns=[sk[0]] ))
        iv = [z3.Const('i%d' % a, I) for a in range(nd)]
        c.add(z3.ForAll(iv, z3.Implies(_b(AND(*[inrange(x, d) for x, d in zip(iv, shape)], mask(tuple(iv)))),
              _b(AND(self.rank(*iv) >= 0, self.rank(*iv) < self.m, *[f(self.rank(*iv)) == x for f, x in zip(self.sel, iv)]))),
              patterns=[self.rank(*iv)]))
        # explicit trigger for completeness: any array term at iv
        mt = mask(tuple(iv))
        pats = [p for p in _trigger_candidates(mt, iv)]
        for p in pats[:3]:
            c.add(z3.ForAll(iv, z3.Implies(_b(AND(*[inrange(x, d) for x, d in zip(iv, shape)], mt)),
              _b(AND(self.rank(*iv) >= 0, self.rank(*iv) < self.m, *[f(self.rank(*iv)) == x for f, x in zip(self.sel, iv)]))),
              patterns=[p]))
        if nd == 1:
            # the mask reads an array at a shifted index: same axiom, triggered at the array's own index
            for fd, off in _shifted_candidates(mt, iv[0])[:3]:
                b = z3.Const('b0', I); x = z3.simplify(b - off)
                body = z3.simplify(z3.substitute(mt, (iv[0], x))) if z3.is_expr(mt) else mt
                c.add(z3.ForAll([b], z3.Implies(_b(AND(inrange(x, shape[0]), body)),
                      _b(AND(self.rank(x) >= 0, self.rank(x) < self.m, self.sel[0](self.rank(x)) == x))), patterns=[fd(b)]))
            l = z3.Const('l', I)
            f = self.sel[0]
            c.add(z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k < l, l < self.m), f(k) < f(l)),
                  patterns=[z3.MultiPattern(f(k), f(l))]))
            if isinstance(shape[0], int): c.add(self.m <= shape[0])
            else: c.add(self.m <= shape[0])
        self.count_axioms = True
    def select(self, k):
        "k-th true position; simplified when k is a rank term"
        if z3.is_expr(k) and k.decl().eq(self.rank):
            return tuple(sz(x) for x in k.children())
        kk = z3.IntVal(k) if isinstance(k, int) else k
        return tuple(f(kk) for f in self.sel)
    def rankof(self, idx):
        idx = [z3.IntVal(i) if isinstance(i, int) else i for i in idx]
        # rank(sel(k)) -> k
        if len(idx) and z3.is_app(idx[0]) and idx[0].num_args() == 1 and idx[0].decl().eq(self.sel[0]):
            return idx[0].arg(0)
        return self.rank(*idx)

def _b(x): return z3.BoolVal(x) if isinstance(x, bool) else x

def _trigger_candidates(t, vs):
    "applications of uninterpreted functions whose arguments are exactly the bound variables"
    out, seen = [], set()
    ids = {v.get_id() for v in vs}
    def walk(e):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
                a = {x.get_id() for x in e.children()}
                if ids <= a: out.append(e)
            for ch in e.children(): walk(ch)
    if z3.is_expr(t): walk(t)
    return out

def _shifted_candidates(t, v):
    "(array symbol, offset) for applications f(v + offset)"
    out, seen = [], set()
    def walk(e):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() == 1 and e.arg(0).sort() == I and not e.arg(0).eq(v):
                off = z3.simplify(e.arg(0) - v)
                if not any(x.eq(v) for x in _consts(off)) and not any(fd.eq(e.decl()) and o.eq(off) for fd, o in out):
                    out.append((e.decl(), off))
            for ch in e.children(): walk(ch)
    if z3.is_expr(t): walk(t)
    return out
def _consts(t):
    st, seen = [t], set()
    while st:
        e = st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.num_args() == 0: yield e
        st.extend(e.children())

def mask_sel(mask):
    c = ctx()
    reg = c.ghost.setdefault('sels', {})
    iv = tuple(z3.Const('mask!i%d' % a, I) for a in range(mask.ndim))
    t = mask.at(iv)
    key = (str(mask._shape), z3.simplify(t).sexpr() if z3.is_expr(t) else str(t))
    for k, s in reg.items():
        if k == key: return s
    # concrete shape: handled by forking on every element when small
    f = mask.frozen()
    s = Sel(mask._shape, f)
    reg[key] = s
    return s

def partition_lemma(sels, name):
    """lemma of counting: selections of one range that are disjoint and together cover it
    have as many elements together as the range"""
    c = ctx(); n = sels[0].shape[0]
    q = c.fresh('q', I)
    ms = [_b(tb(S(s.mask((q,)), 'b'))) for s in sels]
    one = z3.PbEq([(m, 1) for m in ms], 1)
    c.check(name + ': every element is in exactly one selection', z3.Implies(_b(inrange(q, n)), one), kind='lemma')
    c.add(z3.Sum([s.m if z3.is_expr(s.m) else z3.IntVal(s.m) for s in sels]) == (n if z3.is_expr(n) else z3.IntVal(n)))

def small_concrete_mask(mask):
    "concrete shape: decide each element by path forking (bounded mode)"
    return all(isinstance(d, int) for d in mask._shape)

class FixedSel:
    "selection with concrete positions"
    def __init__(self, shape, pos):
        self.shape, self.pos = shape, pos
        self.m = len(pos)
    def select(self, k):
        if isinstance(k, int): return self.pos[k]
        nd = len(self.shape)
        out = []
        for a in range(nd):
            t = z3.IntVal(self.pos[-1][a]) if self.pos else z3.IntVal(0)
            for j in range(len(self.pos) - 2, -1, -1): t = z3.If(k == j, z3.IntVal(self.pos[j][a]), t)
            out.append(t)
        return tuple(out)
    def rankof(self, idx):
        if all(isinstance(i, int) for i in idx):
            return self.pos.index(tuple(idx)) if tuple(idx) in self.pos else 0
        t = z3.IntVal(0)
        for j, p in enumerate(self.pos):
            t = z3.If(z3.And(*[_b(zeq(i, q)) for i, q in zip(idx, p)]), z3.IntVal(j), t)
        return t
    def mask(self, idx):
        if all(isinstance(i, int) for i in idx): return tuple(idx) in self.pos
        return OR(*[AND(*[zeq(i, q) for i, q in zip(idx, p)]) for p in self.pos])

def selection(mask):
    if small_concrete_mask(mask):
        import itertools
        if ctx().ghost.get('masks stay symbolic'):
            ts = [S(mask.at(p), 'b') for p in itertools.product(*[range(d) for d in mask._shape])]
            if not all(isinstance(tb(t), bool) or z3.is_true(z3.simplify(t.t)) or z3.is_false(z3.simplify(t.t)) for t in ts): return mask_sel(mask)
        pos = []
        for p in itertools.product(*[range(d) for d in mask._shape]):
            if ctx().decide(tb(S(mask.at(p), 'b'))): pos.append(p)
        return FixedSel(mask._shape, pos)
    return mask_sel(mask)

class IndexMeta:
    "how an index array came about: lets a scatter through it be inverted"
    def __init__(self, sel=None, inverse=None, axis=0):
        self.sel, self.inverse, self.axis = sel, inverse, axis
        self.hit = (lambda val: AND(inrange(val, sel.shape[0]), sel.mask((val,)))) if isinstance(sel, Sel) else None
    def pos(self, val):
        "position at which a value occurs (None when unknown)"
        if self.inverse is not None: return self.inverse(val)
        if self.sel is not None: return self.sel.rankof((val,))
        return None

# ---------------------------------------------------------------- getitem / setitem
def expand_key(a, key):
    if not isinstance(key, tuple): key = (key,)
    key = list(key)
    n = 0
    for k in key:
        if k is None: continue
        if k is Ellipsis: continue
        if is_arr(k) and k.kind == 'b': n += k.ndim
        else: n += 1
    if any(k is Ellipsis for k in key):
        e = [i for i, k in enumerate(key) if k is Ellipsis][0]
        key[e:e + 1] = [slice(None)] * (a.ndim - n)
    else:
        key += [slice(None)] * (a.ndim - n)
    if n > a.ndim: raise IndexError('too many indices for array')
    return key

def normkey(a, key):
    import numpy as np
    key = expand_key(a, key)
    out = []
    for k in key:
        if isinstance(k, (list, np.ndarray)) or hasattr(k, 'to_sarr'): k = as_arr(k)
        out.append(k)
    return out

def getitem(a, key):
    key = normkey(a, key)
    adv = [k for k in key if is_arr(k) and not (k.ndim == 0)]
    if adv: return getitem_adv(a, key)
    return basic_view(a, key)

def basic_view(a, key):
    vshape, amap, ax = [], {}, 0
    for k in key:
        if k is None: vshape.append(1); continue
        n = a._shape[ax]
        if isinstance(k, slice):
            lo, ln, st = norm_slice(k, n)
            amap[ax] = ('ax', len(vshape), lo, st); vshape.append(ln)
        else:
            if is_arr(k): k = k.item()
            amap[ax] = ('fix', norm_index(k, n))
        ax += 1
    axes = []
    for d in a.axes:
        if d[0] == 'fix': axes.append(d); continue
        m = amap[d[1]]
        if m[0] == 'fix': axes.append(('fix', zadd(d[2], zmul(d[3], m[1]))))
        else: axes.append(('ax', m[1], zadd(d[2], zmul(d[3], m[2])), zmul(d[3], m[3])))
    meta = a.meta if len(vshape) == a.ndim and all(isinstance(k, slice) and k == slice(None) for k in key) else None
    if meta is None and a.meta is not None and a.ndim == 1 and len(key) == 1 and isinstance(key[0], slice) and amap[0][3] == 1 and a.meta.pos(0) is not None:
        m0, lo, ln = a.meta, amap[0][2], vshape[0]
        meta = IndexMeta(inverse=lambda val: zsub(m0.pos(val), lo))
        if m0.hit is not None: meta.hit = lambda val: AND(m0.hit(val), inrange(zsub(m0.pos(val), lo), ln))
    v = SArr(a.buf, vshape, axes, meta)
    if not vshape:
        return S(a.buf.at(v.base(())), a.kind)
    return v

class MaskOnly:
    "a selection that is only asked for membership (a single value is written to all of it)"
    m = 0
    def __init__(self, mask): self.mask = mask.frozen()
    def rankof(self, idx): return 0
def adv_plan(a, key, scalar=False):
    """decompose a key with boolean masks / one integer index array into
    (result shape, map result index -> array index, inverse condition)"""
    parts, ax, vshape = [], 0, []
    nadv = 0
    for k in key:
        if k is None: parts.append(('new',)); vshape.append(1); continue
        if is_arr(k) and k.kind == 'b' and k.ndim > 0:
            nadv += 1
            for a1, d in zip(k._shape, a._shape[ax:ax + k.ndim]):
                if not dim_equal(a1, d): raise IndexError('boolean index did not match')
            sel = selection(k) if not scalar else MaskOnly(k)
            parts.append(('mask', sel, ax, k.ndim, len(vshape), k)); vshape.append(sel.m); ax += k.ndim
        elif is_arr(k) and k.ndim > 0:
            nadv += 1
            parts.append(('int', k, ax, k.ndim, len(vshape))); vshape.extend(k._shape); ax += 1
        elif isinstance(k, slice):
            lo, ln, st = norm_slice(k, a._shape[ax])
            parts.append(('sl', lo, ln, st, ax, len(vshape))); vshape.append(ln); ax += 1
        else:
            if is_arr(k): k = k.item()
            parts.append(('fix', norm_index(k, a._shape[ax]), ax)); ax += 1
    if nadv > 1: raise Unsupported('several advanced indices')
    if any(p[0] == 'fix' for p in parts) and nadv and any(p[0] == 'sl' for p in parts):
        raise Unsupported('mixed scalar and advanced index')
    return parts, tuple(vshape)

def check_int_index(k, n):
    "bounds of an index array: obligation; returns function idx-> wrapped index"
    c = ctx()
    f = k.frozen()
    iv = [c.fresh('ix', I) for _ in k._shape]
    rng = AND(*[inrange(i, d) for i, d in zip(iv, k._shape)])
    t = f(tuple(iv))
    if k.meta is not None:   # produced by where / argsort: non negative by construction
        c.check('index array within bounds', IMP(rng, AND(zle(0, t), zlt(t, n))), kind='safety', assume=False)
        return f
    if all(isinstance(d, int) for d in k._shape):
        def g(idx):
            t = f(idx); t = sz(t) if z3.is_expr(t) else t
            if isinstance(t, int): return t if t >= 0 else zadd(n, t)
            return z3.If(t < 0, n + t, t)
    else:
        def g(idx):
            t = f(idx)
            return z3.If(t < 0, n + t, t)
    c.check('index array within bounds', IMP(rng, AND(zle(zsub(0, n), t), zlt(t, n))), kind='safety', assume=False)
    return g

def getitem_adv(a, key):
    parts, vshape = adv_plan(a, key)
    src = a.frozen()
    meta = None
    fns = []
    for p in parts:
        if p[0] == 'int': fns.append((p, check_int_index(p[1], a._shape[p[2]])))
        else: fns.append((p, None))
    def el(idx):
        full = [None] * a.ndim
        for p, g in fns:
            if p[0] == 'new': continue
            if p[0] == 'mask':
                pos = p[1].select(idx[p[4]])
                for o in range(p[3]): full[p[2] + o] = sz(pos[o]) if z3.is_expr(pos[o]) else pos[o]
            elif p[0] == 'int':
                t = g(tuple(idx[p[4]:p[4] + p[3]])); full[p[2]] = sz(t) if z3.is_expr(t) else t
            elif p[0] == 'sl': full[p[4]] = zadd(p[1], zmul(p[3], idx[p[5]]))
            else: full[p[2]] = p[1]
        return src(tuple(full))
    if len(parts) == 1 and parts[0][0] == 'mask': meta = None
    # int-array indexed by index arrays keeps inverse knowledge: ii[jj]
    if a.kind == 'i' and a.meta is not None and a.ndim == 1 and len(parts) == 1:
        meta = IndexMeta()
        k = parts[0]
        am = a.meta
        if k[0] == 'int' and k[1].meta is not None and k[1].ndim == 1:
            jm = k[1].meta
            if am.pos(0) is not None and jm.pos(0) is not None:
                meta.inverse = lambda val: jm.pos(am.pos(val))
    r = SArr.new(vshape, el, a.kind, meta); r.buf.width = a.buf.width
    if len([p for p in parts if p[0] == 'int']) == 1: r.rows_from = [p[1] for p in parts if p[0] == 'int'][0]
    return r

def setitem(a, key, val):
    if isinstance(key, slice) and key == slice(None) or key is Ellipsis:
        return write_view(a, val)
    key = normkey(a, key)
    if any(is_arr(k) and k.ndim > 0 for k in key):
        return setitem_adv(a, key, val)
    v = basic_view_for_write(a, key)
    write_view(v, val)

def basic_view_for_write(a, key):
    vshape, amap, ax = [], {}, 0
    for k in key:
        if k is None: vshape.append(1); continue
        n = a._shape[ax]
        if isinstance(k, slice):
            lo, ln, st = norm_slice(k, n)
            amap[ax] = ('ax', len(vshape), lo, st); vshape.append(ln)
        else:
            if is_arr(k): k = k.item()
            amap[ax] = ('fix', norm_index(k, n))
        ax += 1
    axes = []
    for d in a.axes:
        if d[0] == 'fix': axes.append(d); continue
        m = amap[d[1]]
        if m[0] == 'fix': axes.append(('fix', zadd(d[2], zmul(d[3], m[1]))))
        else: axes.append(('ax', m[1], zadd(d[2], zmul(d[3], m[2])), zmul(d[3], m[3])))
    return SArr(a.buf, vshape, axes)

def write_view(v, val):
    val = cut(as_arr(val), v.buf.width)
    bs = broadcast_shape([v._shape, val._shape])
    if len(bs) > len(v._shape):
        # numpy allows leading unit axes to be dropped on assignment
        if all(isinstance(d, int) and d == 1 for d in bs[:len(bs) - len(v._shape)]): 
            val = val.reshape(val._shape[len(val._shape) - len(v._shape):])
        else: raise ValueError('could not broadcast input array')
    for x, y in zip(bs[len(bs) - len(v._shape):], v._shape):
        if not dim_equal(x, y): raise ValueError('could not broadcast input array into shape')
    vf, vk, vs = val.frozen(), val.kind, val._shape
    buf = v.buf
    buf.note_write()
    if vk == 'x' and buf.kind == 'r': buf.promote()
    old = freeze(buf)
    nd = len(v._shape)
    def fn(bi):
        conds, idx = [], [0] * nd
        for d, b, bd in zip(v.axes, bi, buf.shape):
            if d[0] == 'fix': conds.append(zeq(b, d[1]))
            else:
                if d[3] == 1: i = zsub(b, d[2])
                elif d[3] == -1: i = zsub(d[2], b)
                else: raise Unsupported('strided write')
                idx[d[1]] = i
                n = v._shape[d[1]]
                if not (d[2] == 0 and d[3] == 1 and zeq(n, bd) is True) :
                    conds.append(inrange(i, n))
        c = AND(*conds)
        return ite(c, lambda: convert(vf(bidx(tuple(idx), vs)), vk, buf.kind), lambda: old(bi))
    buf.setfn(fn)

def setitem_adv(a, key, val):
    val = cut(as_arr(val), a.buf.width)
    parts, vshape = adv_plan(a, key, scalar=not val._shape)
    bs = broadcast_shape([vshape, val._shape])
    for x, y in zip(bs, vshape):
        if not dim_equal(x, y): raise ValueError('shape mismatch in assignment')
    vf, vk, vs = val.frozen(), val.kind, val._shape
    buf = a.buf
    buf.note_write()
    old = freeze(buf)
    for p in parts:
        if p[0] == 'int':
            check_int_index(p[1], a._shape[p[2]])
    def fn(bi):
        # base index -> index in a
        ai, conds = [None] * a.ndim, []
        for d, b in zip(a.axes, bi):
            if d[0] == 'fix': conds.append(zeq(b, d[1]))
            else:
                i = zsub(b, d[2]) if d[3] == 1 else zsub(d[2], b)
                ai[d[1]] = i
                if not (d[2] == 0 and d[3] == 1): conds.append(inrange(i, a._shape[d[1]]))
        idx = [0] * len(vshape)
        for p in parts:
            if p[0] == 'new': continue
            if p[0] == 'mask':
                pos = tuple(ai[p[2]:p[2] + p[3]])
                conds.append(S(p[1].mask(pos), 'b') if z3.is_expr(p[1].mask(pos)) else p[1].mask(pos))
                idx[p[4]] = p[1].rankof(pos)
            elif p[0] == 'sl':
                i = zsub(ai[p[4]], p[1])
                conds.append(inrange(i, p[2])); idx[p[5]] = i
            elif p[0] == 'fix': conds.append(zeq(ai[p[2]], p[1]))
            else:
                k = p[1]
                if k.ndim != 1: raise Unsupported('scatter through nd index array')
                pos = ai[p[2]]
                if k.meta is not None and k.meta.sel is not None:
                    conds.append(k.meta.sel.mask((pos,))); idx[p[4]] = k.meta.sel.rankof((pos,))
                elif isinstance(k._shape[0], int):
                    # concrete length: last write wins
                    kf = k.frozen()
                    hit, at = False, 0
                    for q in range(k._shape[0]):
                        t = sz(kf((q,))) if z3.is_expr(kf((q,))) else kf((q,))
                        e = zeq(pos, t)
                        at = ite(tb(e), (z3.IntVal(q)), at if z3.is_expr(at) else z3.IntVal(at)) if not isinstance(e, bool) else (q if e else at)
                        hit = OR(hit, e)
                    conds.append(hit); idx[p[4]] = sz(at) if z3.is_expr(at) else at
                else: raise Unsupported('scatter through general index array')
        c = AND(*conds)
        return ite(c, lambda: convert(vf(bidx(tuple(idx), vs)), vk, buf.kind), lambda: old(bi))
    buf.setfn(fn)

def named(a, name='arr'):
    "give the current content a function symbol (smaller terms, better triggers)"
    c = ctx()
    f = c.fresh_fn(name, *([I] * a.ndim), SORT[a.kind])
    iv = [z3.Const('n%d' % k, I) for k in range(a.ndim)]
    g = a.frozen()
    c.add(z3.ForAll(iv, f(*iv) == g(tuple(iv)), patterns=[f(*iv)]))
    return SArr.new(a._shape, lambda idx: f(*[z3.IntVal(i) if isinstance(i, int) else i for i in idx]), a.kind, a.meta)

def symarr(name, shape, kind='r'):
    c = ctx()
    shape = tuple(zi(d) for d in shape)
    f = z3.Function(name, *([I] * len(shape)), SORT[kind])
    return SArr.new(shape, lambda idx: f(*[z3.IntVal(i) if isinstance(i, int) else i for i in idx]), kind)
