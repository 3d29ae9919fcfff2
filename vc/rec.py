"""Lists of records (python dicts with the same keys) of symbolic length: one array per
field, rows addressed by position; `results[i]['npixels'] = ...` writes through the array,
so references to the same record agree."""
import z3
from .core import *
from .arr import *
from .arr import _b

class Const:
    "field with the same python value in every record"
    def __init__(s, val): s.val = val
class RowArr:
    "field holding one row of nb numbers, stored as (nb,) or (1,nb): usable by vstack only"
    def __init__(s, view): s.view = view
    def _no(s, *a, **k): raise Unsupported('use of a record field with undetermined shape')
    __getattr__ = __getitem__ = __len__ = __iter__ = __add__ = __mul__ = __eq__ = _no
    __hash__ = None

def _rowview(a, row):
    axes = []
    for d in a.axes:
        if d[0] == 'fix': axes.append(d)
        elif d[1] == 0: axes.append(('fix', zadd(d[2], zmul(d[3], row))))
        else: axes.append(('ax', d[1] - 1, d[2], d[3]))
    return SArr(a.buf, a._shape[1:], axes)

class RecStore:
    dynamic = False
    def __init__(s, n, fields, rows=(), readonly=False):
        s.n, s.f, s.rows, s.readonly = zi(n), dict(fields), set(rows), readonly
    @staticmethod
    def fresh(desc, name='rec'):
        "arbitrary content"
        c = ctx(); n = c.fresh(name + '_n', I); c.add(n >= 0)
        f, rows = {}, set()
        for k, d in desc.items():
            if isinstance(d, Const): f[k] = d; continue
            kind, trail = (d, ()) if isinstance(d, str) else (d[0], tuple(zi(x) for x in d[1:]))
            if kind == 'row': rows.add(k); kind = 'r'
            g = c.fresh_fn(name + '_' + k, *([I] * (1 + len(trail))), SORT[kind])
            f[k] = SArr.new((n,) + trail, (lambda g: lambda i: g(*[z3.IntVal(x) if isinstance(x, int) else x for x in i]))(g), kind)
        return RecStore(n, f, rows)

class RecView:
    "one record"
    _record_ = True
    def __init__(s, store, row): s.__dict__['store'] = store; s.__dict__['row'] = row
    def __getitem__(s, k):
        if k not in s.store.f: raise KeyError(k)
        x = s.store.f[k]
        if isinstance(x, Const): return x.val
        v = _rowview(x, s.row)
        if k in s.store.rows: return RowArr(v)
        return S(v.at(()), v.kind) if v.ndim == 0 else v
    def __setitem__(s, k, val):
        if s.store.readonly: raise Unsupported('assignment to a record in a list under construction')
        if k not in s.store.f: raise Unsupported('new field %s of a record in a symbolic list' % k)
        x = s.store.f[k]
        if isinstance(x, Const) or k in s.store.rows: raise Unsupported('assignment to field %s' % k)
        if isinstance(val, (S, int, float)) and not isinstance(val, bool):
            kd = lift(val)[1]
            if kd == 'r' and x.kind == 'i' and s.store.dynamic:      # python numbers: the field holds reals
                ctx().__dict__.setdefault('real_fields', set()).add(k); raise Restart()
            if kd not in (x.kind, 'i'): raise Unsupported('type of field %s' % k)
        write_view(_rowview(x, s.row), val)
    def __contains__(s, k): return k in s.store.f
    def get(s, k, d=None): return s[k] if k in s.store.f else d
    def keys(s): return list(s.store.f)
    def items(s): return [(k, s[k]) for k in s.store.f]
    def __iter__(s): return iter(s.keys())
    def __setattr__(s, k, v): raise Unsupported('attribute of a record')
    __hash__ = None

def rowval(x):
    "a stored coefficient row: (nb,) or (1,nb) -> element function, length"
    if isinstance(x, RowArr): return x.view, x.view._shape[0]
    a = as_arr(x)
    if a.ndim == 2 and isinstance(a._shape[0], int) and a._shape[0] == 1: a = _rowview(a, 0)
    if a.ndim != 1: raise Unsupported('shape of a record field')
    return a, a._shape[0]

class RecList:
    _symbolic_ = True
    def __init__(s, store): s.store, s.extra, s._abs = store, [], None
    def append(s, x):
        if not isinstance(x, dict): raise Unsupported('record list element of type %s' % type(x).__name__)
        s.extra.append(x); s._abs = None
    def count(s): return zadd(s.store.n, len(s.extra))
    def absorbed(s):
        "the same records as a store without appended dicts (read only)"
        if not s.extra: return s.store
        st, c = s.store, ctx()
        f = {}
        for x in s.extra:
            if set(x) != set(st.f): raise Unsupported('appended record has other fields: %s' % sorted(set(x) ^ set(st.f)))
        for k, a in st.f.items():
            if isinstance(a, Const):
                for x in s.extra:
                    if not (x[k] is a.val or x[k] == a.val): raise Unsupported('field %s is not constant' % k)
                f[k] = a; continue
            vals = []
            for x in s.extra:
                v = rowval(x[k])[0] if k in st.rows else as_arr(x[k])
                if v.ndim != a.ndim - 1: raise Unsupported('shape of field %s' % k)
                for p, q in zip(v._shape, a._shape[1:]):
                    if zeq(p, q) is not True: c.check('records have fields of equal shape (%s)' % k, zeq(p, q), kind='safety')
                kk = a.kind
                if v.kind != kk and not (kk in 'rw'): raise Unsupported('type of field %s' % k)
                vals.append((v.frozen(), v.kind))
            base = a.frozen()
            def el(i, base=base, vals=vals, kk=a.kind):
                t = convert(vals[-1][0](i[1:]), vals[-1][1], kk)
                for j in range(len(vals) - 2, -1, -1): t = ite(zeq(zsub(i[0], st.n), j), convert(vals[j][0](i[1:]), vals[j][1], kk), t)
                return ite(zlt(i[0], st.n), base(i), t)
            f[k] = SArr.new((s.count(),) + tuple(a._shape[1:]), el, a.kind)
        return RecStore(s.count(), f, st.rows, readonly=True)
    def element(s, k):
        return RecView(s.absorbed(), k)
    def index(s, x):
        "first record equal to x (a record of this list)"
        if s.extra or not (isinstance(x, RecView) and x.store is s.store): raise Unsupported('index in a record list')
        c, st = ctx(), s.store
        if any(isinstance(a, Const) or k in st.rows or a.ndim != 1 for k, a in st.f.items()): raise Unsupported('index in a record list')
        eq = lambda i: z3.And([compare_t('==', a.at((i,)), a.kind, a.at((x.row,)), a.kind) for a in st.f.values()])
        w, q = c.fresh('ix', I), c.fresh('iq', I)
        c.add(z3.And(w >= 0, w <= x.row, eq(w)))
        with c.binding((q,)): c.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < w), z3.Not(eq(q)))))
        return S(w, 'i')
    def __getitem__(s, k):
        if isinstance(k, slice): raise Unsupported('slice of a record list')
        return s.element(norm_index(k, s.count()))
    def field(s, name):
        a = s.absorbed().f[name]; f, k = a.frozen(), a.kind
        return lambda *i: S(f(tuple(zi(j) for j in i)), k)
    def _no(s, *a, **k): raise Unsupported('operation on a record list of symbolic length')
    __iter__ = __len__ = __contains__ = __add__ = __setitem__ = __delitem__ = insert = pop = remove = sort = reverse = clear = extend = __eq__ = __mul__ = __iadd__ = _no
    def __bool__(s): return ctx().decide(_b(zlt(0, s.count())))
    __hash__ = None

def empty_like(desc):
    "the empty python list seen as a record list"
    st = RecStore.fresh(desc, 'norec'); st.n = 0
    return RecList(st)

BIG = z3.Int('unbounded')
class Ragged:
    """`[list() for ...]`: one growing list of integers per position.  Ghost state: own(x), slot(x) =
    list and place of the last append of the value x"""
    _symbolic_ = True
    def __init__(s, n):
        z = lambda i: z3.IntVal(0)
        s.n = zi(n)
        s.cnt = SArr.new((s.n,), z, 'i'); s.items = SArr.new((s.n, BIG), z, 'i')
        s.own, s.slot = SArr.new((BIG,), z, 'i'), SArr.new((BIG,), z, 'i')
    def count(s): return s.n
    def element(s, k): return RaggedRow(s, k)
    def __getitem__(s, k):
        if isinstance(k, slice): raise Unsupported('slice of a list of lists')
        return RaggedRow(s, norm_index(k, s.n))
    def _no(s, *a, **k): raise Unsupported('operation on a list of lists of symbolic length')
    __iter__ = __len__ = __contains__ = __add__ = __setitem__ = __delitem__ = insert = append = pop = remove = sort = reverse = index = clear = extend = __eq__ = __mul__ = __iadd__ = _no
    __hash__ = None
class RaggedRow:
    _symbolic_ = True
    def __init__(s, r, k): s.r, s.k = r, k
    def count(s): return sz(s.r.cnt.at((s.k,)))
    def append(s, x):
        t, kd = lift(x)
        if kd != 'i': raise Unsupported('list of lists of other values than integers')
        r, p = s.r, s.count()
        fx = lambda a, *i: SArr(a.buf, (), [('fix', j) for j in i])
        write_view(fx(r.items, s.k, p), x)
        write_view(fx(r.own, t), S(s.k, 'i') if z3.is_expr(s.k) else s.k); write_view(fx(r.slot, t), S(p, 'i') if z3.is_expr(p) else p)
        write_view(fx(r.cnt, s.k), S(p, 'i') + 1 if z3.is_expr(p) else p + 1)
    def element(s, k): return S(s.r.items.at((s.k, k)), 'i')
    def __getitem__(s, k):
        if isinstance(k, slice): raise Unsupported('slice of a list of lists')
        return s.element(norm_index(k, s.count()))
    __iter__ = __len__ = __contains__ = __add__ = __setitem__ = __delitem__ = insert = pop = remove = sort = reverse = index = clear = extend = __eq__ = __mul__ = __iadd__ = Ragged._no
    __hash__ = None
