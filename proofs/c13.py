"""C13: details files"""
from vc.prove import *
from vc.loader import Rec
from vc.arr import SArr, as_arr, _b, zi, from_codes
from vc.core import scode, tb, lift, S, ctx, Unsupported
from vc import npf
import collections, posixpath, types
class G: pass
TEXT = ('spectype', 'subtype', 'fitmethod')

# ---------------------------------------------------------------- contracts of tables and structured arrays
class Rows:
    "structured array: columns of equal length"
    _token_ = None
    def __init__(s, cols): s.cols = collections.OrderedDict(cols)
    def __getitem__(s, k):
        if isinstance(k, str): return s.cols[k]
        if k == slice(None) or k == (): return Rows({c: keep(a, a.copy()) for c, a in s.cols.items()})
        raise Unsupported('rows of a structured array')
def keep(a, b):
    "the stored form of strings stays"
    if a.kind == 's': b.enc = getattr(a, 'enc', False)
    return b
class Table:
    def __init__(s, d=None, **k):
        if k: raise Unsupported('table options')
        if isinstance(d, Rows): d = d.cols
        s.cols = collections.OrderedDict((c, keep(as_arr(a), as_arr(a).copy())) for c, a in (d or {}).items())
    def copy(s, *a): return Table(s.cols)
    @property
    def columns(s): return s.cols
    @property
    def colnames(s): return list(s.cols)
    def keys(s): return list(s.cols)
    def __len__(s): raise Unsupported('length of a table')
    def nrows(s): return next(iter(s.cols.values()))._shape[0]
    def __getitem__(s, k):
        if isinstance(k, (str, S)): return s.cols[k if isinstance(k, str) else k.text()]
        if isinstance(k, (SArr, slice, list)): return Table({c: keep(a, a[k]) for c, a in s.cols.items()})
        raise Unsupported('rows of a table')
    def __setitem__(s, k, a):
        if not isinstance(k, str): raise Unsupported('rows of a table')
        a = as_arr(a)
        if k in s.cols and not v_eq(a._shape[0], s.nrows()): ctx().check('columns of a table have equal length', False, kind='safety')
        s.cols[k] = a
    def replace_column(s, k, a): s.cols[k]; s.cols[k] = as_arr(a)
    def remove_column(s, k): del s.cols[k]
    def remove_columns(s, ks):
        for k in list(ks): del s.cols[k]
    def rename_column(s, a, b): s.cols = collections.OrderedDict((b if c == a else c, x) for c, x in s.cols.items())
    def as_array(s): return Rows({c: keep(a, a.copy()) for c, a in s.cols.items()})
    def group_by(s, by):
        by = [by] if isinstance(by, str) else list(by); n = s.nrows()
        if not isinstance(n, int): raise Unsupported('groups of a table of unknown length')
        def val(c, i):
            x = S(s.cols[c].at((i,)), s.cols[c].kind)
            return x.text() if x.k == 's' else int(x)
        key = [tuple(val(c, i) for c in by) for i in range(n)]; r = Rec(groups=[])
        for q in sorted(set(key)): r.groups.append(s[npf.array([i for i in range(n) if key[i] == q])])
        return r
def v_eq(a, b): return ctx().entails(_b(tb(S(zi(a) == zi(b)) if z3.is_expr(zi(a)) or z3.is_expr(zi(b)) else zi(a) == zi(b))))
def hstack(xs):
    xs = list(xs)
    if not any(isinstance(x, Rows) for x in xs): return HSTACK(xs)
    if any(set(x.cols) != set(xs[0].cols) for x in xs): raise Unsupported('stack of different structured arrays')
    return Rows({c: keep(xs[0].cols[c], npf.concatenate([x.cols[c] for x in xs])) for c in xs[0].cols})
def encode(a, *x):
    r = as_arr(a).copy(); r.enc = True; return r
def encode_column(c):
    "contract of utils.encode_column: the same strings, as text"
    r = as_arr(c).copy(); r.enc = False; return r

# ---------------------------------------------------------------- contract of the file system and of h5py
def fail(cls, what):
    e = cls(what); e._contract_ = True; return e
class Stop(BaseException): pass
class Disk:
    """path -> what a reader would find: a dictionary (a finished file), or 'previous', or 'partial'.
    Any operation may fail, and the machine may stop after any operation."""
    def __init__(s, v, out, before, faults):
        s.v, s.out, s.faults, s.nop = v, out, faults, 0
        s.f = {out: 'previous'} if before else {}
        s.final = None; s.dirs = set()
    def op(s, what):
        s.nop += 1
        if s.faults and ctx().choose(2) == 1: raise s.fault(what)
    def look(s):
        c = s.f.get(s.out, 'absent')
        s.v.ensure('the output path has no file, the previous one or a complete one', c in ('absent', 'previous') or s.full(c))
    def full(s, c): return isinstance(c, dict) and s.need is not None and set(s.need) <= set(c)
    need = None
    fault = staticmethod(lambda what: fail(OSError, 'interrupted: ' + what))
    # os
    def exists(s, p): return p in s.f or p in s.dirs
    def isdir(s, p): return p in s.dirs
    def remove(s, p):
        s.op('remove')
        if p not in s.f: raise fail(FileNotFoundError, p)
        del s.f[p]; s.look()
    def rename(s, a, b):
        s.op('rename')
        if a not in s.f: raise fail(FileNotFoundError, a)
        s.f[b] = s.f.pop(a); s.look()
    def makedirs(s, p, mode=0o777, exist_ok=False):
        s.op('makedirs')
        if p in s.dirs and not exist_ok: raise fail(FileExistsError, p)
        s.dirs.add(p)
    def os(s):
        class Path:
            exists = isfile = lexists = staticmethod(s.exists); isdir = staticmethod(s.isdir)
            dirname, basename, abspath, join, split, splitext, expandvars, expanduser, normpath = [staticmethod(f) for f in (posixpath.dirname, posixpath.basename, (lambda p: p), posixpath.join, posixpath.split, posixpath.splitext, (lambda p: p), (lambda p: p), posixpath.normpath)]
            def __getattr__(q, n): raise Unsupported('os.path.' + n)
        class Os:
            path = Path(); remove = unlink = staticmethod(s.remove); rename = replace = staticmethod(s.rename); makedirs = staticmethod(s.makedirs)
            @staticmethod
            def getpid(): return 4711
            def __getattr__(q, n): raise Unsupported('os.' + n)
        return Os()
    # h5py
    def h5py(s): return types.SimpleNamespace(File=lambda p, mode='r', **k: H5(s, p, mode))
def words(xs): import numpy as np; return from_codes(np.array([scode(x) for x in xs]))
def name(p): return '/'.join(x for x in p.split('/') if x)
class H5:
    def __init__(h, d, p, mode):
        if mode not in ('r', 'w', 'w-', 'x', 'a'): raise Unsupported('mode of an HDF5 file')
        h.d, h.p, h.mode, h.open = d, p, mode, True
        if mode == 'r':
            if not isinstance(d.f.get(p), dict): raise fail(OSError, 'unable to open file')
            h.data = d.f[p]
        else:
            if mode in ('w-', 'x') and p in d.f: raise fail(FileExistsError, p)
            d.op('open')
            if mode == 'a' and p in d.f and not isinstance(d.f[p], dict): raise fail(OSError, 'unable to open file')
            h.data = dict(d.f[p]) if mode == 'a' and p in d.f else {}; d.f[p] = 'partial'; d.look()
    def __setitem__(h, k, x):
        if not h.open or h.mode == 'r': raise Unsupported('write to a closed file')
        k = name(k); h.d.op('write')
        if k in h.data: raise fail(OSError, 'Unable to create dataset (name already exists)')
        h.data[k] = x[:] if isinstance(x, Rows) else by_value(x); h.d.look()
    def create_dataset(h, k, data=None, **o): h[k] = data
    def __getitem__(h, k):
        if not h.open: raise ValueError('closed file')
        k = name(k)
        if k in h.data: return Dataset(h.data[k])
        sub = sorted({q[len(k) + 1:].split('/')[0] for q in h.data if q.startswith(k + '/')})
        if not sub: raise KeyError(k)
        return Group(h, k, sub)
    def __contains__(h, k): k = name(k); return k in h.data or any(q.startswith(k + '/') for q in h.data)
    def keys(h): return sorted({q.split('/')[0] for q in h.data})
    def flush(h): pass
    def close(h):
        if h.mode != 'r' and h.open:
            h.open = False; h.d.op('close'); h.d.f[h.p] = dict(h.data); h.d.look()
        h.open = False
    def __enter__(h): return h
    def __exit__(h, t, e, tr):
        if t is not None and h.mode != 'r': h.open = False; return False
        h.close(); return False
class Group:
    def __init__(g, h, k, sub): g.h, g.k, g.sub = h, k, sub
    def keys(g): return list(g.sub)
    def __iter__(g): return iter(g.sub)
    def __len__(g): return len(g.sub)
    def __contains__(g, k): return name(k) in g.sub
    def __getitem__(g, k): return g.h[g.k + '/' + k]
class Dataset:
    def __init__(s, x): s.x = x
    def __getitem__(s, k):
        if isinstance(k, tuple) and k == (): return s.x[:] if isinstance(s.x, Rows) else s.x.copy()
        return s.x[k]
def by_value(x): return keep(as_arr(x), as_arr(x).copy())

HSTACK = npf.hstack
SCEN = [  # target ids, templates (type, subtype), candidates (target, template)
    ([907], [('GALAXY', '')], [(0, 0)]),
    ([907, -3], [('GALAXY', ''), ('STAR', 'M')], [(0, 1), (0, 0), (0, 1), (1, 0)]),
    ([5, 39627000000000001, 44], [('STAR', 'B'), ('QSO', ''), ('STAR', 'A')], [(0, 2), (1, 0), (1, 1), (2, 1), (2, 1)]),
]
def _results(v, k):
    g = G(); ids, fts, cands = SCEN[k]; g.ids, g.fts, g.cands = ids, fts, cands
    g.full = [a + (':::' + b if b else '') for a, b in fts]
    g.nz = [v.size('nz%d' % q, lo=1) for q in range(len(fts))]; g.nc = [v.size('nc%d' % q, lo=1) for q in range(len(fts))]
    g.z = [v.array('redshifts%d' % q, (g.nz[q],)) for q in range(len(fts))]
    g.scan, g.F = {}, {}
    for i in (ids[::-1] if v.c.choose(2) else ids):
        g.scan[i] = {}
        for q, ft in enumerate(g.full):
            d = {c: v.array('%s_%d_%d' % (c, ids.index(i), q), (g.nz[q],) if c != 'zcoeff' else (g.nz[q], g.nc[q])) for c in ('zchi2', 'penalty', 'zcoeff')}
            g.F[i, q] = {c: v.frozen(a) for c, a in d.items()}
            g.scan[i][ft] = dict(redshifts=g.z[q], **d)
    n = len(cands); g.n = n; W = v.size('width', lo=1); mc = v.size('maxcoeff', lo=1); g.W, g.mc = W, mc
    zn, seen = [], collections.Counter()
    for t, _ in cands: zn.append(seen[t]); seen[t] += 1
    S_ = lambda xs: npf.array(list(xs))
    g.cols = dict(targetid=S_(ids[t] for t, _ in cands), z=v.array('z', (n,)), zerr=v.array('zerr', (n,)), zwarn=v.array('zwarn', (n,), 'w'), chi2=v.array('chi2', (n,)), zz=v.array('zz', (n, W)), zzchi2=v.array('zzchi2', (n, W)),
                  coeff=v.array('coeff', (n, mc)), npixels=v.array('npixels', (n,), 'i'), spectype=words(fts[q][0] for _, q in cands), subtype=words(fts[q][1] for _, q in cands),
                  ncoeff=v.array('ncoeff', (n,), 'i'), znum=S_(zn), deltachi2=v.array('deltachi2', (n,)), EXTRA=v.array('extra', (n,)))
    g.cf = {c: v.frozen(a) for c, a in g.cols.items()}
    v.require(v.all((n,), lambda i: v.and_(g.cf['ncoeff'](i) >= 0, g.cf['ncoeff'](i) < 1000)))
    g.zfit = Table(g.cols)
    return g
def _module(v, d):
    M = v.mod('results'); M.Table = Table; M.os = d.os(); v.P.stubs['h5py'] = d.h5py(); M.h5py = d.h5py()
    npf.facade.hstack = hstack; npf.facade.char = types.SimpleNamespace(encode=encode)
    M.encode_column = encode_column
    return M
def need(g): return ['targetids', 'zbest'] + ['zscan/%s/%s' % (f, c) for f in g.full for c in ('redshifts', 'zchi2', 'penalty', 'zcoeff')] + ['zfit/%d/zfit' % i for i in g.ids]

# ---------------------------------------------------------------- what is read back
def _scan_ok(v, g, got, ids, what):
    v.ensure(what + ': exactly the targets', len(got) == len(ids) and set(int(k) for k in got) == set(ids))
    for i in ids:
        v.ensure(what + ': every template', set(got[i]) == set(g.full))
        for q, ft in enumerate(g.full):
            r = got[i][ft]; p, b = v.arb('p', g.nz[q]), v.arb('b', g.nc[q])
            v.ensure(what + ': redshift grid', v.and_(r['redshifts'].shape[0] == g.nz[q], v.el(r['redshifts'], p) == v.el(g.z[q], p)))
            for c in ('zchi2', 'penalty', 'zcoeff'):
                x = r[c]
                v.ensure(what + ': shape', x.ndim == (2 if c == 'zcoeff' else 1) and v.and_(x.shape[0] == g.nz[q], *([x.shape[1] == g.nc[q]] if c == 'zcoeff' else [])))
                v.ensure('%s: %s' % (what, c), v.el(x, p, b) == g.F[i, q][c](p, b) if c == 'zcoeff' else v.el(x, p) == g.F[i, q][c](p))
def _table_ok(v, g, t, rows, what, upper=False):
    "rows: the candidates expected, in any order"
    up = (lambda c: c.upper()) if upper else (lambda c: c)
    v.ensure(what + ': columns', set(t.cols) == {up(c) for c in g.cols})
    v.ensure(what + ': number of candidates', t.nrows() == len(rows))
    if t.nrows() != len(rows): return
    tid, zn = t.cols[up('targetid')], t.cols[up('znum')]
    key = lambda q: (int(S(tid.at((q,)), 'i')), int(S(zn.at((q,)), 'i')))
    at = {key(q): q for q in range(len(rows))}
    for r in rows:
        k = (int(g.cf['targetid'](r)), int(g.cf['znum'](r)))
        v.ensure(what + ': each candidate is present', k in at)
        if k not in at: return
        q = at[k]
        for c, f in g.cf.items():
            a = t.cols[up(c)]
            if c in TEXT: v.ensure(what + ': strings are text', a.kind == 's' and not getattr(a, 'enc', False))
            if a.ndim == 2:
                w = g.W if c in ('zz', 'zzchi2') else g.mc; b = v.arb('b', w)
                v.ensure('%s: column %s' % (what, c), v.and_(a.shape[1] == w, v.el(a, q, b) == f(r, b)))
            else: v.ensure('%s: column %s' % (what, c), S(a.at((q,)), a.kind) == f(r))
def _per_template(v, g, s, ids, upper=False):
    for i in ids:
        for q, ft in enumerate(g.full):
            rows = [r for r, (t, x) in enumerate(g.cands) if g.ids[t] == i and x == q]
            have = s[i][ft].get('zfit')
            v.ensure('candidates are attached to their template', (have is not None) == bool(rows))
            if rows and have is not None: _table_ok(v, g, have, rows, 'per template', upper)
def _rows(g, ids): return [r for r, (t, _) in enumerate(g.cands) if g.ids[t] in ids]

def _round(v, k, mode):
    g = _results(v, k); out = '/data/x.h5'; d = Disk(v, out, False, False); d.dirs.add('/data'); d.need = need(g); M = _module(v, d)
    v.call(M.write_zscan, out, g.scan, g.zfit)
    v.ensure('the file is at the output path', d.full(d.f.get(out)))
    if not d.full(d.f.get(out)): return
    v.ensure('nothing else is left behind', set(d.f) == {out})
    _table_ok(v, g, g.zfit, list(range(g.n)), 'the table in memory')
    i = v.arb('cell', 1)
    if mode == 'all':
        s, f = v.call(M.read_zscan, out); _scan_ok(v, g, s, g.ids, 'all'); _table_ok(v, g, f, list(range(g.n)), 'all'); _per_template(v, g, s, g.ids)
        _scan_ok(v, g, v.call(M.read_zscan, out, nozfit=True), g.ids, 'without candidates')
        _scan_ok(v, g, v.call(M.read_zscan_redrock, out), g.ids, 'reuse by redrock')
        _table_ok(v, g, v.call(M.read_zfit, out, upper=True), list(range(g.n)), 'candidates', True)
    else:
        n = len(g.ids); sub = [q for q in range(n) if v.c.choose(2) == 0] or [n - 1]
        ids = [g.ids[q] for q in sub]
        if len(ids) > 1 and v.c.choose(2): ids = ids[::-1]
        sel = ids[0] if len(ids) == 1 and v.c.choose(2) else list(ids); up = v.c.choose(2) == 1
        s, f = v.call(M.read_zscan, out, select_targetids=sel, upper=up)
        _scan_ok(v, g, s, ids, 'selection'); _table_ok(v, g, f, _rows(g, ids), 'selection', up); _per_template(v, g, s, ids, up)
        _table_ok(v, g, v.call(M.read_zfit, out, select_targetids=sel), _rows(g, ids), 'selected candidates')
_F = ['redrock.results.write_zscan', 'redrock.results.read_zscan', 'redrock.results.read_zfit', 'redrock.results.read_zscan_redrock']
@proof('C13', _F)
def roundtrip1(v): _round(v, 0, 'all')
@proof('C13', _F)
def roundtrip2(v): _round(v, 1, 'all')
@proof('C13', _F)
def roundtrip3(v): _round(v, 2, 'all')
@proof('C13', _F)
def selection2(v): _round(v, 1, 'select')
@proof('C13', _F)
def selection3(v): _round(v, 2, 'select')

def _crash(v, k):
    g = _results(v, k); out = '/data/x.h5'; before = v.c.choose(2) == 1; clobber = v.c.choose(2) == 1
    d = Disk(v, out, before, True); d.need = need(g)
    if k == 1 or v.c.choose(2): d.dirs.add('/data')
    if k == 0 and v.c.choose(2): d.f[out + '.tmp'] = 'partial'          # left over by an earlier, interrupted run
    M = _module(v, d)
    if k == 0 and v.c.choose(2): d.fault = lambda what: Stop('interrupted: ' + what)
    try: r, e = v.call_exc(M.write_zscan, out, g.scan, g.zfit, clobber=clobber)
    except Stop as s: v.cover('raise'); e = s
    finally: npf.facade.hstack = HSTACK
    if e is not None and 'interrupted' not in str(e): v.ensure('no other error: %s' % type(e).__name__, False)
    d.look()
    if e is None: v.ensure('a finished write leaves the complete file', d.full(d.f.get(out)))
    else:
        # the next write is not disturbed
        d.faults = False
        v.call(M.write_zscan, out, g.scan, g.zfit, clobber=clobber)
        v.ensure('a later write is not disturbed by an interrupted one', d.full(d.f.get(out)))
@proof('C13', _F[:1])
def interrupted1(v): _crash(v, 0)
@proof('C13', _F[:1])
def interrupted2(v): _crash(v, 1)
