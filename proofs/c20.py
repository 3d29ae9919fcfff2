"""C20: DESI spectra reach the target that owns them"""
from vc.prove import *
from vc.arr import SArr, as_arr, zi, symarr, z3
from vc.core import S, ctx, Unsupported, R, I
from vc import core, npf
from vc.sparse import Dia
import numpy as np, itertools, types
class G: pass

# ---------------------------------------------------------------- contracts of tables and files
class Tab:
    "a table whose columns other than the identifiers are opaque: one tag per row and column"
    def __init__(s, cols=None, copy=True, **k):
        s.cols = {c: np.array(a) for c, a in (cols.cols if isinstance(cols, Tab) else cols or {}).items()}
    def copy(s, *a): return Tab(s)
    as_array = copy
    @property
    def colnames(s): return list(s.cols)
    columns = property(lambda s: s.cols)
    @property
    def dtype(s): return types.SimpleNamespace(names=tuple(s.cols))
    def keys(s): return list(s.cols)
    def __len__(s): return len(next(iter(s.cols.values())))
    def __getitem__(s, k): return s.cols[k] if isinstance(k, str) else Tab({c: a[k] for c, a in s.cols.items()})
    def __setitem__(s, k, a): s.cols[k] = np.array(a)
    def remove_column(s, c): del s.cols[c]
    def remove_columns(s, cs):
        for c in list(cs): del s.cols[c]
    def keep_columns(s, cs): s.cols = {c: s.cols[c] for c in s.cols if c in cs}
def stack(xs, *a, **k):
    xs = list(xs)
    if any(set(x.cols) != set(xs[0].cols) for x in xs): raise Unsupported('stack of different tables')
    return Tab({c: np.concatenate([x.cols[c] for x in xs]) for c in xs[0].cols})
HSTACK, VSTACK = npf.hstack, npf.vstack
class Header(dict):
    def copy(s): return Header(s)
class HDU:
    def __init__(s, name, data, **h): s.name, s._data, s.header = name, data, Header(h, **({'EXTNAME': name} if name else {})); s.file = None
    @property
    def data(s):
        if s.file.closed: raise ValueError('read of a closed file')
        return s._data
class File:
    def __init__(s, hdus):
        s.h = hdus; s.closed = False
        for h in hdus: h.file = s
    def __len__(s): return len(s.h)
    def __iter__(s): return iter(s.h)
    def names(s): return [h.name for h in s.h]
    def __contains__(s, k): return k in s.names()
    def __getitem__(s, k):
        if isinstance(k, (int, np.integer)): return s.h[k]
        if k not in s: raise KeyError(k)
        return s.h[s.names().index(k)]
    def close(s, *a): s.closed = True
    def __enter__(s): return s
    def __exit__(s, *a): s.close(); return False
class Res(Dia):
    "contract of desispec.resolution.Resolution(data): a square matrix with these diagonals; row sums are a function of its content"
    def __init__(s, data):
        a = as_arr(data)
        if a.ndim != 2: raise Unsupported('resolution data')
        nd, n = a._shape
        Dia.__init__(s, (a, symarr('offsets', (nd,), 'i')), (n, n))
    def frozen(s): return Res(s.data.copy())
    copy = frozen
    def sum(s, axis=None):
        if axis != 1: raise Unsupported('sum of a resolution matrix')
        f = rowsum(s.data)
        return SArr.new((s._sh[0], 1), lambda i: f(z3.IntVal(i[0]) if isinstance(i[0], int) else i[0]), 'r')
def rowsum(data):
    "matrices with the same content have the same row sums"
    key = z3.simplify(data.at((z3.Int('key!d'), z3.Int('key!i')))).sexpr()
    d = ctx().ghost.setdefault('row sums', {})
    if key not in d: d[key] = ctx().fresh_fn('rowsum', I, R)
    return d[key]

# ---------------------------------------------------------------- input files
BAND = dict(b=3, r=5, z=7)
def files(v, spec, masks):
    """spec: per file (coadded, identifiers of the spectra, bands, identifiers of the exposures, interleaved);
    masks: (file, band) -> has a MASK HDU"""
    g = G(); g.spec = spec; g.n = {b: v.size('n' + b, lo=4) for b in sorted({b for f in spec for b in f[2]})}; g.nd = v.size('ndiag', lo=1)
    g.px = {}; g.hdus = {}; g.names = ['file%d.fits' % q for q in range(len(spec))]; g.wave = {b: v.array('wave_' + b, (n,)) for b, n in g.n.items()}
    g.F = {b: v.frozen(a) for b, a in g.wave.items()}
    for q, (co, ids, bands, exp, mixed) in enumerate(spec):
        tag = lambda n, k: 1000 * q + k + np.arange(n)
        fm = dict(TARGETID=np.array(ids, 'i8'), ROW=tag(len(ids), 0))
        if not co: fm.update(TILEID=np.array([3, 4] * len(ids))[:len(ids)] if mixed else np.array([3] * len(ids)))
        ext = []
        for b in bands:
            sh = (len(ids), g.n[b]); nm = '%s%d' % (b, q); B = b.upper()
            p = dict(flux=v.array('flux_' + nm, sh, 'x'), ivar=v.array('ivar_' + nm, sh, 'x'), res=v.array('res_' + nm, (len(ids), g.nd, g.n[b])), mask=v.array('mask_' + nm, sh, 'i') if masks(q, b) else None)
            X = core.EXT; iv = v.frozen(p['ivar'])
            v.require(v.all(sh, lambda i, j: S(z3.Implies(X.is_fin(iv(i, j).t), X.val(iv(i, j).t) >= 0), 'b')))
            g.px[q, b] = {c: v.frozen(a) if a is not None else None for c, a in p.items()}
            ext.append([(B + '_WAVELENGTH', g.wave[b]), (B + '_FLUX', p['flux']), (B + '_IVAR', p['ivar'])] + ([(B + '_MASK', p['mask'])] if p['mask'] is not None else []) + [(B + '_RESOLUTION', p['res'])])
        if mixed: ext = [[e[0] for e in ext]] + [e[1:] for e in ext]
        tabs = [('FIBERMAP', Tab(fm))] + ([('EXP_FIBERMAP', Tab(dict(TARGETID=np.array(exp, 'i8'), EXPROW=tag(len(exp), 0))))] if co else []) + [('SCORES', Tab(dict(TARGETID=np.array(ids, 'i8'), TSNR2_LRG=tag(len(ids), 500), OTHER=tag(len(ids), 700))))]
        g.hdus[g.names[q]] = [('', None)] + tabs + [e for x in ext for e in x]
    return g
def opener(v, g):
    def op(name, *a, **k):
        if k.get('mode', a[0] if a else 'readonly') not in ('readonly', None): raise Unsupported('mode of a FITS file')
        mk = lambda x: x.copy() if isinstance(x, (SArr, Tab)) else x
        return File([HDU(n, mk(d), **({} if n else dict(FILE=name))) for n, d in g.hdus[name]])
    return op
first = lambda ids: list(dict.fromkeys(ids))
def coadd_fibermap(fm, onetile=False, **k):
    "contract of desispec: a row per target in order of first appearance; the exposures keep their rows"
    ids = [int(i) for i in fm['TARGETID']]; u = first(ids)
    if onetile and len(set(fm['TILEID'])) > 1: raise ValueError('more than one tile')
    return Tab(dict(TARGETID=np.array(u, 'i8'), ROW=fm['ROW'][[ids.index(i) for i in u]])), Tab(dict(TARGETID=fm['TARGETID'], EXPROW=fm['ROW']))
def coadd_scores(s, *a, **k):
    ids = [int(i) for i in s['TARGETID']]; u = first(ids)
    return Tab(dict(TARGETID=np.array(u, 'i8'), TSNR2_LRG=s['TSNR2_LRG'][[ids.index(i) for i in u]])), None

# ---------------------------------------------------------------- processes
def by_value(x):
    if isinstance(x, (SArr, Tab)): return x.copy()
    if type(x) in (list, tuple): return type(x)(by_value(y) for y in x)
    if isinstance(x, dict): return type(x)((k, by_value(y)) for k, y in x.items())
    return x
class Root:
    rank = 0
    def __init__(s, size): s.size, s.sent = size, []
    Get_rank = lambda s: s.rank
    Get_size = lambda s: s.size
    def bcast(s, x, root=0):
        if root != 0: raise Unsupported('broadcast by another process')
        s.sent.append(by_value(x)); return x
    def barrier(s): s.bcast('barrier')
    Barrier = barrier
class Other:
    def __init__(s, size, rank, sent): s.size, s.rank, s.box, s.k = size, rank, sent, 0
    Get_rank = lambda s: s.rank
    Get_size = lambda s: s.size
    def bcast(s, x, root=0):
        if s.k >= len(s.box):
            ctx().check('no process waits for a broadcast that never comes', False, kind='safety', assume=False); raise PathEnd('waits for ever')
        s.k += 1; return by_value(s.box[s.k - 1])
    def barrier(s):
        if s.bcast(None) != 'barrier': raise Unsupported('barrier')
    Barrier = barrier

def read(v, g, size=1, want=None, lo=None, num=None, coadd=False, rcsr=False):
    st = v.P.stubs; st['astropy.io'] = types.SimpleNamespace(fits=types.SimpleNamespace(open=opener(v, g), getdata=None)); st['astropy.io.fits'] = st['astropy.io'].fits
    M = v.mod('external.desi'); M.fits = st['astropy.io'].fits; M.Table = Tab; M.vstack = stack; M.encode_table = lambda t, *a, **k: Tab(t)
    M.Resolution = Res; M.coadd_fibermap = coadd_fibermap; M.compute_coadd_tsnr_scores = coadd_scores
    npf.facade.hstack = lambda xs, *a, **k: (lambda l: stack(l) if l and isinstance(l[0], Tab) else np.hstack(l) if not npf.sym_in(l) else HSTACK(l))(list(xs))
    plan = {}
    def distribute(n, ids, weights=None, capacities=None):
        "contract of distribute_work (C09): every target is given to exactly one process"
        ids = list(ids)
        ctx().check('every process distributes the same targets over all processes', n == size and (not plan or plan['ids'] == ids), kind='post')
        if weights is not None and any(i not in weights for i in ids): raise KeyError('weights')
        if not plan:
            plan['ids'] = ids; d = [[] for _ in range(n)]
            for i in ids: d[ctx().choose(n) if n > 1 else 0].append(i)
            if n == 1 and ctx().choose(2): d = [x[::-1] for x in d]
            plan['d'] = d
        return [list(x) for x in plan['d']]
    v.contract('external.desi', 'distribute_work', distribute, keep=True)
    coadded = []
    v.contract('targets', 'Target.compute_coadd', lambda t, cache_Rcsr=False, cosmics_nsig=0: coadded.append((t.id, bool(cache_Rcsr), cosmics_nsig)), keep=True)
    nsig, cos = v.real('nsig'), v.real('cosmics'); g.nsig = nsig
    out = []; sent = None
    for r in range(size):
        comm = None if size == 1 else Root(size) if r == 0 else Other(size, r, sent)
        k = dict(coadd=coadd, targetids=want, first_target=lo, n_target=num, comm=comm, cache_Rcsr=rcsr, cosmics_nsig=cos, negflux_nsig=nsig)
        del coadded[:]
        t = v.call(M.DistTargetsDESI, list(g.names), **k)
        if r == 0 and size > 1: sent = comm.sent
        if r > 0: v.ensure('every process takes part in the same broadcasts', comm.k == len(sent))
        check(v, g, t, plan['d'][r], want, lo, num, coadd, rcsr, list(coadded), cos)
    npf.facade.hstack = HSTACK
    v.arb('cell', 1)

def check(v, g, t, mine, want, lo, num, coadd, rcsr, coadded, cos):
    keep = {}; ids = []
    for q, (co, tid, bands, exp, mixed) in enumerate(g.spec):
        u = first(tid); a = lo or 0
        keep[q] = list(want if want is not None else u)[a:][:num if num is not None else None]
        ids += [i for i in keep[q] if i not in ids]
    v.ensure('targets in order of first appearance', [int(i) for i in t.all_target_ids] == ids)
    v.ensure('every process has its targets', [int(i) for i in t.local_target_ids()] == [int(i) for i in mine] and [int(x.id) for x in t.local()] == [int(i) for i in mine])
    fm, em, ts = [], [], []
    for q, (co, tid, bands, exp, mixed) in enumerate(g.spec):
        u = first(tid); e = exp if co else tid
        fm += [(i, 1000 * q + tid.index(i)) for i in u if i in keep[q]]
        ts += [(i, 1000 * q + 500 + tid.index(i)) for i in u if i in keep[q]]
        em += [(i, 1000 * q + r) for r, i in enumerate(e) if i in keep[q]]
    rows = lambda tab, c: [(int(a), int(b)) for a, b in zip(tab['TARGETID'], tab[c])]
    v.ensure('the fibermap has the rows of the targets', rows(t.fibermap, 'ROW') == fm)
    v.ensure('the exposure fibermap has the rows of the targets', rows(t.exp_fibermap, 'EXPROW') == em)
    v.ensure('the scores have the rows of the targets', rows(t.tsnr2, 'TSNR2_LRG') == ts)
    v.ensure('the header is the one of the first file', dict(t.header0) == dict(FILE=g.names[0]))
    v.ensure('spectra are coadded exactly when asked for', [int(c[0]) for c in coadded] == ([int(i) for i in mine] if coadd else []))
    for c in coadded: v.ensure('options of the coaddition', v.and_(c[1] == rcsr, c[2] == cos))
    X = core.EXT
    for x in t.local():
        own = [(q, b, r) for q, (co, tid, bands, exp, mixed) in enumerate(g.spec) for b in bands for r, i in enumerate(tid) if i == x.id and i in keep[q]]
        v.ensure('spectra in order of file, camera and row', [s.band for s in x.spectra] == [b for _, b, _ in own])
        if len(x.spectra) != len(own): continue
        for s, (q, b, r) in zip(x.spectra, own):
            n, p = g.n[b], g.px[q, b]; i, d = v.arb('i', n), v.arb('d', g.nd)
            v.ensure('wavelengths of the camera', v.and_(s.wave.ndim == 1, s.wave.shape[0] == n, v.el(s.wave, i) == g.F[b](i), s.nwave == n))
            if not (isinstance(s.flux, SArr) and isinstance(s.ivar, SArr) and isinstance(s.R, Res)): v.ensure('every spectrum is filled', False); continue
            v.ensure('resolution of its own row', v.and_(s.R.data.ndim == 2, s.R.data.shape[0] == g.nd, s.R.data.shape[1] == n, v.el(s.R.data, d, i) == p['res'](r, d, i)))
            f, w = p['flux'](r, i).t, p['ivar'](r, i).t
            F = z3.If(X.is_fin(f), X.val(f), z3.RealVal(0))
            v.ensure('flux of its own row, zero where it is not finite', v.and_(s.flux.ndim == 1, s.flux.shape[0] == n, fin(s.flux, i) == S(F)))
            sig = z3.RealVal(0) if False else X.val(f) * npf.msqrt(X.val(w)); a = g.nsig.t
            neg = sig < -z3.If(a >= 0, a, -a)
            row = rowsum(s.R.data)(zi(i)) < z3.Q(99, 100)
            bad = [z3.Not(X.is_fin(f)), z3.Not(X.is_fin(w)), row] + ([zi(p['mask'](r, i)) != 0] if p['mask'] is not None else [])
            v.ensure('shape of the weights', v.and_(s.ivar.ndim == 1, s.ivar.shape[0] == n))
            v.ensure('unusable pixels have no weight', v.implies(S(z3.Or(*bad), 'b'), fin(s.ivar, i) == 0))
            v.ensure('significantly negative pixels have no weight', v.implies(S(z3.And(X.is_fin(f), X.is_fin(w), neg), 'b'), fin(s.ivar, i) == 0))
            v.ensure('usable pixels keep their weight', v.implies(S(z3.Not(z3.Or(*bad, neg)), 'b'), fin(s.ivar, i) == S(X.val(w))))
            src = getattr(s._Rcsr, 'source', None)
            if coadd: continue
            v.ensure('resolution is cached when asked for', (src is not None) == rcsr)
            if src is not None: v.ensure('the cached resolution is its own', v.el(src.data, d, i) == p['res'](r, d, i))
def fin(a, i):
    "value of a pixel that has to be finite"
    x = v_ = S(a.at((zi(i),)), a.kind)
    if x.k != 'x': return x
    return Fin(x.t)
class Fin:
    def __init__(s, t): s.t = t
    def __eq__(s, o): X = core.EXT; return S(z3.And(X.is_fin(s.t), X.val(s.t) == (o.t if isinstance(o, S) else z3.RealVal(o))), 'b')

_F = ['redrock.external.desi.DistTargetsDESI.__init__', 'redrock.targets.Spectrum.__init__', 'redrock.targets.Target.__init__', 'redrock.targets.DistTargets.__init__']
A2 = [(True, [11, 7], ['b', 'r'], [7, 11, 7], False), (True, [7, -3], ['r'], [-3, 7], False)]
U1 = [(False, [5, 39627000000000001, 5, 2], ['b', 'z'], None, True)]
U2 = [(False, [5, 9, 5], ['z'], None, False), (False, [9, 4, 9], ['b', 'z'], None, False)]
@proof('C20', _F)
def coadds(v):
    m = {(0, 'b'): v.c.choose(2), (0, 'r'): v.c.choose(2), (1, 'r'): v.c.choose(2)}
    read(v, files(v, A2, lambda q, b: m[q, b]), rcsr=v.c.choose(2) == 1)
@proof('C20', _F)
def spectra(v):
    m = {'b': v.c.choose(2)}; m['z'] = not m['b']; lo = [None, 0, 1, 2][v.c.choose(4)]
    num = [None, 1, 3][v.c.choose(2 if lo else 3)]
    read(v, files(v, U1, lambda q, b: m[b]), lo=lo, num=num, coadd=lo is not None and num is None)
@proof('C20', _F)
def several(v):
    one = v.c.choose(2)
    read(v, files(v, U2, lambda q, b: (q, b) != (one, 'z')), coadd=v.c.choose(2) == 1, rcsr=v.c.choose(2) == 1)
@proof('C20', _F)
def selected(v):
    want = [[7], [-3, 7], [7, 11, -3]][v.c.choose(3)]
    read(v, files(v, A2, lambda q, b: True), want=want)
@proof('C20', _F)
def processes(v):
    k = v.c.choose(2)
    read(v, files(v, [A2, U2][k], lambda q, b: k or q), size=2, rcsr=not k)
