"""C07: the final table"""
from vc.prove import *
from vc.loader import Rec
from vc.arr import mask_sel, partition_lemma, SArr, as_arr, _b, zi
from vc.core import tb, lift, S, ctx, Unsupported

from vc import npf
import collections, numpy as np
BAD = 2**3 + 2**4 + 2**5 + 2**6 + 2**10
SMALL, LITTLE, NODATA = 2**2, 2**1, 2**9

# ---------------------------------------------------------------- contract of astropy.table
class Table:
    "columns of equal length; the data are copied"
    def __init__(s, d=None):
        s.columns = collections.OrderedDict()
        for k, a in (d or {}).items():
            a = as_arr(a); s.columns[k] = a.copy()
        ns = [a._shape[0] for a in s.columns.values()]
        for x in ns[1:]: ctx().check('columns of a table have equal length', zeq(x, ns[0]), kind='safety')
    @property
    def colnames(s): return list(s.columns)
    def keys(s): return list(s.columns)
    def __getitem__(s, k):
        if not isinstance(k, str): raise Unsupported('rows of a table')
        return s.columns[k]
    def __setitem__(s, k, a):
        if not isinstance(k, str): raise Unsupported('rows of a table')
        s.columns[k] = as_arr(a)
    def replace_column(s, k, a): s.columns[k]; s.columns[k] = as_arr(a)
    def add_column(s, c, name=None): s.columns[name or c.name] = c
    def remove_column(s, k): del s.columns[k]
    def rename_column(s, a, b): s.columns = collections.OrderedDict((b if k == a else k, x) for k, x in s.columns.items())
    def __len__(s): raise Unsupported('length of a table')
    def __iter__(s): raise Unsupported('rows of a table')
def tvstack(ts, **k):
    ts = list(ts); r = Table()
    for t in ts:
        if set(t.columns) != set(ts[0].columns): raise Unsupported('stack of tables with different columns')
    for k in ts[0].columns: r.columns[k] = npf.concatenate([t.columns[k] for t in ts])
    return r
def Column(*a, **k): raise Unsupported('table column')

class G: pass
Q_ = lambda i: i if isinstance(i, int) else S(i)
NARCH = (('ELG_3', 'LRG_0'), ('hiz_1', 'loz_2'))        # best archetypes of the candidates, per template
NEG = 2**3
def _inv(L):
    "the candidates looked at so far are flagged only with a negative coefficient"
    v, g = CUR[0]; ib, a0, co = v.frozen(L.ibad), L.old(L.ibad), v.frozen(L.tzfit['coeff']); nn = 1 if L.n_nearest is None else L.n_nearest
    sel = L.index_check.meta.sel; rank = lambda r: S(sel.rankof((zi(r),))); fine = lambda r: v.and_(*[co(r, j) >= 0 for j in range(nn)])
    return [('flags so far', v.all(L.ibad.shape[0], lambda r: v.iff(ib(r), v.and_(a0(r), v.not_(v.and_(rank(r) < L.k, fine(r)))))))]
_SP = {'zfind#24': dict(inv=_inv)}
CUR = [None]
def _zfind(v, types, ntarg=1, empty=True, priors=False, nb=None, arch=None, nn=None):
    """types: full types of the templates, in scan order; arch: spectral types with archetypes, nn: number of nearest ones"""
    g = G(); CUR[0] = (v, g); g.arch = arch; M = v.mod('zfind'); g.nmin = nmin = v.size('nminima', lo=1)
    if ntarg > 1 or len(types) > 1: v.c.ghost['string widths differ'] = True
    temps, g.T = [], []
    for k, ft in enumerate(types):
        sp, _, sb = ft.partition(':::')
        t = G(); t.ft, t.sp, t.sb, t.k = ft, sp, sb, k
        t.nz = v.size('nz%d' % k, lo=2); t.nb = nb[k] if nb else v.size('nbasis%d' % k, lo=1); t.arch = arch is not None and sp in arch; t.z = v.array('redshifts%d' % k, (t.nz,))
        t.t = Rec(template=Rec(full_type=ft, template_type=sp, sub_type=sb, _rrtype=sp, redshifts=t.z, nbasis=t.nb, method='PCA'))
        g.T.append(t); temps.append(t.t)
    ids = [31 + 6 * j for j in range(ntarg)]
    tgs = [Rec(id=i, meta={}, _token_=('target', i), sharedmem_pack=lambda: None, sharedmem_unpack=lambda: None) for i in ids]
    g.C = {}
    res = {}; start = {}
    for tg in tgs:
        res[tg.id] = {}
        for t in g.T:
            zc, pen = v.array('zchi2_%d_%d' % (tg.id, t.k), (t.nz,)), v.array('pen_%d_%d' % (tg.id, t.k), (t.nz,))
            start[tg.id, t.ft] = (v.frozen(zc), v.frozen(pen))
            res[tg.id][t.ft] = dict(redshifts=t.z, zchi2=zc, penalty=pen)
            c = G(); c.n = (1 if len(types) == sum(x.partition(':::')[0] in arch for x in types) else 2) if t.arch else v.size('n_%d_%d' % (tg.id, t.k), lo=0 if empty else 1); c.nc = (nn or 1) if t.arch else t.nb; sfx = '_%d_%d' % (tg.id, t.k); c.t = t
            W = v.size('width', lo=2)
            c.col = dict(z=v.array('z' + sfx, (c.n, 1)), zerr=v.array('zerr' + sfx, (c.n, 1)), zwarn=v.array('zwarn' + sfx, (c.n, 1), 'w'), chi2=v.array('chi2' + sfx, (c.n, 1)),
                         zz=v.array('zz' + sfx, (c.n, W)), zzchi2=v.array('zzchi2' + sfx, (c.n, W)), coeff=v.array('coeff' + sfx, (c.n, c.nc)), npixels=v.array('npixels' + sfx, (c.n, 1), 'i'))
            if t.arch:
                c.sub = NARCH[t.k % 2][:c.n]; c.col.update(legcoeff=v.array('legcoeff' + sfx, (c.n, 2)), pca_coeff=v.array('pca' + sfx, (c.n, t.nb)), pca_spectype=npf.full((c.n, 1), t.sp), pca_subtype=npf.full((c.n, 1), t.sb or 'none'), fulltype=np.array([['%s:::%s' % (t.sp, x)] for x in c.sub]))
            c.F = {q: v.frozen(a) for q, a in c.col.items() if isinstance(a, SArr)}
            # names of the candidates: carried along like any other column
            c.col['#template'] = SArr.const((zi(c.n), 1), z3.IntVal(t.k), 'i'); c.col['#row'] = SArr.new((zi(c.n), 1), lambda i: z3.IntVal(i[0]) if isinstance(i[0], int) else i[0], 'i')
            g.C[tg.id, t.k] = c
        v.require(v.or_(*[g.C[tg.id, t.k].n >= 1 for t in g.T]))
    called = []
    def calc_zchi2_targets(targets, templates, mp_procs=1, use_gpu=False, progress=None):
        return res
    PR = {i: v.array('prior_%d' % i, (g.T[0].nz,)) for i in ids} if priors else {}
    def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=False, deg_legendre=None, zminfit_npoints=15, per_camera=False, n_nearest=None, prior_sigma=None):
        t = [t for t in g.T if t.t.template is template][0]
        zc, pen = start[target.id, t.ft]; p = v.arb('p', t.nz)
        v.ensure('the curve of this target and template, with penalty and prior, is refined', v.and_(zchi2.shape[0] == t.nz, v.el(zchi2, p) == zc(p) + pen(p) + (v.el(PR[target.id], p) if priors else 0)))
        v.ensure('on the redshifts of the template', redshifts is t.z)
        v.ensure('as many minima as requested', nminima == nmin)
        v.ensure('with the archetypes of its type, if there are any', archetype is (arch[t.sp] if t.arch else None))
        if arch: v.ensure('with the archetype settings', deg_legendre == 2 and per_camera is False and n_nearest == nn and prior_sigma is None)
        called.append((target.id, t.k))
        return {q: a for q, a in g.C[target.id, t.k].col.items()}
    g.sorted = []
    def sort_zfit_dict(d):
        n = d['chi2'].shape[0]
        for k in d: v.ensure('the columns to rank have equal length', d[k].shape[0] == n)
        zw, x = v.frozen(d['zwarn']), v.frozen(d['chi2'])
        bad = lambda i: _b(tb((zw(Q_(i)) & BAD) != 0))
        before = dict(d)
        if arch and not g.sorted:
            o = 0
            for c in (g.C[ids[0], t.k] for t in g.T):
                v.ensure('before ranking, the negative-model flag of template %d is right' % c.t.k, v.all(c.n, lambda r: _negative(v, c, r, zw(o + r)))); o = o + c.n
        p = npf._perm(zi(n), lambda i, j: z3.Or(z3.And(z3.Not(bad(i)), bad(j)), z3.And(bad(i) == bad(j), lift(x(Q_(i)))[0] <= lift(x(Q_(j)))[0])), 'rank')
        for k in list(d): d[k] = as_arr(d[k])[p]
        g.sorted.append((before, dict(d), p))
    def calc_deltachi2(chi2, z, zwarn, dvlimit=1000.):
        n = chi2.shape[0]; r = G()
        r.n, r.chi2, r.z, r.zw = n, v.frozen(chi2), v.frozen(z), v.frozen(zwarn)
        lim = as_arr(dvlimit); r.lim = v.frozen(lim) if lim.ndim else (lambda i: lim.item())
        v.ensure('one row each', v.and_(z.shape[0] == n, zwarn.shape[0] == n, *([lim.shape[0] == n] if lim.ndim else [])))
        d, s = v.array('delta!%d' % len(g.dc), (n,)), v.array('flag!%d' % len(g.dc), (n,), 'b')
        r.d, r.s = v.frozen(d), v.frozen(s); g.dc.append(r)
        return d, s
    g.dc = []
    class TableOfTarget(Table):
        def __init__(s, d=None):
            Table.__init__(s, d)
            if d is not None: s.src = dict(d); g.tables.append(s)
    g.tables = []
    v.contract('zfind', 'calc_zchi2_targets', calc_zchi2_targets); v.contract('zfind', 'fitz', fitz)
    v.contract('zfind', 'sort_zfit_dict', sort_zfit_dict)
    v.contract('zfind', 'calc_deltachi2', calc_deltachi2); v.contract('zfind', 'distribute_targets', lambda t, n: [[x.id for x in t]])
    v.contract('zfind', 'elapsed', lambda *a, **k: 0)
    if priors: v.contract('zfind', 'Priors', lambda f: Rec(eval=lambda tid, z: PR[tid]))
    M.astropy = Rec(table=Rec(Table=TableOfTarget, vstack=tvstack, Column=Column))
    targets = Rec(comm=None, local=lambda: list(tgs), all_target_ids=list(ids))
    r, zf = v.call(M.zfind, targets, temps, nminima=nmin, **(dict(priors='p.fits') if priors else {}), **(dict(archetypes=arch, deg_legendre=2, per_camera=False, n_nearest=nn, ncamera=1) if arch else {}))
    v.ensure('scan results of every target', set(r) == set(ids) and all(set(r[i]) == set(types) for i in ids))
    v.ensure('every curve is refined once', sorted(called) == sorted((i, t.k) for i in ids for t in g.T))
    if '#row' not in zf.columns or '#template' not in zf.columns: raise Unsupported('the columns of the candidates are not all kept')
    if len(g.tables) != ntarg or len(g.dc) != ntarg: raise Unsupported('one table per target expected')
    off = 0
    for j, i in enumerate(ids):
        n = g.tables[j].columns['chi2'].shape[0]
        _target(v, g, i, zf, off, n, g.dc[j], [s for s in g.sorted if as_arr(s[0]['targetid']).at((0,)).eq(z3.IntVal(i))], nmin)
        off = off + n
    v.ensure('no further rows', zf['chi2'].shape[0] == off)

def _negative(v, c, r, zw):
    neg = (zw & NEG) != 0
    if not c.t.arch: return v.iff(neg, (c.F['zwarn'](r, 0) & NEG) != 0)
    co = [c.F['coeff'](r, q) for q in range(c.nc)]
    return v.and_(v.implies(v.or_(False, *[x < 0 for x in co]), neg), v.implies(v.and_(*[x > 0 for x in co]), v.iff(neg, (c.F['zwarn'](r, 0) & NEG) != 0)))
def _target(v, g, tid, zf, off, n, dc, sorts, nmin):
    C = [g.C[tid, t.k] for t in g.T]
    col = lambda k: (lambda i, *c: v.el(zf[k], off + i, *c))
    T_, R_ = col('#template'), col('#row')
    i = v.arb('i', n)
    v.ensure('rows of this target', v.el(zf['targetid'], off + i) == tid)
    v.ensure('numbered in order', v.el(zf['znum'], off + i) == i)
    # every row is one candidate
    v.ensure('each row is one refined candidate', v.or_(*[v.and_(T_(i) == c.t.k, R_(i) >= 0, R_(i) < c.n) for c in C]))
    for c in C:
        me = T_(i) == c.t.k; r = R_(i)
        def keep(name, f): v.ensure('%s of the candidate' % name, v.implies(me, f))
        for k in ('z', 'zerr', 'chi2', 'npixels'): keep(k, col(k)(i) == c.F[k](r, 0))
        b = v.arb('b', zf['zz'].shape[1])
        for k in ('zz', 'zzchi2'): keep(k, col(k)(i, b) == c.F[k](r, b))
        nc = zf['coeff'].shape[1]; b = v.arb('b', nc)
        keep('coefficients', col('coeff')(i, b) == v.ite(b < c.nc, c.F['coeff'](r, b), 0))
        keep('room for the coefficients', nc >= c.nc)
        keep('number of coefficients', col('ncoeff')(i) == c.nc)
        if c.t.arch: keep('type of its template, subtype of its archetype', v.and_(col('spectype')(i) == c.t.sp, *[v.implies(r == q, col('subtype')(i) == x) for q, x in enumerate(c.sub)]))
        else: keep('type', v.and_(col('spectype')(i) == c.t.sp, col('subtype')(i) == c.t.sb))
        if g.arch:
            if not {'pca_coeff', 'pca_spectype', 'pca_subtype', 'legcoeff'} <= set(zf.columns): v.ensure('columns of archetype fits', False); return
            pw = zf['pca_coeff'].shape[1]; b = v.arb('b', pw)
            keep('coefficients of the template', v.and_(pw >= c.t.nb, col('pca_coeff')(i, b) == v.ite(b < c.t.nb, c.F['pca_coeff' if c.t.arch else 'coeff'](r, b), 0)))
            keep('the template', v.and_(col('pca_spectype')(i) == c.t.sp, col('pca_subtype')(i) == ((c.t.sb or 'none') if c.t.arch else c.t.sb)))
            keep('Legendre coefficients', v.and_(zf['legcoeff'].shape[1] == 2, *[col('legcoeff')(i, q) == (c.F['legcoeff'](r, q) if c.t.arch else 0) for q in range(2)]))
        npx = c.F['npixels'](r, 0); z0 = lift(c.F['zwarn'](r, 0))[0]
        bit = lambda cond, w: z3.If(_b(tb(cond)), z3.BitVecVal(w, 32), z3.BitVecVal(0, 32))
        zw = zw_ = lift(col('zwarn')(i))[0]
        if g.arch:
            keep('negative-model warning only for negative archetypes', _negative(v, c, r, S(zw, 'w')))
            zw, z0 = zw | z3.BitVecVal(NEG, 32), z0 | z3.BitVecVal(NEG, 32)
        v.ensure('no-data, little-coverage and small-delta warnings are set exactly when they apply, others kept',
                 v.implies(me, S(zw == (z0 | bit(npx == 0, NODATA) | bit(npx < 10 * c.nc, LITTLE) | bit(dc.s(i), SMALL)))))
        # the delta chi2 is that of the listed rows
        keep('velocity limit of its type', dc.lim(i) == (100. if c.t.sp == 'STAR' else 1000.))
        v.ensure('the ranking column ignores the small-delta warning only', v.implies(me, S(lift(dc.zw(i))[0] | z3.BitVecVal(SMALL, 32) == zw_ | z3.BitVecVal(SMALL, 32))))
    v.ensure('delta chi2 of the listed rows', v.and_(dc.n == n, dc.chi2(i) == col('chi2')(i), dc.z(i) == col('z')(i), col('deltachi2')(i) == dc.d(i)))
    j = v.arb('j', n)
    v.ensure('no candidate is listed twice', v.implies(v.and_(i != j, T_(i) == T_(j)), R_(i) != R_(j)))
    bad = lambda q: (S(lift(col('zwarn')(q))[0], 'w') & BAD) != 0
    x = col('chi2')
    v.ensure('good fits come first', v.implies(v.and_(i < j, bad(i)), bad(j)))
    v.ensure('increasing chi2 within a group', v.implies(v.and_(i < j, v.iff(bad(i), bad(j))), x(i) <= x(j)))
    _kept(v, g, C, tid, off, n, sorts, nmin, T_, R_, bad, x)

def _kept(v, g, C, tid, off, n, sorts, nmin, T_, R_, bad, x):
    "at most nminima of each type, the best-ranked ones"
    if not sorts: raise Unsupported('candidates are not ranked by sort_zfit_dict')
    (before, first, p1) = sorts[0]; N = p1.shape[0]
    start, o = [], 0
    for c in C:
        start.append(o); o = o + c.n
    if not v.c.entails(_b(zeq(zi(N), zi(o)))): raise Unsupported('the first ranking does not cover all candidates')
    place1 = lambda k, r: S(p1.meta.pos(zi(start[k] + r)))       # rank of a candidate among all of the target
    code = first['spectype']
    if isinstance(N, int): return _kept_few(v, g, C, n, nmin, R_, bad, x, N, before)
    for sp in sorted({c.t.sp for c in C}):
        M = mask_sel(code == sp)
        place = lambda k, r: S(M.rankof((zi(place1(k, r)),)))    # ... and among those of its type
        mine = [c for c in C if c.t.sp == sp]
        if len(sorts) > 1:
            (b2, second, p2) = sorts[-1]; ii = getattr(b2['#row'], 'rows_from', None)
            if ii is None or ii.meta is None or ii.meta.pos(0) is None: raise Unsupported('selection of the listed rows')
            where = lambda k, r: S(p2.meta.pos(ii.meta.pos(zi(place1(k, r)))))
        else: where = place1
        i, j = v.arb('i', n), v.arb('j', n)
        isin = lambda q: v.or_(*[T_(q) == c.t.k for c in mine])
        def pl(q):
            t = place(mine[-1].t.k, R_(q))
            for c in mine[:-1]: t = v.ite(T_(q) == c.t.k, place(c.t.k, R_(q)), t, 'i')
            return t
        if len(sorts) == 1: _count_all(v, C, code)
        v.ensure('the places of the listed rows of a type are below the maximum', v.implies(isin(i), v.and_(pl(i) >= 0, pl(i) < nmin)))
        v.ensure('... and differ, so that there are at most as many', v.implies(v.and_(isin(i), isin(j), i != j), pl(i) != pl(j)))
        for c in mine:
            r = v.arb('r', c.n); w = where(c.t.k, r)
            v.ensure('a candidate whose place is below the maximum is listed', v.implies(place(c.t.k, r) < nmin, v.and_(w >= 0, w < n, T_(w) == c.t.k, R_(w) == r)))
            v.ensure('no better candidate of the type is left out for a listed one', v.implies(v.and_(isin(i), place(c.t.k, r) >= nmin),
                     v.or_(v.and_(v.not_(bad(i)), _bad0(c, r, v, g, before, start)), v.and_(v.iff(bad(i), _bad0(c, r, v, g, before, start)), x(i) <= c.F['chi2'](r, 0)))))
def _kept_few(v, g, C, n, nmin, R_, bad, x, N, before):
    "one template with a known number of candidates"
    if len(C) != 1: raise Unsupported('known numbers of candidates of several templates')
    c = C[0]; i, j = v.arb('i', n), v.arb('j', n)
    v.ensure('as many rows as allowed', n == v.ite(nmin < N, nmin, N, 'i'))
    v.ensure('no candidate twice', v.implies(i != j, R_(i) != R_(j)))
    for r in range(N):
        b0 = _bad0(c, r, v, g, before, {c.t.k: 0})
        v.ensure('no better candidate is left out', v.or_(*[v.and_(q < n, R_(q) == r) for q in range(N)], v.or_(v.and_(v.not_(bad(i)), b0), v.and_(v.iff(bad(i), b0), x(i) <= c.F['chi2'](r, 0)))))
def _bad0(c, r, v, g, before, start):
    old = (c.F['zwarn'](r, 0) & BAD) != 0
    return v.or_(old, (S(lift(v.el(before['zwarn'], start[c.t.k] + r))[0], 'w') & NEG) != 0) if c.t.arch else old
def _zw(c, r): return c.F['zwarn'](r, 0)
def _count_all(v, C, code):
    "the numbers of rows of each type add up"
    types = sorted({c.t.sp for c in C})
    sels = [mask_sel(code == s) for s in types]
    if len(sels) > 1: partition_lemma(sels, 'numbers of rows of the types')

_F = ['redrock.zfind.zfind']
@proof('C07', _F)
def table_one(v): _zfind(v, ['GALAXY'])
@proof('C07', _F)
def table_star(v): _zfind(v, ['STAR:::A', 'STAR:::B'])
@proof('C07', _F)
def table_types(v): _zfind(v, ['GALAXY', 'STAR:::A'], empty=False, nb=(10, 5))
@proof('C07', _F)
def table_targets(v): _zfind(v, ['QSO'], ntarg=2, empty=False)
@proof('C07', _F)
def table_priors(v): _zfind(v, ['GALAXY'], priors=True)
@proof('C07', _F, tier='thorough')
def table_three(v): _zfind(v, ['GALAXY', 'STAR:::A', 'STAR:::B'], empty=False, nb=(10, 5, 5))
class Arch: pass
@proof('C07', _F, specs=_SP)
def archetypes_all(v): _zfind(v, ['GALAXY'], empty=False, nb=(4,), arch=dict(GALAXY=Arch(), QSO=Arch()))
@proof('C07', _F, specs=_SP)
def archetypes_some(v): _zfind(v, ['GALAXY', 'STAR:::A'], empty=False, nb=(4, 6), arch=dict(GALAXY=Arch()))
@proof('C07', _F, specs=_SP)
def archetypes_last(v): _zfind(v, ['GALAXY', 'STAR:::A'], empty=False, nb=(6, 4), arch=dict(STAR=Arch(), QSO=Arch()), nn=2)
