"""C03: least-squares optimum and chi2 of each trial redshift"""
from vc.prove import *
from vc.loader import Rec, Keyed, SymList
from vc.npf import EXT, seq_offsets
import numpy as np
HUGE = 9999999

# ---------------------------------------------------------------- the solver
def _system(v):
    n = v.size('n', lo=1)
    M, y = v.array('M', (n, n)), v.array('y', (n,))
    return n, M, y, v.frozen(M), v.frozen(y)

def _same_system(v, n, M, y, MF, YF):
    p, q = v.arb('p', n), v.arb('q', n)
    v.ensure('the system is unchanged', v.and_(v.el(M, p, q) == MF(p, q), v.el(y, p) == YF(p)))
    return p, q

_FS = ['redrock.zscan.solve_matrices']
def _pca(v, name):
    n, M, y, MF, YF = _system(v)
    r, e = v.call_exc(v.mod('zscan').solve_matrices, M, y, solve_algorithm=name)
    p, q = _same_system(v, n, M, y, MF, YF)
    if e is not None:
        v.ensure('the only failure is a singular system', isinstance(e, np.linalg.LinAlgError)); return
    v.ensure('one coefficient per basis vector', v.and_(len(r._shape) == 1, r.shape[0] == n))
    v.ensure('the coefficients solve the system', v.sum(n, lambda q: MF(p, q) * v.el(r, q)) == YF(p))
@proof('C03', _FS)
def solve_pca(v): _pca(v, 'PCA')
@proof('C03', _FS)
def solve_pca_lower(v): _pca(v, 'pca')
def _nonneg(v, name):
    n, M, y, MF, YF = _system(v)
    r, e = v.call_exc(v.mod('zscan').solve_matrices, M, y, solve_algorithm=name)
    p, q = _same_system(v, n, M, y, MF, YF)
    if e is not None:
        v.ensure('a failure is reported as an unsolvable system', isinstance(e, np.linalg.LinAlgError)); return
    v.ensure('one coefficient per basis vector', v.and_(len(r._shape) == 1, r.shape[0] == n))
    v.ensure('no coefficient is negative', v.el(r, p) >= 0)
    A, b, x = v.c.ghost['nnls'][-1]
    v.ensure('the given system is solved', v.and_(v.el(A, p, q) == MF(p, q), v.el(b, p) == YF(p), v.el(x, p) == v.el(r, p)))
@proof('C03', _FS)
def solve_nmf(v): _nonneg(v, 'NMF')
@proof('C03', _FS)
def solve_nnls(v): _nonneg(v, 'nnls')
@proof('C03', _FS)
def solve_bvls(v):
    n, M, y, MF, YF = _system(v)
    na = v.int('narch', lo=0); v.require(na <= n)
    b = v.np().zeros((2, n)); b[0][na:] = -float('inf'); b[1] = float('inf')
    r, e = v.call_exc(v.mod('zscan').solve_matrices, M, y, solve_algorithm='BVLS', solver_args=dict(bounds=b))
    p, q = _same_system(v, n, M, y, MF, YF)
    if e is not None:
        v.ensure('a failure is reported as an unsolvable system', isinstance(e, np.linalg.LinAlgError)); return
    v.ensure('one coefficient per basis vector', v.and_(len(r._shape) == 1, r.shape[0] == n))
    v.ensure('bounded coefficients respect their bound', v.implies(p < na, v.el(r, p) >= 0))
    A, bb, _, x = v.c.ghost['lsq'][-1]
    v.ensure('the given system is solved', v.and_(v.el(A, p, q) == MF(p, q), v.el(bb, p) == YF(p), v.el(x, p) == v.el(r, p)))
@proof('C03', _FS)
def solve_unknown(v):
    n, M, y, MF, YF = _system(v)
    for name in ('QR', '', 'PCA2', 'BVL'):
        r, e = v.call_exc(v.mod('zscan').solve_matrices, M, y, solve_algorithm=name)
        v.ensure('an unknown algorithm is refused', isinstance(e, NotImplementedError))

# ---------------------------------------------------------------- spectra of a target
def _spectra(v, tag='', nz=None, tok=True):
    "an arbitrary number of spectra of arbitrary lengths, and redshifted templates per grid"
    ns = v.size('nspec' + tag, lo=1)
    L = v.function('npix' + tag, 'i', 'i'); H = v.function('grid' + tag, 'i', 'i')
    iv, fl, R = (v.function(x + tag, 'ii') for x in ('ivar', 'flux', 'unused')); R = v.function('resolution' + tag, 'iii')
    j = z3.Int('#sj')
    v.c.add(z3.ForAll([j], L(S(j)).t >= 1, patterns=[L(S(j)).t]))
    arr = lambda f, j, n: SArr.new((n,), lambda i: f(S(j) if z3.is_expr(j) else j, i[0] if not z3.is_expr(i[0]) else S(i[0])).t, 'r')
    def spec(j):
        n = L(j).t
        from vc.sparse import SymSparse
        Rm = SymSparse(SArr.new((n, n), lambda i: R(j, i[0], i[1]).t, 'r'))
        return Rec(ivar=arr(iv, j, n), flux=arr(fl, j, n), R=Rm, Rcsr=Rm, wavehash=H(j), nwave=S(n), _token_=S(j) if z3.is_expr(j) else j)
    return SymList(zi(ns), spec), ns, L, H, iv, fl, R

def _pieces(v, ns, L):
    off, which = seq_offsets(zi(ns), lambda k: L(k).t)
    return (lambda j: S(off(v.raw(j)))), (lambda r: S(which(v.raw(r)))), S(off(v.raw(ns)))

@proof('C03', ['redrock.zscan.spectral_data'])
def concatenated(v):
    sp, ns, L, H, iv, fl, R = _spectra(v)
    w, f, wf = v.call(v.mod('zscan').spectral_data, sp)
    off, which, tot = _pieces(v, ns, L)
    v.ensure('one entry per pixel', v.and_(*[v.and_(len(a._shape) == 1, a.shape[0] == tot) for a in (w, f, wf)]))
    j = v.arb('j', ns); r = v.arb('r', L(j))
    v.ensure('the weights of every spectrum in order', v.el(w, off(j) + r) == iv(j, r))
    v.ensure('the fluxes of every spectrum in order', v.el(f, off(j) + r) == fl(j, r))
    v.ensure('weighted fluxes', v.el(wf, off(j) + r) == iv(j, r) * fl(j, r))

def _dot_lists(G):
    return lambda L: dict(Tb=(L.k, G['rows']))
_GD = {}
@proof('C03', ['redrock.zscan.dot_product_sparse_one'], specs={'dot_product_sparse_one#0': dict(lists=_dot_lists(_GD))})
def convolved(v):
    sp, ns, L, H, iv, fl, R = _spectra(v)
    nz, nb = v.size('nz', lo=1), v.size('nbasis', lo=1)
    T = v.function('T', 'iiii')            # grid, redshift, wavelength, basis
    LH = v.function('npix_of_grid', 'i', 'i')
    j0 = z3.Int('#sj'); v.c.add(z3.ForAll([j0], LH(H(S(j0))).t == L(S(j0)).t, patterns=[L(S(j0)).t]))
    tdata = Keyed(lambda key: SArr.new((zi(nz), LH(key).t, zi(nb)), lambda i: T(key, *[S(x) if z3.is_expr(x) else x for x in i]).t, 'r'))
    i = v.int('i', lo=0); v.require(i < nz)
    def rows(j):
        n = L(j).t; jj = S(j) if z3.is_expr(j) else j
        return SArr.new((n, zi(nb)), lambda x: v.sum(S(n), lambda q: R(jj, _s(x[0]), q) * T(H(jj), i, q, _s(x[1]))).t, 'r')
    _GD['rows'] = rows
    Tb = v.call(v.mod('zscan').dot_product_sparse_one, sp, tdata, i)
    off, which, tot = _pieces(v, ns, L)
    v.ensure('one row per pixel and one column per basis vector', v.and_(len(Tb._shape) == 2, Tb.shape[0] == tot, Tb.shape[1] == nb))
    j = v.arb('j', ns); r = v.arb('r', L(j)); b = v.arb('b', nb)
    v.ensure('each spectrum convolves the template of its own grid at this redshift', v.el(Tb, off(j) + r, b) == v.sum(L(j), lambda q: R(j, r, q) * T(H(j), i, q, b)))
def _s(x): return S(x) if z3.is_expr(x) else x

# ---------------------------------------------------------------- the scan over redshifts of one target
def _scan(v, alg, prior, kind, solver_args=None):
    n, nz, nb = v.size('npix', lo=1), v.size('nz', lo=1), v.size('nbasis', lo=1)
    w, f, wf = v.array('weights', (n,)), v.array('flux', (n,)), v.array('wflux', (n,))
    W, F, WF = v.frozen(w), v.frozen(f), v.frozen(wf)
    v.require(v.all(n, lambda r: W(r) >= 0)); v.require(v.all(n, lambda r: WF(r) == W(r) * F(r)))
    T = v.function('T', 'iii'); X = v.function('solution', 'ii')
    fails = v.function('unsolvable', 'i', 'b')
    P = v.frozen(prior(v, nb)) if prior else None
    spectra, tdata = Rec(), Rec()
    cur = []
    def dot_one(sp, td, i):
        v.ensure('the spectra and templates of the request are convolved', sp is spectra and td is tdata)
        cur.append(i)
        return SArr.new((zi(n), zi(nb)), lambda x: T(i, _s(x[0]), _s(x[1])).t, 'r')
    def Mat(i, p, q):
        m = v.sum(n, lambda r: T(i, r, p) * W(r) * T(i, r, q))
        return m + P(p, q) if P else m
    def rhs(i, p): return v.sum(n, lambda r: T(i, r, p) * WF(r))
    def solve(M, y, solve_algorithm='PCA', solver_args=None, use_gpu=False):
        i = cur[-1]
        v.ensure('the system has one equation per basis vector', v.and_(len(M._shape) == 2, M.shape[0] == nb, M.shape[1] == nb, len(y._shape) == 1, y.shape[0] == nb))
        v.forall_lemma('matrix of the normal equations', (nb, nb), lambda p, q: v.el(M, p, q) == Mat(i, p, q))
        v.forall_lemma('right-hand side of the normal equations', nb, lambda p: v.el(y, p) == rhs(i, p))
        v.ensure('the requested algorithm is used', solve_algorithm == alg and not use_gpu and solver_args is args)
        if bool(fails(i)): raise (np.linalg.LinAlgError('singular') if v.c.choose(2) == 0 else NotImplementedError('x'))
        return SArr.new((zi(nb),), lambda x: X(i, _s(x[0])).t, 'r')
    v.contract('zscan', 'dot_product_sparse_one', dot_one, keep=True); v.contract('zscan', 'solve_matrices', solve, keep=True)
    args = solver_args
    chi = lambda i: v.sum(n, lambda r: W(r) * (F(r) - v.sum(nb, lambda b: T(i, r, b) * X(i, b))) * (F(r) - v.sum(nb, lambda b: T(i, r, b) * X(i, b))))
    return locals()

def _scan_inv(L):
    G = L._L.vc.ghost_scan
    v, chi, X, fails = G['v'], G['chi'], G['X'], G['fails']
    return [('chi2 of the redshifts done', v.all(L.k, lambda j: v.implies(v.not_(fails(j)), v.el(L.zchi2, j) == chi(j)))),
            ('sentinel of the redshifts that failed', v.all(L.k, lambda j: v.implies(fails(j), v.el(L.zchi2, j) == HUGE))),
            ('coefficients of the redshifts done', v.all((L.k, G['nb']), lambda j, b: v.implies(v.not_(fails(j)), v.el(L.zcoeff, j, b) == X(j, b)))),
            ('zero coefficients where it failed', v.all((L.k, G['nb']), lambda j, b: v.implies(fails(j), v.el(L.zcoeff, j, b) == 0))),
            ('untouched rows', v.all((L.n, G['nb']), lambda j, b: v.implies(j >= L.k, v.el(L.zcoeff, j, b) == 0)))]
_SCAN_SPECS = {'calc_zchi2_batch#0': dict(inv=_scan_inv)}
_SCAN_SIZES = [dict(npix=2, nz=2, nbasis=1), dict(npix=1, nz=1, nbasis=2)]
_FB = ['redrock.zscan.calc_zchi2_batch']
def _scan_posts(v, G, alg, **kw):
    v.P.rt.ghost_scan = dict(v=v, **{k: G[k] for k in ('chi', 'X', 'fails', 'nb')})
    chi, X, fails, nz, nb, W, n = (G[k] for k in ('chi', 'X', 'fails', 'nz', 'nb', 'W', 'n'))
    zchi2, zc = v.call(v.mod('zscan').calc_zchi2_batch, G['spectra'], G['tdata'], G['w'], G['f'], G['wf'], nz, nb, solve_matrices_algorithm=alg, **kw)
    v.ensure('one chi2 per redshift', v.and_(len(zchi2._shape) == 1, zchi2.shape[0] == nz))
    v.ensure('one coefficient per redshift and basis vector', v.and_(len(zc._shape) == 2, zc.shape[0] == nz, zc.shape[1] == nb))
    i, b, r = v.arb('i', nz), v.arb('b', nb), v.arb('r', n)
    none = v.sum(n, W) == 0
    v.ensure('no weight: the sentinel', v.implies(none, v.el(zchi2, i) == HUGE))
    v.ensure('no weight: zero coefficients', v.implies(none, v.el(zc, i, b) == 0))
    v.ensure('unsolvable: the sentinel', v.implies(fails(i), v.el(zchi2, i) == HUGE))
    ok = v.and_(v.not_(none), v.not_(fails(i)))
    v.ensure('coefficients are the solution of this redshift', v.implies(ok, v.el(zc, i, b) == X(i, b)))
    v.ensure('chi2 of those coefficients', v.implies(ok, v.el(zchi2, i) == chi(i)))
@proof('C03', _FB, specs=_SCAN_SPECS, sizes=_SCAN_SIZES)
def scan_pca(v): _scan_posts(v, _scan(v, 'PCA', None, 'pca'), 'PCA')
@proof('C03', _FB, specs=_SCAN_SPECS, sizes=_SCAN_SIZES)
def scan_prior(v):
    keep, a = {}, dict(bounds='the bounds')
    def prior(v, nb): keep['P'] = v.array('prior', (nb, nb)); return keep['P']
    G = _scan(v, 'NMF', prior, 'nmf', solver_args=a); P0 = G['P']
    _scan_posts(v, G, 'NMF', prior=keep['P'], solver_args=a)
    p, q = v.arb('pp', G['nb']), v.arb('pq', G['nb'])
    v.ensure('the prior is left as it was', v.el(keep['P'], p, q) == P0(p, q))

# ---------------------------------------------------------------- what the contracts give together
@proof('C03', ['redrock.zscan.calc_zchi2_batch', 'redrock.zscan.solve_matrices'])
def optimum(v):
    "lemma: coefficients solving the normal equations minimise chi2 (contracts of scan_* and solve_pca)"
    n, nb = v.size('npix', lo=1), v.size('nbasis', lo=1)
    T, W, F = v.function('T', 'ii'), v.function('w', 'i'), v.function('f', 'i')
    x, c = v.function('x', 'i'), v.function('c', 'i')
    v.require(v.all(n, lambda r: W(r) >= 0))
    M = lambda p, q: v.sum(n, lambda r: T(r, p) * W(r) * T(r, q))
    y = lambda p: v.sum(n, lambda r: T(r, p) * (W(r) * F(r)))
    v.require(v.all(nb, lambda p: v.sum(nb, lambda q: M(p, q) * x(q)) == y(p)))
    d = lambda b: c(b) - x(b)
    mod = lambda r, g: v.sum(nb, lambda b: T(r, b) * g(b))
    chi = lambda g: v.sum(n, lambda r: W(r) * (F(r) - mod(r, g)) * (F(r) - mod(r, g)))
    # sum over pixels of w T_p (model of x) is the left-hand side of equation p
    def eq(p):
        v.sum_swap(n, nb, lambda r, q: T(r, p) * W(r) * T(r, q) * x(q))
        return v.sum(n, lambda r: T(r, p) * W(r) * mod(r, x)) == y(p)
    v.forall_lemma('the residual is orthogonal to every basis vector', nb, eq)
    v.sum_swap(n, nb, lambda r, b: W(r) * F(r) * T(r, b) * d(b))
    v.sum_swap(n, nb, lambda r, b: W(r) * mod(r, x) * T(r, b) * d(b))
    v.sum_equal('orthogonal to every combination', nb, lambda b: d(b) * v.sum(n, lambda r: T(r, b) * W(r) * mod(r, x)), lambda b: d(b) * y(b))
    g = v.sum(n, lambda r: W(r) * mod(r, d) * mod(r, d))
    v.sum_nonneg('squares', n, lambda r: W(r) * mod(r, d) * mod(r, d))
    v.lemma('chi2 of other coefficients is larger by the weighted square of the difference', chi(c) == chi(x) + g)
    v.ensure('no other coefficients give a smaller chi2', chi(c) >= chi(x))
@proof('C03', ['redrock.zscan.calc_zchi2_batch'])
def zero_weight(v):
    "lemma: two data sets that differ only where the weight is zero give the same system and chi2"
    n, nb = v.size('npix', lo=1), v.size('nbasis', lo=1)
    T, T2, W, F, F2 = v.function('T', 'ii'), v.function('T2', 'ii'), v.function('w', 'i'), v.function('f', 'i'), v.function('f2', 'i')
    x = v.function('x', 'i')
    v.require(v.all(n, lambda r: v.or_(W(r) == 0, F(r) == F2(r))))
    r0 = z3.Int('#r'); b0 = z3.Int('#b')
    v.c.add(z3.ForAll([r0, b0], z3.Or(W(S(r0)).t == 0, T(S(r0), S(b0)).t == T2(S(r0), S(b0)).t), patterns=[z3.MultiPattern(W(S(r0)).t, T(S(r0), S(b0)).t), z3.MultiPattern(W(S(r0)).t, T2(S(r0), S(b0)).t)]))
    p, q = v.arb('p', nb), v.arb('q', nb)
    v.sum_equal('matrix', n, lambda r: T(r, p) * W(r) * T(r, q), lambda r: T2(r, p) * W(r) * T2(r, q))
    v.sum_equal('right-hand side', n, lambda r: T(r, p) * (W(r) * F(r)), lambda r: T2(r, p) * (W(r) * F2(r)))
    v.ensure('same matrix', v.sum(n, lambda r: T(r, p) * W(r) * T(r, q)) == v.sum(n, lambda r: T2(r, p) * W(r) * T2(r, q)))
    v.ensure('same right-hand side', v.sum(n, lambda r: T(r, p) * (W(r) * F(r))) == v.sum(n, lambda r: T2(r, p) * (W(r) * F2(r))))
    def mod(r, T): return v.sum(nb, lambda b: T(r, b) * x(b))
    r = v.arb('r', n)
    def term(r, T, F): return W(r) * (F(r) - mod(r, T)) * (F(r) - mod(r, T))
    def same(r):
        v.sum_equal('model of a pixel with weight', nb, lambda b: T(r, b) * x(b), lambda b: T2(r, b) * x(b), cond=W(r) != 0)
        return term(r, T, F) == term(r, T2, F2)
    v.forall_lemma('same contribution of every pixel', n, same)
    v.sum_equal('chi2', n, lambda r: term(r, T, F), lambda r: term(r, T2, F2))
    v.ensure('same chi2', v.sum(n, lambda r: term(r, T, F)) == v.sum(n, lambda r: term(r, T2, F2)))
@proof('C03', ['redrock.zscan.calc_zchi2_batch'])
def no_weight(v):
    "lemma: weights that are all zero are recognised by their sum, and only those"
    n = v.size('npix', lo=1); W = v.function('w', 'i')
    v.require(v.all(n, lambda r: W(r) >= 0)); r = v.arb('r', n)
    v.sum_ge('a sum of non-negative terms is at least each of them', n, W, r)
    v.ensure('a positive weight gives a positive sum', v.implies(W(r) > 0, v.sum(n, W) > 0))
    s = v.sum(n, W)
    v.sum_lemma('zero terms', s, '== 0', cond=v.all(n, lambda r: W(r) == 0))
    v.ensure('zero weights give a zero sum', v.implies(v.all(n, lambda r: W(r) == 0), s == 0))

# ---------------------------------------------------------------- the scan over targets
_TG = {}
def _targets_inv(L):
    G = _TG['G']; v = G['v']; nz, nb = G['nz'], G['nb']
    none, CH, CO, PEN = G['none'], G['CH'], G['CO'], G['PEN']
    done = lambda f: (lambda j, *a: v.implies(j < L.k, f(j, *a)))
    return [('chi2 of the targets done', v.all((L.k, nz), lambda j, i: v.el(L.zchi2, j, i) == v.ite(none(j), HUGE, CH(j, i)))),
            ('coefficients of the targets done', v.all((L.k, nz, nb), lambda j, i, b: v.el(L.zcoeff, j, i, b) == v.ite(none(j), 0, CO(j, i, b)))),
            ('penalties of the targets done', v.all((L.k, nz), lambda j, i: v.el(L.zchi2penalty, j, i) == v.ite(none(j), 0, PEN(j, i)))),
            ('targets still to do: coefficients', v.all((L.n, nz, nb), lambda j, i, b: v.implies(j >= L.k, v.el(L.zcoeff, j, i, b) == 0))),
            ('targets still to do: penalties', v.all((L.n, nz), lambda j, i: v.implies(j >= L.k, v.el(L.zchi2penalty, j, i) == 0)))]
def _targets(v, oii, progress):
    nt, nz, nb = v.size('ntargets', lo=0), v.size('nz', lo=1), v.size('nbasis', lo=1)
    NP = (lambda j: 2) if v.bounded else v.function('npix', 'i', 'i'); W, F = v.function('weight', 'ii'), v.function('flux', 'ii')
    CH, CO, PN = v.function('chi2', 'ii'), v.function('coeff', 'iii'), v.function('penalty', 'ii')
    j0 = z3.Int('#tj'); v.bounded or v.c.add(z3.ForAll([j0], NP(S(j0)).t >= 1, patterns=[NP(S(j0)).t]))
    none = lambda j: v.sum(NP(j), lambda r: W(j, r)) == 0
    PEN = PN if oii else (lambda j, i: 0)
    puts = []
    _TG['G'] = locals()
    tok = lambda j: S(j) if z3.is_expr(j) else j
    arr = lambda j, f: SArr.new((zi(NP(j)),), lambda i: f(tok(j), _s(i[0])).t, 'r')
    targets = SymList(zi(nt), lambda j: Rec(spectra=Rec(_token_=tok(j)), id=tok(j), _token_=tok(j)))
    tdata, alg, red = Rec(), Rec(), v.array('redshifts', (nz,)); oiit = Rec()
    tmpl = Rec(nbasis=nb, solve_matrices_algorithm=alg, **(dict(OIItemplate=oiit) if oii else {}))
    class Q(Rec):
        def put(self, x): puts.append(x)
    dt = Rec(local=Rec(redshifts=red, data=tdata, index=0), template=tmpl, comm=None)
    cur = []
    def spectral(sp):
        j = zi(sp._token_); cur.append(j)
        return arr(j, W), arr(j, F), arr(j, lambda j, r: W(j, r) * F(j, r))
    def batch(spectra, td, w, f, wf, nz_, nb_, solve_matrices_algorithm=None, solver_args=None, use_gpu=False, fullprecision=True, prior=None):
        j = zi(spectra._token_); J = tok(j); r = v.arb('r', NP(J)); n = NP(J)
        v.ensure('the templates and algorithm of the scan are used', td is tdata and solve_matrices_algorithm is alg and solver_args is None and prior is None and not use_gpu)
        v.ensure('all redshifts and basis vectors are scanned', v.and_(nz_ == nz, nb_ == nb))
        v.ensure('the data are those of the same target', v.and_(*[x.shape[0] == n for x in (w, f, wf)], v.el(w, r) == W(J, r), v.el(f, r) == F(J, r), v.el(wf, r) == W(J, r) * F(J, r)))
        # contract of calc_zchi2_batch: the sentinel and no coefficients without weight
        return SArr.new((zi(nz),), lambda i: lift(v.ite(none(J), HUGE, CH(J, _s(i[0]))))[0], 'r'), SArr.new((zi(nz), zi(nb)), lambda i: lift(v.ite(none(J), 0.0, CO(J, _s(i[0]), _s(i[1]))))[0], 'r')
    def negoii(t, co):
        J = tok(cur[-1]); i, b = v.arb('i', nz), v.arb('b', nb)
        v.ensure('the penalty is that of the coefficients of the target', v.and_(t is oiit, len(co._shape) == 2, co.shape[0] == nz, v.el(co, i, b) == v.ite(none(J), 0.0, CO(J, i, b))))
        # contract of calc_negOII_penalty: none where the model vanishes (C19)
        return SArr.new((zi(nz),), lambda i: lift(v.ite(none(J), 0.0, PN(J, _s(i[0]))))[0], 'r')
    v.contract('zscan', 'spectral_data', spectral, keep=True); v.contract('zscan', 'calc_zchi2_batch', batch, keep=True); v.contract('zscan', 'calc_negOII_penalty', negoii, keep=True)
    ids = SymList(zi(nt), tok)
    z, c, p = v.call(v.mod('zscan').calc_zchi2, ids, targets, dt, **(dict(progress=Q()) if progress else {}))
    v.ensure('one row per target', v.and_(*[a.shape[0] == nt for a in (z, c, p)], *[a.shape[1] == nz for a in (z, c, p)], c.shape[2] == nb))
    j, i, b = v.arb('j', nt), v.arb('iz', nz), v.arb('ib', nb)
    v.ensure('chi2 of a target comes from its own spectra alone', v.implies(v.not_(none(j)), v.el(z, j, i) == CH(j, i)))
    v.ensure('coefficients of a target come from its own spectra alone', v.implies(v.not_(none(j)), v.el(c, j, i, b) == CO(j, i, b)))
    v.ensure('penalty of a target', v.implies(v.not_(none(j)), v.el(p, j, i) == PEN(j, i)))
    v.ensure('a target without weight gets the sentinel', v.implies(none(j), v.and_(v.el(z, j, i) == HUGE, v.el(p, j, i) == 0, v.el(c, j, i, b) == 0)))
def _progress(L):
    G = _TG['G']
    if G['progress']:
        G['v'].lemma('progress is reported once for every target, with weight or without', len(G['puts']) == 1 and G['puts'][0] == 1)
_TS = dict(sizes=[dict(ntargets=2, nz=2, nbasis=1)], specs={'calc_zchi2#0': dict(inv=_targets_inv, hint=_progress)})
@proof('C03', ['redrock.zscan.calc_zchi2'], **_TS)
def targets_plain(v): _targets(v, False, False)
@proof('C03', ['redrock.zscan.calc_zchi2'], **_TS)
def targets_oii(v): _targets(v, True, True)

@proof('C03', ['redrock.zscan._zchi2_one', 'redrock.zscan.calc_zchi2_one'], specs={'calc_zchi2_one#0': dict(lists=lambda L: dict(Tb=(L.k, _ONE['rows'])), types=dict(nbasis=lambda L: _ONE['nb'](L)))})
def single_redshift(v):
    sp, ns, L, H, iv, fl, R = _spectra(v)
    nb = v.size('nbasis', lo=1); T = v.function('T', 'iii')
    LH = v.function('npix_of_grid', 'i', 'i')
    j0 = z3.Int('#sj'); v.c.add(z3.ForAll([j0], LH(H(S(j0))).t == L(S(j0)).t, patterns=[L(S(j0)).t]))
    tdata = Keyed(lambda key: SArr.new((LH(key).t, zi(nb)), lambda i: T(key, _s(i[0]), _s(i[1])).t, 'r'))
    def rows(j):
        n = L(j).t; jj = S(j) if z3.is_expr(j) else j
        return SArr.new((n, zi(nb)), lambda x: v.sum(S(n), lambda q: R(jj, _s(x[0]), q) * T(H(jj), q, _s(x[1]))).t, 'r')
    _ONE['rows'] = rows; _ONE['nb'] = lambda L: nb
    off, which, tot = _pieces(v, ns, L)
    w, f = v.array('weights', (tot,)), v.array('flux', (tot,)); wf = w * f
    W, F = v.frozen(w), v.frozen(f)
    X, fails = v.function('solution', 'i'), v.bool('unsolvable')
    alg = Rec()
    A = lambda r, b: v.el(_ONE['Tb'], r, b)
    def solve(M, y, solve_algorithm='PCA', solver_args=None, use_gpu=False):
        p, q = v.arb('p', nb), v.arb('q', nb)
        Tb = _ONE['Tb']
        v.ensure('the matrix of the normal equations', v.el(M, p, q) == v.sum(tot, lambda r: A(r, p) * W(r) * A(r, q)))
        v.ensure('the right-hand side', v.el(y, p) == v.sum(tot, lambda r: A(r, p) * W(r) * F(r)))
        v.ensure('the requested algorithm', solve_algorithm is alg and not use_gpu)
        if bool(fails): raise (np.linalg.LinAlgError('x') if v.c.choose(2) == 0 else NotImplementedError('x'))
        return SArr.new((zi(nb),), lambda i: X(_s(i[0])).t, 'r')
    v.contract('zscan', 'solve_matrices', solve)
    one = v.mod('zscan')._zchi2_one
    def zone(Tb, *a):
        _ONE['Tb'] = Tb
        j, r, b = v.arb('j', ns), None, v.arb('b', nb); r = v.arb('r', L(j))
        v.ensure('one row per pixel', v.and_(Tb.shape[0] == tot, Tb.shape[1] == nb))
        v.ensure('each spectrum convolves the template of its own grid', v.el(Tb, off(j) + r, b) == v.sum(L(j), lambda q: R(j, r, q) * T(H(j), q, b)))
        return one(Tb, *a)
    v.mod('zscan')._zchi2_one = zone
    chi2, c = v.call(v.mod('zscan').calc_zchi2_one, sp, w, f, wf, tdata, alg)
    b = v.arb('b', nb); fit = lambda r: v.sum(nb, lambda b: A(r, b) * X(b))
    v.ensure('one coefficient per basis vector', c.shape[0] == nb)
    v.ensure('unsolvable: the sentinel', v.implies(fails, v.and_(chi2 == HUGE, v.el(c, b) == 0)))
    v.ensure('the solution', v.implies(v.not_(fails), v.el(c, b) == X(b)))
    v.ensure('chi2 of the reported coefficients', v.implies(v.not_(fails), chi2 == v.sum(tot, lambda r: W(r) * (F(r) - fit(r)) * (F(r) - fit(r)))))
_ONE = {}
