"""C14: coefficients of archetype fits"""
from vc.prove import *
from vc.loader import Rec
import z3, itertools
def _s(x): return S(x) if z3.is_expr(x) else x

# ---------------------------------------------------------------- prior
def _prior_inv(L):
    v = CUR[0]; P = L.prior; n = L.nbasis; old = L.old(P)
    new = v.frozen(P)
    return [('the first archetype coefficients are free', v.all((n, n), lambda i, j: new(i, j) == v.ite(v.and_(i == j, i < L.k), 0, old(i, j))))]
CUR = [None]
@proof('C14', ['redrock.fitz.prior_on_coeffs'], specs={'prior_on_coeffs#0': dict(inv=_prior_inv)}, replay='split_and_prior',
       sizes=[dict(n_nbh=1, deg=1, ncamera=1), dict(n_nbh=2, deg=2, ncamera=3)])
def prior(v):
    CUR[0] = v
    nn, deg, nc = v.size('n_nbh', lo=1), v.size('deg', lo=0), v.size('ncamera', lo=1)
    sg = v.real('sigma', pos=True)
    P = v.call(v.mod('fitz').prior_on_coeffs, nn, deg, sg, nc)
    nb = nn + deg * nc
    v.ensure('one row and column per coefficient', v.and_(P.shape[0] == nb, P.shape[1] == nb, len(P._shape) == 2))
    i, j = v.arb('i', nb), v.arb('j', nb)
    v.ensure('archetype coefficients are not regularised', v.implies(v.or_(i < nn, j < nn), v.el(P, i, j) == 0))
    v.ensure('Legendre coefficients are regularised by 1/sigma^2, independently of each other', v.implies(v.and_(i >= nn, j >= nn), v.el(P, i, j) == v.ite(i == j, 1 / (sg * sg), 0)))

# ---------------------------------------------------------------- splitting
@proof('C14', ['redrock.archetypes.split_archetype_coeff'])
def split(v):
    for sub in ('ELG_3', 'ELG_3;ELG_11', 'a;b;c', ''):
        na = sub.count(';') + 1
        for nb in (0, 1, 2, 3, 5):
            nleg = v.size('nleg%d%s' % (nb, sub), lo=0)
            c = v.array('coeff%d%s' % (nb, sub), (na + nb * nleg,)); F = v.frozen(c)
            a, l = v.call(v.mod('archetypes').split_archetype_coeff, sub, c, nb, nleg)
            v.ensure('one archetype coefficient per subtype', a.shape[0] == na)
            v.ensure('one block per band', len(l) == nb)
            i = v.arb('i', na); v.ensure('the archetype coefficients come first', v.el(a, i) == F(i))
            for b in range(nb):
                v.ensure('blocks have one coefficient per Legendre term', l[b].shape[0] == nleg)
                d = v.arb('d', nleg); v.ensure('block b holds the coefficients of band b', v.el(l[b], d) == F(na + b * nleg + d))

# ---------------------------------------------------------------- per camera fit
class G: pass
def uf(name, *kinds):
    f = z3.Function('SR_' + name, *[SORT[k] for k in kinds])
    return lambda *a: S(f(*[convert(*lift(x), k) for x, k in zip(a, kinds)]), kinds[-1])
ARC = uf('archetype', 'i', 'i', 'i', 'i', 'r')      # grid, archetype, pixel, neighbour
LEG = uf('legendre', 'i', 'i', 'i', 'r')            # grid, pixel, degree
CCHI = uf('camchi', 'i', 'r')                       # archetype -> chi2 of the optimum
CCO = uf('camco', 'i', 'i', 'r')                    # and its coefficients

def _fill_inv(L):
    v, g = CUR[0]; a = L.tdata2[L.hs]; new = v.frozen(a); i = L.i
    nb, nn, nl = L.nbasis, L.n_nbh, L.nleg
    def want(p, c):
        leg = v.and_(c >= nn + nl * i, c < nn + nl * i + L.k)
        t = v.ite(leg, LEG(L.hs, p, c - nn - nl * i), 0)
        for q in range(nn - 1, -1, -1): t = v.ite(c == q, ARC(L.hs, L.j, p, q), t)
        return t
    return [('Legendre terms so far, in the block of this grid', v.all((g.npx[L.hs], nb), lambda p, c: new(p, c) == want(p, c)))]
def _arch_inv(L):
    v, g = CUR[0]; X, C = v.frozen(L.zzchi2), v.frozen(L.zzcoeff)
    return [('chi2 of the archetypes so far', v.all(L.k, lambda j: X(j) == CCHI(j))),
            ('coefficients of the archetypes so far', v.all((L.k, L.nbasis), lambda j, c: C(j, c) == CCO(j, c)))]
_SP = {'per_camera_coeff_with_least_square_batch#2': dict(inv=_arch_inv, scratch=('tdata2',)),
       'per_camera_coeff_with_least_square_batch#5': dict(inv=_fill_inv)}
_FS = ['redrock.zscan.per_camera_coeff_with_least_square_batch']
def _camera(v, bands, nn, nleg0=False, method='bvls', prior=True):
    g = G(); CUR[0] = (v, g)
    nc = len(bands); nleg = 0 if nleg0 else v.size('nleg', lo=1)
    na = v.size('narch', lo=1) if nn == 1 else 1
    g.npx = {i: v.size('npix%d' % i, lo=1) for i in range(nc)}
    g.tdata = {}
    for i in range(nc):
        def el(x, i=i):
            t = LEG(i, _s(x[1]), _s(x[2]) - nn)
            for q in range(nn - 1, -1, -1): t = v.ite(_s(x[2]) == q, ARC(i, _s(x[0]), _s(x[1]), q), t)
            return t.t
        g.tdata[i] = SArr.new((zi(na), zi(g.npx[i]), zi(nn + nleg)), el, 'r')
    nb = nn + nc * nleg
    spectra, pri, W = object(), (object() if prior else None), (object(), object(), object())
    target = Rec(spectra=spectra)
    def batch(sp, td, w, f, wf, n, nbasis, solve_matrices_algorithm=None, solver_args=None, use_gpu=False, fullprecision=True, prior=None):
        v.ensure('the fit uses the spectra and data of the target', sp is spectra and (w, f, wf) == W and not use_gpu)
        v.ensure('the prior is passed on', prior is pri)
        v.ensure('the solver is the requested one', solve_matrices_algorithm == method.upper())
        v.ensure('one archetype per fit and one coefficient per basis vector', v.and_(n == 1, nbasis == nb))
        if method.upper() == 'BVLS':
            lo, hi = solver_args['bounds'][0], solver_args['bounds'][1]
            b = v.arb('b', nb)
            v.ensure('archetype coefficients are not negative', v.implies(b < nn, v.el(lo, b) == 0))
            v.ensure('Legendre coefficients are unbounded below', v.implies(b >= nn, v.el(lo, b) == -float('inf')))
            v.ensure('no coefficient is bounded above', v.el(hi, b) == float('inf'))
        st = [L for L in v.c.loopstack if L.site.endswith('batch#2')]
        j = S(st[-1].k) if st else 0
        for i in range(nc):
            a = as_arr(td[i])
            v.ensure('design matrix shape', v.and_(len(a._shape) == 3, a.shape[0] == 1, a.shape[1] == g.npx[i], a.shape[2] == nb))
            p, d = v.arb('p', g.npx[i]), v.arb('d', nleg) if not nleg0 else None
            for q in range(nn): v.ensure('column q holds archetype q', v.el(a, 0, p, q) == ARC(i, j, p, q))
            if nleg0: continue
            v.ensure('the block of this camera holds its own Legendre terms', v.el(a, 0, p, nn + i * nleg + d) == LEG(i, p, d))
            for o in range(nc):
                if o != i: v.ensure('the blocks of other cameras are zero', v.el(a, 0, p, nn + o * nleg + d) == 0)
        X = lambda i: i if z3.is_expr(i) else z3.IntVal(i)
        return SArr.new((1,), lambda i: CCHI(j).t, 'r'), SArr.new((1, zi(nb)), lambda i: CCO(j, _s(i[1])).t, 'r')
    v.contract('zscan', 'calc_zchi2_batch', batch)
    chi, co = v.call(v.mod('zscan').per_camera_coeff_with_least_square_batch, target, dict(g.tdata), *W, nleg, na, method=method, n_nbh=nn, prior=pri, use_gpu=False, bands=list(bands))
    v.ensure('one chi2 and one row of coefficients per archetype', v.and_(len(chi._shape) == 1, chi.shape[0] == na, len(co._shape) == 2, co.shape[0] == na, co.shape[1] == nb))
    j = v.arb('j', na)
    v.ensure('chi2 of every archetype', v.el(chi, j) == CCHI(j))
    for q in range(nn): v.ensure('archetype coefficients come first', v.el(co, j, q) == CCO(j, q))
    if not nleg0:
        d = v.arb('d', nleg)
        for r, b in enumerate(sorted(bands)):
            v.ensure('then one block per camera in alphabetical order, multiplying the terms of that camera', v.el(co, j, nn + r * nleg + d) == CCO(j, nn + bands.index(b) * nleg + d))
def _mk(name, bands, nn, **k):
    def f(v): _camera(v, bands, nn, **k)
    f.__name__ = name
    proof('C14', _FS, specs=_SP)(f)
for perm in itertools.permutations('brz'): _mk('camera_' + ''.join(perm), list(perm), 1)
for perm in itertools.permutations('br'): _mk('camera_' + ''.join(perm), list(perm), 1, prior=False)
_mk('camera_single', ['z'], 1); _mk('camera_named', ['nir2', 'blue', 'nir1'], 1)
_mk('camera_pca', ['r', 'b'], 1, method='pca')
_mk('camera_no_legendre', ['r', 'b'], 1, nleg0=True)
for perm in itertools.permutations('brz'): _mk('neighbours2_' + ''.join(perm), list(perm), 2)
_mk('neighbours3', ['z', 'b', 'r'], 3)

# ---------------------------------------------------------------- selection of the best archetype
RBA = uf('rebinned_arch', 'i', 'r', 'i', 'i', 'r')  # grid, redshift, pixel, archetype (C01)
TR = uf('transmission_arch', 'i', 'r', 'i', 'r')    # grid, redshift, pixel (C02)
LG = uf('legendre_terms', 'i', 'i', 'i', 'r')       # grid, degree, pixel (C19)
ONE = uf('chi_one', 'i', 'r')                       # archetype -> chi2 of its own fit
ONECO = uf('co_one', 'i', 'i', 'r')
NEAR = z3.Real('SR_near'); NEARCO = uf('co_near', 'i', 'r')

class Names:
    "array of strings, element i shown as a token"
    def __init__(s): s.reg = []
    def __getitem__(s, i): return 'A%d' % s.token(i)
    def token(s, i):
        t = lift(i)[0]
        for n, u in enumerate(s.reg):
            if u.eq(t): return n
        s.reg.append(t); return len(s.reg) - 1

def _best(v, grids, per, nn=None, nleg0=False, trans=None, method='bvls', prior=True):
    """one target on wavelength grids 0..grids-1; the Legendre degree, number of archetypes and
    pixels are arbitrary.  trans: None (computed by the code), 'given', or 'none' (no absorption)"""
    g = G(); M = v.mod('archetypes')
    npx = {i: v.size('npix%d' % i, lo=1) for i in range(grids)}
    na = v.size('narch', lo=nn or 1); z = v.real('z')
    nleg = 0 if nleg0 else v.size('nleg', lo=1)
    leg = {i: SArr.new((zi(nleg), zi(npx[i])), (lambda i: lambda x: LG(i, _s(x[0]), _s(x[1])).t)(i), 'r') for i in npx}
    waves = {i: v.array('wave%d' % i, (npx[i],)) for i in npx}
    spectra, W, bands = [Rec(wavehash=i, wave=waves[i]) for i in npx], (object(), object(), object()), object()
    def legendre(nleg=None, use_gpu=False):
        v.ensure('Legendre terms of the degree of the target', nleg is deg); return leg
    deg = nleg
    target = Rec(spectra=spectra, nleg=deg, legendre=legendre, bands=bands)
    ax = M.Archetype.__new__(M.Archetype)
    ft = SArr.new((zi(na),), lambda i: i[0] if z3.is_expr(i[0]) else z3.IntVal(i[0]), 'i')
    names = Names()
    ax._narch, ax._full_type, ax._subtype, ax._rrtype, ax.igm_model, ax.method = na, ft, names, 'GALAXY', 'Inoue14', 'ARCH'
    ncam = grids if per else 1
    npri = (nn or 1) + nleg * ncam
    P = v.array('prior', (npri, npri)) if prior else None
    PF = v.frozen(P) if prior else None
    def rebin(zz, dwave, trapz=True, dedges=None, indx=None, use_gpu=False):
        v.ensure('archetypes are rebinned at the redshift of the fit on the grids of the target', v.and_(zz == z, trapz is True, dedges is None, use_gpu is False) if set(dwave) == set(waves) and all(dwave[i] is waves[i] for i in waves) else False)
        if indx is None: return {i: SArr.new((zi(npx[i]), zi(na)), (lambda i: lambda x: RBA(i, z, _s(x[0]), _s(x[1])).t)(i), 'r') for i in npx}
        ix = v.frozen(as_arr(indx)); n = as_arr(indx)._shape[0]
        return {i: SArr.new((zi(npx[i]), n), (lambda i: lambda x: RBA(i, z, _s(x[0]), ix(_s(x[1]))).t)(i), 'r') for i in npx}
    ax.rebin_template_batch = rebin
    def transmission(zz, lam, use_gpu=False, model='Calura12', always_return_array=True):
        i = [q for q in waves if waves[q] is lam]
        if not i: raise Unsupported('transmission of an unknown wavelength array')
        i = i[0]
        v.ensure('transmission at the redshift of the fit', v.and_(zz == z, model == ax.igm_model, not use_gpu))
        return SArr.new((zi(npx[i]),), lambda x: TR(i, z, _s(x[0])).t, 'r')
    v.contract('archetypes', 'transmission_Lyman', transmission)
    tr = None
    if trans == 'given': tr = {i: SArr.new((1, zi(npx[i])), (lambda i: lambda x: TR(i, z, _s(x[1])).t)(i), 'r') for i in npx}
    if trans == 'none':
        tr = {i: None for i in npx}
        for i in npx: v.require(v.all(npx[i], lambda l: TR(i, z, l) == 1))
    st = v.c.ghost
    def design(td, arch, n, m, order='best'):
        "tdata holds archetype arch(a, q) times the transmission, then the Legendre terms"
        v.ensure('the model covers every grid', set(td) == set(waves))
        a = v.arb('a', n)
        for i in waves:
            t = as_arr(td[i]); l = v.arb('l', npx[i])
            v.ensure('model shape', v.and_(len(t._shape) == 3, t.shape[0] == n, t.shape[1] == npx[i], t.shape[2] == m + nleg))
            for q in range(m): v.ensure('the archetype at the redshift of the fit times the transmission', v.el(t, a, l, q) == RBA(i, z, l, arch(a, q)) * TR(i, z, l))
            if not nleg0:
                d = v.arb('d', nleg); v.ensure('the Legendre terms of its grid', v.el(t, a, l, m + d) == LG(i, d, l))
    def same_prior(p, m):
        if P is None: v.ensure('no prior', p is None); return
        off = (nn - 1 if nn is not None and m == 1 and not st.get('first') else 0)
        n = (nn or 1) - off + nleg * ncam
        p = as_arr(p); v.ensure('prior for the coefficients of this fit', v.and_(p.shape[0] == n, p.shape[1] == n))
        i, j = v.arb('i', n), v.arb('j', n); v.ensure('prior of these coefficients', v.el(p, i, j) == PF(i + off, j + off))
    def one(n, nb):
        return SArr.new((zi(na),), lambda i: ONE(_s(i[0])).t, 'r'), SArr.new((zi(na), zi(nb)), lambda i: ONECO(_s(i[0]), _s(i[1])).t, 'r')
    def near(nb):
        return SArr.new((1,), lambda i: NEAR, 'r'), SArr.new((1, zi(nb)), lambda i: NEARCO(_s(i[1])).t, 'r')
    def near_idx():
        # the archetypes named in the model: established by the design matrix, reported by name
        return st['near']
    def fit(td, w, f, wf, n, nb, meth, m):
        v.ensure('the fit uses the data of the target', (w, f, wf) == W)
        if not st.get('first'):
            v.ensure('every archetype is fitted on its own', v.and_(n == na, m == 1))
            v.ensure('with the requested solver', meth == method)
            design(td, lambda a, q: a, na, 1)
            return 'one'
        v.ensure('the nearest archetypes are fitted together', v.and_(n == 1, m == nn) if nn is not None else False)
        v.ensure('with non-negative archetype coefficients', meth == 'bvls')
        design(td, lambda a, q: S(st['near'](q)), 1, nn)
        return 'near'
    def done(r, nb):
        if r == 'one':
            st['first'] = True
            if nn is not None:
                # the contract of the choice: the nn archetypes of lowest chi2 in order
                pm = v.c.fresh_fn('nearest', I, I); st['near'] = lambda q: pm(z3.IntVal(q))
            return one(na, nb)
        return near(nb)
    def camera(tg, td, w, f, wf, nl, n, method=None, n_nbh=None, prior=None, use_gpu=False, bands=None):
        v.ensure('per-camera fits only on request', per)
        v.ensure('the target and its cameras', tg is target and bands is target.bands and not use_gpu)
        v.ensure('number of Legendre terms', nl == nleg)
        if st.get('first'): bind(td)
        r = fit(td, w, f, wf, n, None, method, n_nbh); same_prior(prior, n_nbh)
        return done(r, n_nbh + nleg * grids)
    def batch(sp, td, w, f, wf, n, nb, solve_matrices_algorithm=None, solver_args=None, use_gpu=False, fullprecision=True, prior=None):
        m = nn if st.get('first') else 1
        v.ensure('the spectra of the target', sp is spectra and not per and not use_gpu)
        v.ensure('one coefficient per basis vector', nb == m + nleg)
        if solve_matrices_algorithm == 'BVLS':
            lo, hi = solver_args['bounds'][0], solver_args['bounds'][1]; b = v.arb('b', nb)
            v.ensure('archetype coefficients are not negative', v.implies(b < m, v.el(lo, b) == 0))
            v.ensure('Legendre coefficients are unbounded below', v.implies(b >= m, v.el(lo, b) == -float('inf')))
            v.ensure('no coefficient is bounded above', v.el(hi, b) == float('inf'))
        if st.get('first'): bind(td)
        r = fit(td, w, f, wf, n, nb, solve_matrices_algorithm.lower(), m)
        return done(r, m + nleg)
    def bind(td):
        "which archetypes the code chose: argsort of the chi2 values"
        ix = st.get('argsort')
        if ix is None: raise Unsupported('the nearest archetypes are not chosen by argsort')
        st['near'] = lambda q: ix.at((q,))
    _a = npf.argsort
    def argsort(x, *a, **k):
        r = _a(x, *a, **k); st['argsort'] = r; return r
    npf.Facade.overrides['argsort'] = argsort
    v.contract('archetypes', 'per_camera_coeff_with_least_square_batch', camera)
    v.contract('archetypes', 'calc_zchi2_batch', batch)
    try: chi, co, full = v.call(ax.get_best_archetype, target, *W, dict(waves), z, per, nn, trans=tr, solve_method=method, prior=P, use_gpu=False)
    finally: npf.Facade.overrides.pop('argsort', None)
    if P is not None:
        i, j = v.arb('pi', npri), v.arb('pj', npri); v.ensure('the prior is not changed', v.el(P, i, j) == PF(i, j))
    a = v.arb('a', na)
    if nn is None:
        v.ensure('one coefficient per basis vector', v.and_(len(co._shape) == 1, co.shape[0] == 1 + nleg * ncam))
        c = v.arb('c', 1 + nleg * ncam)
        v.ensure('the reported archetype is one of the set', v.and_(full >= 0, full < na))
        v.ensure('no archetype has a lower chi2', ONE(full) <= ONE(a))
        v.ensure('reported with its own chi2', chi == ONE(full))
        v.ensure('reported with its own coefficients', v.el(co, c) == ONECO(full, c))
    else:
        v.ensure('one coefficient per basis vector', v.and_(len(co._shape) == 1, co.shape[0] == nn + nleg * ncam))
        c = v.arb('c', nn + nleg * ncam)
        ix = [S(st['near'](q)) for q in range(nn)]
        v.ensure('reported with the names of the fitted archetypes in order', full == 'GALAXY:::' + ';'.join('A%d' % names.token(x) for x in ix))
        v.ensure('chosen archetypes are distinct members of the set', v.and_(*[v.and_(x >= 0, x < na) for x in ix], *[x != y for k, x in enumerate(ix) for y in ix[k + 1:]]))
        v.ensure('in order of their own chi2', v.and_(*[ONE(x) <= ONE(y) for x, y in zip(ix, ix[1:])]))
        r = v.position(st['argsort'], a)
        if r is not None: v.lemma('rank of an archetype that was not chosen', v.implies(v.and_(*[a != x for x in ix]), v.and_(r >= nn, r < na, v.el(st['argsort'], r) == a)))
        v.ensure('no other archetype has a lower chi2', v.implies(v.and_(*[a != x for x in ix]), ONE(ix[-1]) <= ONE(a)))
        v.ensure('chi2 and coefficients of the combined fit', v.and_(chi == S(NEAR), v.el(co, c) == NEARCO(c)))
_FB = ['redrock.archetypes.Archetype.get_best_archetype']
_FN = _FB + ['redrock.archetypes.Archetype.nearest_neighbour_model']
def _mb(name, *a, **k):
    def f(v): _best(v, *a, **k)
    f.__name__ = name
    proof('C14', _FN if k.get('nn') else _FB)(f)
_mb('best_camera', 3, True); _mb('best_camera_given', 2, True, trans='given'); _mb('best_camera_noprior', 3, True, prior=False, trans='none')
_mb('best_camera_pca', 2, True, method='pca', prior=False)
_mb('best_shared', 2, False, prior=False); _mb('best_shared_one', 1, False, trans='given', prior=False); _mb('best_camera_noleg', 2, True, nleg0=True)
_mb('best_shared_noleg', 2, False, nleg0=True, prior=False)
for n in (1, 2, 3):
    _mb('nearest%d_camera' % n, 3, True, nn=n); _mb('nearest%d_shared' % n, 2, False, nn=n, prior=False, trans='given')
_mb('nearest2_noprior', 2, True, nn=2, prior=False, trans='none'); _mb('nearest2_noleg', 2, True, nn=2, nleg0=True)
