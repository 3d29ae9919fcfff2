"""C05: refined candidates of fitz"""
from vc.prove import *
from vc.loader import Rec, RecList, RecView, SymList
from vc.rec import Const, RowArr
import z3
from proofs.c06 import DV, dv_contract, LIGHT

def uf(name, *kinds):
    f = z3.Function('SR_' + name, *[SORT[k] for k in kinds])
    return lambda *a: S(f(*[convert(*lift(x), k) for x, k in zip(a, kinds)]), kinds[-1])
RB = uf('rebinned', 'i', 'r', 'i', 'i', 'r')        # grid, redshift, pixel, basis vector (C01)
TR = uf('transmission', 'i', 'r', 'i', 'r')         # grid, redshift, pixel (C02)
FITCHI = uf('fitchi', 'r', 'r')                     # chi2 of the optimum at a redshift (C03)
FITCO = uf('fitco', 'r', 'i', 'r')                  # its coefficients
ACHI = uf('archchi', 'r', 'r')                      # chi2 of the best archetype at a redshift (C14)
ACO = uf('archco', 'r', 'i', 'r')                   # its coefficients, archetype first
PEN = uf('penalty', 'r', 'r')                       # [OII] penalty (C19)

def setup(v, grids, star=False, oii=False, none_igm=False, arch=False):
    """one target with len(grids) spectra; grids[i] names the wavelength grid of spectrum i.
    Pixel numbers, redshifts, basis size, curve and refinement size are arbitrary."""
    G = type('G', (), {})()
    M = v.mod('fitz'); G.M, G.ZW = M, v.mod('zwarning').ZWarningMask
    nred, nb, nz = v.size('nred', lo=4), v.size('nb', lo=1), v.size('nz', lo=3)
    red, chi = v.array('redshifts', (nred,)), v.array('zchi2', (nred,))
    RF, CF = v.frozen(red), v.frozen(chi)
    v.require(v.all((nred, nred), lambda i, j: v.implies(i < j, RF(i) < RF(j))))
    v.require(RF(0) > -1)
    nmin = v.int('nminima', lo=1)
    npx, waves, spec = {}, {}, []
    for g in sorted(set(grids)):
        npx[g] = v.size('npix%d' % g, lo=1); waves[g] = v.array('wave%d' % g, (npx[g],))
    G.count = 0
    for s, g in enumerate(grids):
        iv = v.array('ivar%d' % s, (npx[g],)); IF = v.frozen(iv)
        spec.append(Rec(wavehash=g, wave=waves[g], ivar=iv))
        G.count = G.count + v.np().count_nonzero(iv > 0)
    G.npixels = G.count
    minw, maxw = v.real('minwave', pos=True), v.real('maxwave', pos=True)
    extra = dict(OIItemplate=object()) if oii else {}
    tmpl = Rec(nbasis=nb, template_type='STAR' if star else 'GALAXY', minwave=minw, maxwave=maxw, igm_model='Inoue14', method='PCA',
               solve_matrices_algorithm='PCA', _rrtype='STAR' if star else 'GALAXY', sub_type='', **extra)
    G.deg, G.ncam = v.size('degree', lo=1), len(waves)
    LEG = {g: object() for g in waves}
    def legendre(nleg=None, use_gpu=False):
        v.ensure('Legendre terms of the requested degree', nleg == G.deg); return LEG
    target = Rec(spectra=spec, legendre=legendre)
    lim = (100 if star else 1000)
    G.__dict__.update(nred=nred, nb=nb, nz=nz, red=red, chi=chi, RF=RF, nmin=nmin, spec=spec, tmpl=tmpl, target=target, lim=lim)
    WFW = (object(), object(), object())
    st = v.c.ghost
    def same(name, x, y):
        v.ensure(name, x is y or (x == y))
    def spectral_data(sp):
        v.ensure('weights and fluxes are those of the target', sp is spec); return WFW
    def find_minima(x):
        v.ensure('minima are those of the scanned curve', v.and_(x.shape[0] == nred, v.all(nred, lambda i: v.el(x, i) == CF(i))))
        m = S(v.c.fresh('nmin', I)); v.assume(m >= 0)
        f = v.c.fresh_fn('minima', I, I)
        r = SArr.new((zi(m),), lambda i: f(*[z3.IntVal(q) if isinstance(q, int) else q for q in i]), 'i')
        v.assume(v.all(m, lambda i: v.and_(v.el(r, i) >= 0, v.el(r, i) < nred)))
        return r
    def rebin_template(t, z, dwave=None, dedges=None, use_gpu=False, xmin=None, xmax=None):
        v.ensure('the template of the fit is rebinned', t is tmpl and dedges is None and not use_gpu)
        v.ensure('on the grids of the target', set(dwave) == set(waves) and all(dwave[g] is waves[g] for g in waves))
        zs = as_arr(z); ZF = v.frozen(zs); n = zs.shape[0]; i = v.arb('r', n)
        v.ensure('the coverage test uses every redshift', v.and_(xmin >= minw * (1 + ZF(i)), xmax <= maxw * (1 + ZF(i))))
        inside = v.all(n, lambda i: v.and_(ZF(i) >= RF(0), ZF(i) <= RF(nred - 1)))
        if v.c.choose(2) == 1:
            # only beyond the scanned range can the template fail to cover the data
            v.assume(v.not_(inside)); raise ValueError('template does not cover')
        st['z'] = (ZF, n)
        return {g: SArr.new((zi(n), zi(npx[g]), zi(nb)), (lambda g: lambda i: v.raw(RB(g, ZF(S(i[0]) if z3.is_expr(i[0]) else i[0]), S(i[1]) if z3.is_expr(i[1]) else i[1], S(i[2]) if z3.is_expr(i[2]) else i[2])))(g), 'r') for g in waves}
    def transmission(z, lam, use_gpu=False, model='Calura12', always_return_array=True):
        g = [q for q in waves if waves[q] is lam]
        if not g: raise Unsupported('transmission of an unknown wavelength array')
        g = g[0]; zs = as_arr(z); ZF = v.frozen(zs); n = zs.shape[0]
        v.ensure('the IGM model of the template is used', model == tmpl.igm_model and not use_gpu)
        W = lambda i: S(i) if z3.is_expr(i) else i
        if not always_return_array and none_igm and v.c.choose(2) == 1:
            v.assume(v.all((n, npx[g]), lambda r, l: TR(g, ZF(r), l) == 1)); return None
        return SArr.new((zi(n), zi(npx[g])), lambda i: v.raw(TR(g, ZF(W(i[0])), W(i[1]))), 'r')
    def batch(sp, tdata, weights, flux, wflux, n, nbasis, solve_matrices_algorithm=None, solver_args=None, use_gpu=False, fullprecision=True, prior=None):
        v.ensure('the fit uses the data of the target', sp is spec and (weights, flux, wflux) == WFW and not use_gpu and prior is None and solver_args is None)
        v.ensure('and the solver of the template', solve_matrices_algorithm == tmpl.solve_matrices_algorithm and nbasis is nb)
        ZF, nr = st['z']
        v.ensure('one fit per redshift', n == nr)
        v.ensure('the model covers every grid of the target', set(tdata) >= set(waves))
        for g in waves:
            a = as_arr(tdata[g]); i, j, b = v.arb('r', nr), v.arb('l', npx[g]), v.arb('b', nb)
            v.ensure('model shape', v.and_(a.shape[0] == nr, a.shape[1] == npx[g], a.shape[2] == nb))
            v.ensure('the model is the rebinned template times the transmission', v.el(a, i, j, b) == RB(g, ZF(i), j, b) * TR(g, ZF(i), j))
        W = lambda i: S(i) if z3.is_expr(i) else i
        return (SArr.new((zi(nr),), lambda i: v.raw(FITCHI(ZF(W(i[0])))), 'r'),
                SArr.new((zi(nr), zi(nb)), lambda i: v.raw(FITCO(ZF(W(i[0])), W(i[1]))), 'r'))
    def penalty(o, coeff):
        v.ensure('the penalty uses the template', o is tmpl.OIItemplate)
        ZF, nr = st['z']; a = as_arr(coeff); i, b = v.arb('r', nr), v.arb('b', nb)
        v.ensure('and the coefficients of the fits', v.and_(a.shape[0] == nr, v.el(a, i, b) == FITCO(ZF(i), b)))
        return SArr.new((zi(nr),), lambda i: v.raw(PEN(ZF(S(i[0]) if z3.is_expr(i[0]) else i[0]))), 'r')
    def minfit(x, y):
        n = x.shape[0]; v.ensure('the parabola is fitted to as many heights', n == y.shape[0])
        v.ensure('the parabola is fitted to three points', n == 3)
        x0, xe, y0 = [S(v.c.fresh(q, R)) for q in ('x0', 'xerr', 'y0')]
        if v.c.choose(2) == 1: st['bad'] = True; return x0, xe, y0, G.ZW.BAD_MINFIT
        st['bad'] = False
        X = [v.el(x, k) for k in range(3)]
        v.assume(v.and_(v.or_(*[q < x0 for q in X]), v.or_(*[q > x0 for q in X]), y0 > 0, xe > 0))
        return x0, xe, y0, 0
    G.arch = None; G.per_camera = arch == 'camera'
    if arch:
        def best(t, weights, flux, wflux, dwave, z, per_camera, n_nearest, trans=None, solve_method='bvls', prior=None, use_gpu=False):
            v.ensure('the archetype fit uses the data of the target', t is target and (weights, flux, wflux) == WFW and set(dwave) == set(waves) and all(dwave[g] is waves[g] for g in waves) and not use_gpu)
            v.ensure('with the requested options', per_camera is (arch == 'camera') and n_nearest is None and prior is st.get('prior'))
            same_z = True
            if trans is not None:
                v.ensure('transmission of every grid', set(trans) == set(waves))
                for g in waves:
                    if trans[g] is None: same_z = v.and_(same_z, v.all(npx[g], lambda l: TR(g, z, l) == 1))
                    else: same_z = v.and_(same_z, v.all(npx[g], lambda l: v.el(trans[g], 0, l) == TR(g, z, l)))
            ok = S(v.c.fresh('atz', B)); v.assume(v.iff(ok, same_z))
            na = 1 + G.deg * (G.ncam if per_camera else 1)
            junk = v.c.fresh_fn('acj', I, R); chij = v.c.fresh('achj', R)
            def el(i):
                i = i[0] if z3.is_expr(i[0]) else z3.IntVal(i[0])
                return z3.If(v.raw(ok), v.raw(ACO(z, S(i))), junk(i))
            return S(z3.If(v.raw(ok), v.raw(ACHI(z)), chij), 'r'), SArr.new((zi(na),), el, 'r'), G.tmpl._rrtype + ':::ELG_3'
        G.arch = Rec(get_best_archetype=best, method='ARCH')
        def prior_on(n_nbh, deg, sigma, ncamera):
            v.ensure('prior for one archetype and the Legendre terms of every camera', v.and_(n_nbh == 1, deg == G.deg, ncamera == (G.ncam if arch == 'camera' else 1), sigma is G.sigma))
            st['prior'] = object(); return st['prior']
        v.contract('fitz', 'prior_on_coeffs', prior_on)
        G.sigma = v.real('sigma', pos=True) if arch == 'camera' else None
    for n, f in dict(spectral_data=spectral_data, find_minima=find_minima, rebin_template=rebin_template, transmission_Lyman=transmission,
                     calc_zchi2_batch=batch, calc_negOII_penalty=penalty, minfit=minfit).items(): v.contract('fitz', n, f)
    dv_contract(v, 'fitz')
    st['linspace'] = True
    v.g = G; CUR[0] = (v, G)
    return G
CUR = [None]

def _good(w, bit): return (w & bit) == 0
def rows_ok(v, G, n, f):
    "what every list of candidates satisfies; f(name) is an element function"
    ZW = G.ZW; z, zw, co = f('z'), f('zwarn'), f('coeff')
    more = []
    if G.arch is not None:
        lc = f('legcoeff'); nc = G.ncam if G.per_camera else 1
        for q in range(nc):
            ix = (lambda l, d, q=q: (l, 0, q, d)) if G.per_camera else (lambda l, d: (l, 0, d))
            more.append(('Legendre coefficients of camera %d' % q, v.all((n, G.deg), lambda l, d: v.implies(_good(zw(l), ZW.BAD_MINFIT), lc(*ix(l, d)) == ACO(z(l), 1 + q * G.deg + d)))))
        more.append(('chi2 and coefficient of the archetype fit', v.all(n, lambda l: v.implies(_good(zw(l), ZW.BAD_MINFIT), v.and_(f('chi2')(l) == ACHI(z(l)), co(l, 0) == ACO(z(l), 0))))))
        more.append(('template coefficients of candidates without bad-minimum warning', v.all((n, G.nb), lambda l, b: v.implies(_good(zw(l), ZW.BAD_MINFIT), f('pca_coeff')(l, b) == FITCO(z(l), b)))))
    else:
        more.append(('candidates without bad-minimum warning have the coefficients of their redshift', v.all((n, G.nb), lambda l, b: v.implies(_good(zw(l), ZW.BAD_MINFIT), co(l, b) == FITCO(z(l), b)))))
    return [('candidates lie in the scanned range', v.all(n, lambda l: v.and_(z(l) >= G.RF(0), z(l) <= G.RF(G.nred - 1)))),
            ('candidates are separated in velocity', v.all((n, n), lambda j, l: v.implies(j < l, abs(DV(v, z(l), z(j))) >= G.lim))),
            ('candidates at the edge carry the fit-limit warning', v.all(n, lambda l: v.implies(v.or_(z(l) < G.RF(1), z(l) > G.RF(G.nred - 2)), v.not_(_good(zw(l), ZW.Z_FITLIMIT)))))] + more
def _recs(L):
    v, G = CUR[0]
    if G.arch is not None:
        return dict(results=dict(z='r', zerr='r', zwarn='w', chi2='r', zz=('r', G.nz), zzchi2=('r', G.nz), coeff=('row', 1), pca_coeff=('row', G.nb),
                    legcoeff=('r', 1) + ((G.ncam,) if G.per_camera else ()) + (G.deg,), fulltype=Const(G.tmpl._rrtype + ':::ELG_3'), fitmethod=Const('ARCH'),
                    pca_spectype=Const(G.tmpl._rrtype), pca_subtype=Const(G.tmpl.sub_type)))
    return dict(results=dict(z='r', zerr='r', zwarn='w', chi2='r', zz=('r', G.nz), zzchi2=('r', G.nz), coeff=('row', G.nb), fitmethod=Const(G.tmpl.method)))
def _scan_inv(L):
    v, G = CUR[0]; r = L.results; n = dim(r.count())
    return [('at most the requested number of candidates', n <= G.nmin)] + rows_ok(v, G, n, r.field)
def _scan_hint(L):
    v, G = CUR[0]
    for x in L.results.extra:
        v.ensure('a failed parabola leaves the bad-minimum warning', v.implies(v.c.ghost['bad'], v.not_(_good(S(toword(*lift(x['zwarn'])), 'w'), G.ZW.BAD_MINFIT))))
def _np_inv(L):
    v, G = CUR[0]; r = L.results
    return [('pixels counted so far', v.all(L.k, lambda j: r.element(zi(j))['npixels'] == G.npixels))]
SPECS = {'fitz#0': dict(records=_recs, inv=_scan_inv, hint=_scan_hint),
         'fitz#3': dict(fields=lambda L: dict(results=dict(npixels='i')), inv=_np_inv),
         'fitz#6': dict(lists=lambda L: {'tmp[k]': (L.k, (lambda r, key: lambda j: r.element(zi(j))[key])(L.results, L['k']))})}
_FS = ['redrock.fitz.fitz']

def check(v, G, r):
    z = r['z']; m = z.shape[0]
    for k in ('z', 'zwarn', 'chi2', 'npixels'): v.ensure('one %s per candidate' % k, v.and_(r[k].shape[0] == m, r[k].shape[1] == 1))
    v.ensure('at most the requested number of candidates', m <= G.nmin)
    F = {k: v.frozen(r[k]) for k in ('z', 'zwarn', 'chi2', 'npixels', 'coeff')}
    l, j = v.arb('l', m), v.arb('j', m)
    v.ensure('candidates in order of increasing chi2', v.implies(j < l, F['chi2'](j, 0) <= F['chi2'](l, 0)))
    v.ensure('candidates separated in velocity', v.implies(j != l, v.or_(abs(DV(v, F['z'](l, 0), F['z'](j, 0))) >= G.lim, abs(DV(v, F['z'](j, 0), F['z'](l, 0))) >= G.lim)))
    b = v.arb('b', G.nb)
    zl, w = F['z'](l, 0), F['zwarn'](l, 0)
    v.ensure('candidates at the edge carry the fit-limit warning', v.implies(v.or_(zl < G.RF(1), zl > G.RF(G.nred - 2)), v.not_(_good(w, G.ZW.Z_FITLIMIT))))
    if G.arch is None: v.ensure('candidates without bad-minimum warning have the coefficients of their redshift', v.implies(_good(w, G.ZW.BAD_MINFIT), F['coeff'](l, b) == FITCO(zl, b)))
    else:
        P, LC = v.frozen(r['pca_coeff']), v.frozen(r['legcoeff']); d = v.arb('d', G.deg); ok = _good(w, G.ZW.BAD_MINFIT)
        v.ensure('candidates without bad-minimum warning have the archetype fit of their redshift', v.implies(ok, v.and_(F['chi2'](l, 0) == ACHI(zl), F['coeff'](l, 0) == ACO(zl, 0))))
        v.ensure('and the template coefficients of their redshift', v.implies(ok, P(l, b) == FITCO(zl, b)))
        for q in range(G.ncam if G.per_camera else 1):
            v.ensure('and the Legendre coefficients of every camera', v.implies(ok, (LC(l, q, d) if G.per_camera else LC(l, d)) == ACO(zl, 1 + q * G.deg + d)))
    v.ensure('pixel count is the number of pixels with positive weight', F['npixels'](l, 0) == G.npixels)

def run(v, G):
    r = v.call(G.M.fitz, G.chi, G.red, G.target, G.tmpl, nminima=G.nmin, zminfit_npoints=G.nz, **(dict(archetype=G.arch, deg_legendre=G.deg, per_camera=G.per_camera, prior_sigma=G.sigma) if G.arch is not None else {}))
    if isinstance(r['z'].shape[0], int) and r['z'].shape[0] == 0:
        return
    check(v, G, r)
@proof('C05', _FS, specs=SPECS, feas_ms=100, limit=500, hard=600)
def fitz_one_grid(v): run(v, setup(v, [0], none_igm=True))
@proof('C05', _FS, specs=SPECS, feas_ms=100, limit=500, hard=600)
def fitz_star(v): run(v, setup(v, [0], star=True))
@proof('C05', _FS, specs=SPECS, feas_ms=100, limit=500, hard=600)
def fitz_oii(v): run(v, setup(v, [0], oii=True))
@proof('C05', _FS, specs=SPECS, feas_ms=100, limit=500, hard=600)
def fitz_grids(v): run(v, setup(v, [0, 1, 0]))
@proof('C05', _FS, specs=SPECS, feas_ms=100, limit=500, hard=600)
def fitz_archetype(v): run(v, setup(v, [0], arch='single'))
@proof('C05', _FS, specs=SPECS, feas_ms=100, limit=500, hard=600)
def fitz_archetype_camera(v): run(v, setup(v, [0, 1], arch='camera'))
