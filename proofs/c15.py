"""C15: evaluation of stored best fits"""
from vc.prove import *
from vc.loader import Rec
import z3
class G: pass
def _s(x): return S(x) if z3.is_expr(x) else x
def uf(name, *kinds):
    f = z3.Function('SR_' + name, *[SORT[k] for k in kinds])
    return lambda *a: S(f(*[convert(*lift(x), k) for x, k in zip(a, kinds)]), kinds[-1])
W_ = uf('rebinweight', 'i', 'r', 'i', 'i', 'r')    # grid, redshift, pixel, template pixel: rebinning is linear in the flux (C01)
RB = uf('rebinned', 'i', 'r', 'i', 'i', 'r')       # grid, redshift, pixel, archetype
TR = uf('transmission', 'i', 'r', 'i', 'r')        # grid, redshift, pixel (C02)
LG = uf('legendre', 'i', 'i', 'i', 'r')            # grid, degree, pixel
SUB = uf('subtypeat', 'i', 'i', 'b')               # archetype i has subtype number j

def _grids(v, n):
    g = G(); g.npx = [v.size('npix%d' % k, lo=1) for k in range(n)]; g.wave = [v.array('wave%d' % k, (g.npx[k],)) for k in range(n)]
    g.WF = [v.frozen(w) for w in g.wave]
    g.R = [v.sparse('R%d' % k, g.npx[k]) for k in range(n)]
    g.of = lambda w: [k for k in range(n) if g.wave[k] is w]
    return g
def _which(g, w):
    k = g.of(w)
    if not k: raise Unsupported('evaluation on an unknown wavelength array')
    return k[0]

def _rebin(v, g, z, X, nw):
    "contract of trapz_rebin (C01): a linear function of the flux, of the redshifted template grid and of the new grid"
    def rebin(x, y, xnew=None, edges=None, myz=None, use_gpu=False, xmin=None, xmax=None, edge_min=None, edge_max=None):
        if edges is not None or use_gpu or xnew is None: raise Unsupported('rebinning on given edges')
        k = _which(g, xnew); x, y = as_arr(x), as_arr(y); p = v.arb('p', nw)
        zz = 0 if myz is None else myz
        if isinstance(zz, SArr) and len(zz._shape): raise Unsupported('rebinning at several redshifts')
        v.ensure('the template is placed at the redshift of the fit', v.and_(x.shape[0] == nw, v.el(x, p) * (1 + zz) == (1 + z) * X(p)))
        v.ensure('the flux belongs to the template grid', y.shape[-1] == nw)
        YF = v.frozen(y); n = g.npx[k]
        if len(y._shape) == 2: return SArr.new((zi(n), y._shape[0]), lambda i: v.raw(v.sum(nw, lambda q: W_(k, z, _s(i[0]), q) * YF(_s(i[1]), q))), 'r')
        return SArr.new((zi(n),), lambda i: v.raw(v.sum(nw, lambda q: W_(k, z, _s(i[0]), q) * YF(q))), 'r')
    return rebin
def _transmission(v, g, z, igm):
    def trans(zz, lam, use_gpu=False, model='Calura12', always_return_array=True):
        k = _which(g, lam); v.ensure('the IGM model is the one of the template', model == igm and not use_gpu)
        zz = as_arr(zz) if not isinstance(zz, (S, int, float)) else zz
        v.ensure('and is evaluated at the redshift of the fit', (zz if not isinstance(zz, SArr) else v.el(zz, 0)) == z)
        if isinstance(zz, SArr): return SArr.new((1, zi(g.npx[k])), lambda i: v.raw(TR(k, z, _s(i[1]))), 'r')
        return SArr.new((zi(g.npx[k]),), lambda i: v.raw(TR(k, z, _s(i[0]))), 'r')
    return trans

# ---------------------------------------------------------------- Template.eval
def _template(v, withR, extra):
    g = _grids(v, 1); n = g.npx[0]; T = v.mod('templates').Template
    nb, nw = v.size('nbasis', lo=1), v.size('nwave', lo=2); nc = nb + (v.size('nextra', lo=1) if extra else 0)
    t = T.__new__(T); flux, wave = v.array('flux', (nb, nw)), v.array('twave', (nw,)); F, X = v.frozen(flux), v.frozen(wave)
    t._nbasis, t._igm_model, t.flux, t.wave = nb, 'Calura12', flux, wave
    t._rrtype = 'QSO'
    co = v.array('coeff', (nc,)); C = v.frozen(co); z = v.real('z'); v.require(z > -1)
    rebin = _rebin(v, g, z, X, nw)
    v.contract('templates', 'trapz_rebin', rebin)
    v.contract('templates', 'transmission_Lyman', _transmission(v, g, z, 'Calura12'))
    m = v.call(T.eval, t, co, g.wave[0], z, g.R[0] if withR else None)
    v.ensure('one value per pixel', v.and_(len(m._shape) == 1, m.shape[0] == n))
    def model(l): return TR(0, z, l) * v.sum(nb, lambda b: C(b) * v.sum(nw, lambda q: W_(0, z, l, q) * F(b, q)))
    def raw(l): return TR(0, z, l) * v.sum(nw, lambda q: W_(0, z, l, q) * v.sum(nb, lambda b: C(b) * F(b, q)))
    i = v.arb('i', n)
    if withR:
        want = v.sum(n, lambda l: g.R[0].at(i, l) * raw(l))
        v.lemma('the transmitted template is convolved with the resolution', v.el(m, i) == want)
        l = v.arb('l', n); v.sum_swap(nw, nb, lambda q, b: W_(0, z, l, q) * C(b) * F(b, q))
        v.lemma('rebinning is linear', raw(l) == model(l))
        _swap_all(v, n, nw, nb, z, C, F)
        v.sum_equal('pixel by pixel', n, lambda l: g.R[0].at(i, l) * raw(l), lambda l: g.R[0].at(i, l) * model(l))
        v.ensure('the model is the convolution of the transmitted combination of the rebinned templates', v.el(m, i) == v.sum(n, lambda l: g.R[0].at(i, l) * model(l)))
    else:
        v.sum_swap(nw, nb, lambda q, b: W_(0, z, i, q) * C(b) * F(b, q))
        v.ensure('the model is the transmitted combination of the rebinned templates', v.el(m, i) == model(i))
    v.ensure('coefficients and template are not changed', v.and_(v.all(nc, lambda b: v.el(co, b) == C(b)), v.all((nb, nw), lambda b, q: v.el(t.flux, b, q) == F(b, q)), v.all(n, lambda l: v.el(g.wave[0], l) == g.WF[0](l))))
def _swap_all(v, n, nw, nb, z, C, F):
    "finite sums commute, for every pixel"
    v.assume(v.all(n, lambda l: v.sum(nw, lambda q: v.sum(nb, lambda b: W_(0, z, l, q) * C(b) * F(b, q))) == v.sum(nb, lambda b: v.sum(nw, lambda q: W_(0, z, l, q) * C(b) * F(b, q)))))
_FT = ['redrock.templates.Template.eval']
@proof('C15', _FT)
def template_eval(v): _template(v, True, False)
@proof('C15', _FT)
def template_eval_trailing(v): _template(v, True, True)
@proof('C15', _FT)
def template_eval_plain(v): _template(v, False, False)

# ---------------------------------------------------------------- Archetype.eval
class Names:
    "array of subtype names: where two names are equal is all that is known"
    _symbolic_ = True
    def __init__(s, n, names): s.n, s.names = n, names
    def __eq__(s, o):
        if not (isinstance(o, str) and o in s.names): raise Unsupported('comparison of subtype names')
        j = s.names.index(o); return SArr.new((zi(s.n),), lambda i: SUB(_s(i[0]), j).t, 'b')
    __hash__ = None
def _archetype(v, nn, leg, withR):
    g = _grids(v, 1); n = g.npx[0]; M = v.mod('archetypes'); names = ['ELG_%d' % (7 * q + 3) for q in range(nn)]
    na, nw = v.size('narch', lo=nn), v.size('nwave', lo=2); z = v.real('z'); v.require(z > -1)
    ax = M.Archetype.__new__(M.Archetype); ax.flux, ax.wave = v.array('flux', (na, nw)), v.array('twave', (nw,)); F, X = v.frozen(ax.flux), v.frozen(ax.wave)
    ax._subtype, ax.igm_model, ax._narch, ax._nwave = Names(na, names), 'Inoue14', na, nw
    # every name is the one of exactly one archetype
    at = [v.int('at%d' % j, lo=0) for j in range(nn)]
    for j in range(nn):
        v.require(at[j] < na); v.require(v.all(na, lambda i: v.iff(SUB(i, j), i == at[j])))
    nc = nn + v.size('nextra', lo=0); co = v.array('coeff', (nc,)); C = v.frozen(co)
    deg = v.size('deg', lo=1) if leg else None; lc = v.array('legcoeff', (deg,)) if leg else None; L = v.frozen(lc) if leg else None
    v.contract('archetypes', 'trapz_rebin', _rebin(v, g, z, X, nw)); v.contract('archetypes', 'transmission_Lyman', _transmission(v, g, z, 'Inoue14'))
    rw = {}
    def reduced(w):
        _which(g, w); a = v.array('reduced', (n,)); rw['x'] = a; return a
    v.contract('archetypes', 'reduced_wavelength', reduced)
    class special:
        @staticmethod
        def legendre(d):
            def ev(x):
                if x is not rw.get('x'): raise Unsupported('Legendre polynomial of other values')
                return SArr.new((zi(n),), lambda i: v.raw(LG(0, d, _s(i[0]))), 'r')
            return ev
    M.scipy = Rec(special=special)
    m = v.call(M.Archetype.eval, ax, ';'.join(names), co, g.wave[0], z, R=g.R[0] if withR else None, legcoeff=lc)
    v.ensure('one value per pixel', v.and_(len(m._shape) == 1, m.shape[0] == n))
    def model(l):
        t = 0
        for j in range(nn): t = t + C(j) * TR(0, z, l) * v.sum(nw, lambda q: W_(0, z, l, q) * F(at[j], q))
        return t + (v.sum(deg, lambda d: LG(0, d, l) * L(d)) if leg else 0)
    i = v.arb('i', n); want = v.sum(n, lambda l: g.R[0].at(i, l) * model(l)) if withR else model(i)
    v.ensure('the model is the transmitted combination of the named archetypes plus the Legendre terms' + (', convolved' if withR else ''), v.el(m, i) == want)
    v.ensure('inputs are not changed', v.and_(v.all(nc, lambda b: v.el(co, b) == C(b)), v.all((na, nw), lambda b, q: v.el(ax.flux, b, q) == F(b, q)), v.all(n, lambda l: v.el(g.wave[0], l) == g.WF[0](l))))
    if leg: v.ensure('the Legendre coefficients are not changed', v.all(deg, lambda d: v.el(lc, d) == L(d)))
_FA = ['redrock.archetypes.Archetype.eval']
@proof('C15', _FA)
def archetype_eval(v): _archetype(v, 1, True, True)
@proof('C15', _FA)
def archetype_eval_plain(v): _archetype(v, 1, False, False)
@proof('C15', _FA)
def archetype_eval_two(v): _archetype(v, 2, True, False)
@proof('C15', _FA)
def archetype_eval_three(v): _archetype(v, 3, True, True)

# ---------------------------------------------------------------- Target.eval_model
def _target(v, order, fit, leg2=True, nn=1, bands=None):
    """order: the grid of every spectrum; bands: camera of every grid"""
    ng = max(order) + 1; g = _grids(v, ng); bands = bands or ['b', 'r', 'z'][:ng]
    M = v.mod('targets'); t = M.Target.__new__(M.Target)
    t.spectra = [Rec(wavehash='grid%d' % k, wave=g.wave[k], band=bands[k], Rcsr=g.R[k], R=object()) for k in order]
    nc = v.size('ncoeff', lo=3); co = v.array('coeff', (nc,)); C = v.frozen(co); z = v.real('z')
    MOD = [v.function('model%d' % k, 'i') for k in range(ng)]
    out = [SArr.new((zi(g.npx[k]),), (lambda k: lambda i: v.raw(MOD[k](_s(i[0]))))(k), 'r') for k in range(ng)]
    some = v.any(nc, lambda b: C(b) != 0)
    def eval_template(coeff, wave, zz, R=None):
        k = _which(g, wave)
        v.ensure('coefficients and redshift are those of the fit', v.and_(zz == z, v.all(nc, lambda b: v.el(coeff, b) == C(b)), coeff.shape[0] == nc))
        v.ensure('the resolution is the one of the spectrum', R is g.R[k])
        v.ensure('only a fit that is not all zero is evaluated', some)
        return out[k]
    deg = v.size('deg', lo=1); sb = sorted(set(bands)); lc = None
    sub = ';'.join('ELG_%d' % q for q in range(nn)) if fit == 'ARCH' else 'HIZ'
    if fit == 'ARCH':
        lc = v.array('legcoeff', (len(sb), deg) if leg2 else (deg,)); L = v.frozen(lc)
        some = v.or_(some, v.any(lc._shape, lambda *b: L(*b) != 0))
    def eval_archetype(subtype, coeff, wave, zz, R=None, legcoeff=None):
        k = _which(g, wave)
        v.ensure('the archetypes named in the fit are evaluated', subtype == sub)
        v.ensure('with their coefficients at the redshift of the fit', v.and_(zz == z, coeff.shape[0] >= nn, *[v.el(coeff, q) == C(q) for q in range(nn)]))
        v.ensure('the resolution is the one of the spectrum', R is g.R[k])
        v.ensure('one Legendre coefficient per term', v.and_(len(legcoeff._shape) == 1, legcoeff.shape[0] == deg))
        d = v.arb('d', deg)
        v.ensure('the Legendre coefficients are those of the camera of the spectrum', v.el(legcoeff, d) == (L(sb.index(bands[k]), d) if leg2 else L(d)))
        return out[k]
    templates = {('QSO', 'HIZ'): Rec(eval=eval_template)}; arche = {'QSO': Rec(eval=eval_archetype)}
    best = dict(SPECTYPE='QSO', SUBTYPE=sub, COEFF=co, Z=z, FITMETHOD=fit, LEGCOEFF=lc)
    r = v.call(M.Target.eval_model, t, best, templates, arche, None)
    v.ensure('the models are kept with the target', t.model is r)
    v.ensure('one model per grid', isinstance(r, dict) and set(r) == {'grid%d' % k for k in set(order)})
    for k in sorted(set(order)):
        a = as_arr(r['grid%d' % k]); i = v.arb('i', g.npx[k])
        v.ensure('a model has one value per pixel of its spectrum', v.and_(len(a._shape) == 1, a.shape[0] == g.npx[k]))
        v.ensure('each model is stored under its own spectrum, and is zero where the fit is all zero (Legendre terms included)', v.el(a, i) == v.ite(some, MOD[k](i), 0))
    v.ensure('the fit is not changed', v.and_(v.all(nc, lambda b: v.el(co, b) == C(b)), list(best) == ['SPECTYPE', 'SUBTYPE', 'COEFF', 'Z', 'FITMETHOD', 'LEGCOEFF']))
    if lc is not None: v.ensure('its Legendre coefficients neither', v.all((len(sb), deg), lambda b, d: v.el(lc, b, d) == L(b, d)) if leg2 else v.all(deg, lambda d: v.el(lc, d) == L(d)))
_FE = ['redrock.targets.Target.eval_model']
@proof('C15', _FE)
def target_template(v): _target(v, (0, 1, 0, 2), 'PCA')
@proof('C15', _FE)
def target_archetype(v): _target(v, (0, 1, 2), 'ARCH', bands=['z', 'b', 'r'])
@proof('C15', _FE)
def target_archetype_exposures(v): _target(v, (1, 0, 1, 2), 'ARCH', nn=2, bands=['r', 'z', 'b'])
@proof('C15', _FE)
def target_archetype_all(v): _target(v, (0, 1), 'ARCH', leg2=False, bands=['r', 'b'])
@proof('C15', _FE)
def target_one_spectrum(v): _target(v, (0,), 'NMF')
