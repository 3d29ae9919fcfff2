"""C02: transmission is a fraction, 1 redward of Ly-alpha, element by element"""
from vc.prove import *
LYA = 1215.67

def _run(v, model, sz=False, sl=False):
    nz, nw = (1 if sz else v.size('nz', lo=1)), (1 if sl else v.size('nw', lo=1))
    M = v.mod('igm')
    if sz: z0 = v.real('z'); z = z0; Z = lambda q: z0
    else: z = v.array('z', (nz,)); Z = v.frozen(z)
    if sl: l0 = v.real('l'); l = l0; Lf = lambda q: l0
    else: l = v.array('l', (nw,)); Lf = v.frozen(l)
    v.require(v.all(nz, lambda q: Z(q) > -1)); v.require(v.all(nw, lambda q: Lf(q) > 0))
    iz, iw = v.arb('iz', nz), v.arb('iw', nw)
    return M, z, l, Z, Lf, nz, nw, iz, iw

@proof('C02', ['redrock.igm.transmission_Lyman_CaluraKamble'], replay='transmission', sizes=[dict(nz=1, nw=1), dict(nz=2, nw=1)], feas_ms=30)
def calura12(v): _series(v, 'Calura12')
@proof('C02', ['redrock.igm.transmission_Lyman_CaluraKamble'], replay='transmission', sizes=[dict(nz=1, nw=1), dict(nz=2, nw=1)], feas_ms=30)
def kamble20(v): _series(v, 'Kamble20')
def _series(v, model):
    M, z, l, Z, Lf, nz, nw, iz, iw = _run(v, model)
    T = v.call(M.transmission_Lyman_CaluraKamble, z, l, model=model)
    v.ensure('one axis per redshift and wavelength', v.and_(T.shape[0] == nz, T.shape[1] == nw))
    t = v.el(T, iz, iw)
    v.fraction('absorption of a line is not negative', t)
    v.ensure('never negative', t >= 0)
    v.ensure('at most one', t <= 1)
    v.ensure('one redward of Lyman-alpha', v.implies(Lf(iw) >= LYA * (1 + Z(iz)), t == 1))
    one = v.call(M.transmission_Lyman_CaluraKamble, v.np().array([Z(iz)]), v.np().array([Lf(iw)]), model=model)
    v.ensure('depends on its own redshift and wavelength only', t == v.el(one, 0, 0))

# ---- Inoue et al. 2014: line tables as symbolic columns (facts checked on the real tables below)
def _model(v, M, nl):
    g = M.Inoue14.__new__(M.Inoue14)
    col = lambda n: v.array(n, (nl,))[:, None]
    g.lam, g.ALAF1, g.ALAF2, g.ALAF3, g.ADLA1, g.ADLA2 = [col(n) for n in ('lam', 'ALAF1', 'ALAF2', 'ALAF3', 'ADLA1', 'ADLA2')]
    for a in (g.ALAF1, g.ALAF2, g.ALAF3, g.ADLA1, g.ADLA2):
        f = v.frozen(a); v.require(v.all(nl, lambda q: f(q, 0) >= 0))
    lam = v.frozen(g.lam)
    v.require(v.all(nl, lambda q: v.and_(lam(q, 0) > 0, lam(q, 0) <= LYA)))
    g.scale_tau = 1.; g.has_gpu_data = False
    return g

def _inoue(v):
    nz, nw, nl = v.size('nz', lo=1), v.size('nw', lo=1), v.size('nline', lo=25)
    M = v.mod('igm'); g = _model(v, M, nl)
    z, l = v.array('z', (nz,)), v.array('l', (nz, nw)); Z, Lf = v.frozen(z), v.frozen(l)
    v.require(v.all(nz, lambda q: Z(q) > -1)); v.require(v.all((nz, nw), lambda q, r: Lf(q, r) > 0))
    iz, iw = v.arb('iz', nz), v.arb('iw', nw)
    return M, g, z, l, Z, Lf, nz, nw, iz, iw

def _component(v, name):
    M, g, z, l, Z, Lf, nz, nw, iz, iw = _inoue(v)
    t = v.call(getattr(g, name), z, l)
    v.ensure('one axis per redshift and wavelength', v.and_(len(t.shape) == 2, t.shape[0] == nz, t.shape[1] == nw))
    one = v.call(getattr(g, name), v.np().array([Z(iz)]), v.np().array([[Lf(iz, iw)]]))
    x = v.el(t, iz, iw)
    v.ensure('depends on its own redshift and wavelength only', x == v.el(one, 0, 0))
    red = Lf(iz, iw) >= LYA * (1 + Z(iz))
    v.sum_lemma('no line absorbs redward of Lyman-alpha', x, '== 0', red)
    if name.startswith('tLS'):
        v.sum_lemma('absorption of a line is not negative', x, '>= 0')
        v.ensure('optical depth not negative', x >= 0)
    v.ensure('no absorption redward of Lyman-alpha', v.implies(red, x == 0))

_I = 'redrock.igm.Inoue14.'
@proof('C02', [_I + 'tLSLAF'])
def lines_forest(v): _component(v, 'tLSLAF')
@proof('C02', [_I + 'tLSDLA'])
def lines_dla(v): _component(v, 'tLSDLA')
@proof('C02', [_I + 'tLCDLA'], feas_ms=30)
def continuum_dla(v): _component(v, 'tLCDLA')
@proof('C02', [_I + 'tLCLAF'], feas_ms=30)
def continuum_forest(v): _component(v, 'tLCLAF')

def _fn(name, facts):
    f = z3.Function('SR_' + name, R, R, R)
    return f
def _stand_in(v, M, name, f):
    "contract of a component: a function of its own redshift and wavelength, none redward of Ly-alpha"
    zz, ll = z3.Reals('cz cl')
    v.require(S(z3.ForAll([zz, ll], z3.Implies(z3.And(zz > -1, ll >= z3.RealVal(str(LYA)) * (1 + zz)), f(zz, ll) == 0), patterns=[f(zz, ll)])))
    def comp(self, zS, lobs, use_gpu=False):
        v.lemma('%s: one row per redshift' % name, v.and_(len(lobs.shape) == 2, lobs.shape[0] == zS.shape[0]))
        zf, lf = v.frozen(zS), v.frozen(lobs)
        v.forall_lemma('%s: redshifts above -1, wavelengths positive' % name, lobs.shape, lambda i, j: v.and_(zf(i) > -1, lf(i, j) > 0))
        return SArr.new(lobs._shape, lambda i: f(v.raw(zf(S(i[0], 'i') if z3.is_expr(i[0]) else i[0])), v.raw(lf(*[S(k, 'i') if z3.is_expr(k) else k for k in i]))), 'r')
    v.contract('igm', 'Inoue14.' + name, comp)

@proof('C02', ['redrock.igm.Inoue14.full_IGM'])
def inoue14_total(v):
    M, g, z, l, Z, Lf, nz, nw, iz, iw = _inoue(v)
    fs = {n: _fn(n, 0) for n in ('tLSLAF', 'tLSDLA', 'tLCDLA', 'tLCLAF')}
    for n, f in fs.items(): _stand_in(v, M, n, f)
    zz, ll = z3.Reals('cz cl')
    # assumed, not proved: the fitted optical depths add up to a non-negative one
    tot = sum(f(zz, ll) for f in fs.values())
    v.require(S(z3.ForAll([zz, ll], z3.Implies(z3.And(zz > -1, ll > 0), tot >= 0), patterns=[fs['tLCDLA'](zz, ll)])))
    T = v.call(g.full_IGM, z, l)
    v.ensure('one axis per redshift and wavelength', v.and_(len(T.shape) == 2, T.shape[0] == nz, T.shape[1] == nw))
    t = v.el(T, iz, iw)
    v.ensure('never negative', t >= 0)
    v.ensure('one redward of Lyman-alpha', v.implies(Lf(iz, iw) >= LYA * (1 + Z(iz)), t == 1))
    v.ensure('at most one', t <= 1)
    one = v.call(g.full_IGM, v.np().array([Z(iz)]), v.np().array([[Lf(iz, iw)]]))
    v.ensure('depends on its own redshift and wavelength only', t == v.el(one, 0, 0))
    a = v.arb('a', nz)
    v.ensure('redshifts and wavelengths unchanged', v.and_(v.el(z, a) == Z(a), v.el(l, iz, iw) == Lf(iz, iw)))

_T = {m: z3.Function('SR_T_' + m, R, R, R) for m in ('Inoue14', 'Calura12', 'Kamble20')}
def _facts(v, m):
    zz, ll = z3.Reals('cz cl'); f = _T[m]
    v.require(S(z3.ForAll([zz, ll], z3.Implies(z3.And(zz > -1, ll > 0), z3.And(f(zz, ll) >= 0, f(zz, ll) <= 1, z3.Implies(ll >= z3.RealVal(str(LYA)) * (1 + zz), f(zz, ll) == 1))), patterns=[f(zz, ll)])))
def _table(v, m, zf, lf, shape):
    si = lambda k: S(k, 'i') if z3.is_expr(k) else k
    return SArr.new(shape, lambda i: _T[m](v.raw(zf(si(i[0]))), v.raw(lf(si(i[0]), si(i[1])))), 'r')

@proof('C02', ['redrock.igm.transmission_IGM_Inoue14'], feas_ms=50)
def inoue14_masked(v):
    nz, nw = v.size('nz', lo=1), v.size('nw', lo=1)
    M = v.mod('igm')
    z, l = v.array('z', (nz,)), v.array('l', (nw,)); Z, Lf = v.frozen(z), v.frozen(l)
    v.require(v.all(nz, lambda q: Z(q) > -1)); v.require(v.all(nw, lambda q: Lf(q) > 0))
    _facts(v, 'Inoue14')
    def full_IGM(self, zS, lobs, use_gpu=False):
        v.lemma('one row per redshift', v.and_(len(lobs.shape) == 2, lobs.shape[0] == zS.shape[0]))
        zf, lf = v.frozen(zS), v.frozen(lobs)
        v.forall_lemma('redshifts above -1, wavelengths positive', lobs.shape, lambda i, j: v.and_(zf(i) > -1, lf(i, j) > 0))
        return _table(v, 'Inoue14', zf, lf, lobs._shape)
    v.contract('igm', 'Inoue14.full_IGM', full_IGM)
    M.IGM = M.Inoue14.__new__(M.Inoue14)
    T = v.call(M.transmission_IGM_Inoue14, z, l)
    iz, iw = v.arb('iz', nz), v.arb('iw', nw)
    v.ensure('one axis per redshift and wavelength', v.and_(len(T.shape) == 2, T.shape[0] == nz, T.shape[1] == nw))
    v.ensure('the transmission of its own redshift and wavelength', v.el(T, iz, iw) == S(_T['Inoue14'](v.raw(Z(iz)), v.raw(Lf(iw)))))
    v.ensure('redshifts and wavelengths unchanged', v.and_(v.el(z, iz) == Z(iz), v.el(l, iw) == Lf(iw)))

def _lyman(v, model, sz, sl):
    M, z, l, Z, Lf, nz, nw, iz, iw = _run(v, model, sz, sl)
    known = model in _T
    for m in _T: _facts(v, m)
    def check(zO, lO):
        zf, lf = v.frozen(zO), v.frozen(lO)
        v.forall_lemma('redshifts above -1', zO.shape[0], lambda i: zf(i) > -1)
        v.forall_lemma('wavelengths positive', lO.shape[0], lambda i: lf(i) > 0)
        return zf, (lambda i, j: lf(j)), (zO._shape[0], lO._shape[0])
    def series(zObj, lObs, use_gpu=False, model='Calura12'):
        return _table(v, model, *check(zObj, lObs))
    def inoue(zObj, lObs, use_gpu=False): return _table(v, 'Inoue14', *check(zObj, lObs))
    v.contract('igm', 'transmission_Lyman_CaluraKamble', series)
    v.contract('igm', 'transmission_IGM_Inoue14', inoue)
    want = lambda a, b: S(_T[model](v.raw(Z(a)), v.raw(Lf(b)))) if known else 1
    for always in (True, False):
        T = v.call(M.transmission_Lyman, z, l, model=model, always_return_array=always)
        if T is None:
            v.ensure('always an array when asked for', not always)
            v.ensure('nothing returned only if every transmission is one', want(iz, iw) == 1); continue
        if sz and sl:
            v.ensure('a scalar for scalars', not isinstance(T, SArr) or T.ndim == 0)
            t = T if not isinstance(T, SArr) else T.item()
        else:
            sh = (() if sz else (nz,)) + (() if sl else (nw,))
            v.ensure('one axis per array argument', isinstance(T, SArr) and len(T.shape) == len(sh) and v.and_(*[a == b for a, b in zip(T.shape, sh)]))
            t = v.el(T, *((() if sz else (iz,)) + (() if sl else (iw,))))
        v.ensure('the transmission of its own redshift and wavelength', t == want(iz, iw))
    if not sz: v.ensure('redshifts unchanged', v.el(z, iz) == Z(iz))
    if not sl: v.ensure('wavelengths unchanged', v.el(l, iw) == Lf(iw))

_FT = ['redrock.igm.transmission_Lyman']
@proof('C02', _FT)
def lyman_calura12(v): _lyman(v, 'Calura12', False, False)
@proof('C02', _FT)
def lyman_kamble20(v): _lyman(v, 'Kamble20', False, False)
@proof('C02', _FT)
def lyman_inoue14(v): _lyman(v, 'Inoue14', False, False)
@proof('C02', _FT)
def lyman_none(v): _lyman(v, None, False, False)
@proof('C02', _FT)
def lyman_none_name(v): _lyman(v, 'None', False, False)
@proof('C02', _FT)
def lyman_scalars(v): _lyman(v, 'Calura12', True, True)
@proof('C02', _FT)
def lyman_scalar_redshift(v): _lyman(v, 'Inoue14', True, False)
@proof('C02', _FT)
def lyman_scalar_wavelength(v): _lyman(v, 'Kamble20', False, True)
@proof('C02', _FT)
def lyman_none_scalars(v): _lyman(v, None, True, True)

@proof('C02', ['redrock.igm.Inoue14._load_data', 'redrock.constants'])
def line_tables(v):
    "closed facts about the tables shipped with the package (evaluated)"
    import numpy as np
    import importlib.resources, pathlib
    from vc import loader
    importlib.resources.files = lambda name: pathlib.Path(loader.PKG)
    M = v.mod('igm'); g = v.call(M.Inoue14)
    lam = np.asarray(g.lam)
    v.ensure('one column per table', lam.shape == g.ALAF1.shape == g.ALAF2.shape == g.ALAF3.shape == g.ADLA1.shape == g.ADLA2.shape and lam.shape[1] == 1)
    v.ensure('no line redward of Lyman-alpha', bool(np.all(lam > 0) and np.all(lam <= LYA)))
    for n in ('ALAF1', 'ALAF2', 'ALAF3', 'ADLA1', 'ADLA2'): v.ensure('coefficients of %s not negative' % n, bool(np.all(np.asarray(getattr(g, n)) >= 0)))
    v.ensure('optical depth is not scaled', g.scale_tau == 1)
    C = v.mod('constants')
    v.ensure('Lyman-alpha', C.LyA_wavelength == LYA)
    v.ensure('the models that transmission_Lyman accepts', set(M.igm_models) == {'Calura12', 'Kamble20', 'Inoue14', 'None', None})
    for m in ('nonsense', '', 'calura12'):
        r, e = v.call_exc(M.transmission_Lyman, v.real('z', nonneg=True), v.real('l', pos=True), model=m)
        v.ensure('an unknown model is rejected with a ValueError', isinstance(e, ValueError))
