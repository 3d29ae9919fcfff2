"""C08: prior shapes, tophat, Priors.eval"""
from vc.prove import *

def _shape(v, func, want):
    n = v.size('n', lo=1)
    z = v.array('z', (n,)); Z = v.frozen(z)
    z0 = v.real('z0'); s0 = v.real('s0', pos=True)
    F = getattr(v.mod('priors').Priors, func)
    p = v.call(F, z, z0, s0)
    v.ensure('one value per redshift', v.and_(len(p._shape) == 1, p.shape[0] == n))
    i = v.arb('i', n); j = v.arb('j', n)
    P = lambda q: v.el(p, q)
    u = lambda q: (Z(q) - z0) / s0
    v.ensure('grid unchanged', v.el(z, i) == Z(i))
    v.ensure('declared value', P(i) == want(u(i)))
    # shape, from the value and |z-z0|
    v.lemma('squared distance is not negative', u(i) * u(i) >= 0)
    v.lemma('scaled distance', u(i) * s0 == Z(i) - z0)
    v.lemma('scaled distance 2', u(j) * s0 == Z(j) - z0)
    v.ensure('not negative', P(i) >= 0)
    v.ensure('zero exactly at the mean', v.iff(P(i) == 0, Z(i) == z0))
    d = lambda q: abs(Z(q) - z0)
    t1, t2 = v.real('t1'), v.real('t2')
    v.lemma('magnitudes', v.implies(v.and_(t1 >= -t2, t1 <= t2), t1 * t1 <= t2 * t2))
    v.lemma('scaled distances keep the order', v.implies(d(i) <= d(j), v.and_(u(i) <= abs(u(j)), u(i) >= -abs(u(j)))))
    v.lemma('squares of magnitudes', v.implies(d(i) <= d(j), u(i) * u(i) <= u(j) * u(j)))
    v.ensure('not decreasing with distance', v.implies(d(i) <= d(j), P(i) <= P(j)))
    v.ensure('symmetric', v.implies(Z(i) - z0 == z0 - Z(j), P(i) == P(j)))

@proof('C08', ['redrock.priors.Priors.gaussian'], replay='shapes', sizes=[dict(n=1), dict(n=2)])
def gaussian(v): _shape(v, 'gaussian', lambda u: u * u)

@proof('C08', ['redrock.priors.Priors.lorentzien'], replay='lorentz', sizes=[dict(n=1), dict(n=2)])
def lorentzien(v): _shape(v, 'lorentzien', lambda u: 2 * v.np().log(1 + u * u))

from vc.npf import EXT
def _isnan(x): return S(x.t == EXT.nan)
def _ispinf(x): return S(x.t == EXT.pinf)
def _isfin(x): return S(EXT.is_fin(x.t))
def _val(x): return S(EXT.val(x.t))

def _hat(v):
    n = v.size('n', lo=1)
    z = v.array('z', (n,)); Z = v.frozen(z)
    v.require(v.all(n, lambda a: v.implies(a + 1 < n, Z(a) < Z(a + 1)), patterns=None))
    z0 = v.real('z0'); s0 = v.real('s0', pos=True)
    if v.bounded: v.array('chi2', (n,))
    return n, z, Z, z0, s0

def sorted_(v, Z, n):
    "strictly increasing, stated for every pair (what consecutive order gives by induction)"
    a, b = z3.Ints('oa ob')
    v.require(S(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < v.raw(n)), v.raw(Z(S(a))) < v.raw(Z(S(b))))))) if not v.bounded else \
        v.require(v.and_(*[Z(i) < Z(i + 1) for i in range(n - 1)]))

@proof('C08', ['redrock.priors.Priors.tophat'], replay='tophat', sizes=[dict(n=k) for k in (3, 4, 5)])
def tophat(v):
    n = v.size('n', lo=1)
    z = v.array('z', (n,)); Z = v.frozen(z)
    chi2 = v.array('chi2', (n,))
    z0 = v.real('z0'); s0 = v.real('s0', pos=True)
    sorted_(v, Z, n)
    ins = lambda q: v.and_(Z(q) - z0 < s0 / 2, z0 - Z(q) < s0 / 2)
    p = v.call(v.mod('priors').Priors.tophat, z, z0, s0)
    v.ensure('one value per redshift', v.and_(len(p._shape) == 1, p.shape[0] == n))
    i = v.arb('i', n)
    P = lambda q: v.el(p, q)
    bound = v.or_(v.and_(v.not_(ins(i)), v.or_(v.and_(i + 1 < n, ins(i + 1)), v.and_(i >= 1, ins(i - 1)))),
                  v.and_(ins(i), v.or_(i == 0, i == n - 1)))
    v.ensure('grid unchanged', v.el(z, i) == Z(i))
    v.ensure('infinite exactly at the bounding points', v.iff(_ispinf(P(i)), bound))
    v.ensure('undefined exactly at the other outside points', v.iff(_isnan(P(i)), v.and_(v.not_(ins(i)), v.not_(bound))))
    v.ensure('nothing is added at the other inside points', v.implies(v.and_(ins(i), v.not_(bound)), v.and_(_isfin(P(i)), _val(P(i)) == 0)))

@proof('C08', ['redrock.priors.Priors.tophat', 'redrock.fitz.find_minima'], replay='tophat', sizes=[dict(n=k) for k in (3, 4)])
def tophat_minima(v):
    n = v.size('n', lo=3)
    z = v.array('z', (n,)); Z = v.frozen(z)
    chi2 = v.array('chi2', (n,)); C = v.frozen(chi2)
    z0 = v.real('z0'); s0 = v.real('s0', pos=True)
    sorted_(v, Z, n)
    ins = lambda q: v.and_(Z(q) - z0 < s0 / 2, z0 - Z(q) < s0 / 2)
    p = v.call(v.mod('priors').Priors.tophat, z, z0, s0)
    r = v.call(v.mod('fitz').find_minima, chi2 + p)
    k = v.arb('k', r.shape[0])
    m = v.el(r, k)
    v.ensure('a selected minimum is a grid point', v.and_(m >= 0, m < n))
    v.ensure('every selected minimum lies inside the window', ins(m))

class _FITS:
    "what the contract of fits.open gives: the columns of the PRIORS table"
    def __init__(self, cols): self.data = cols
    def __getitem__(self, k):
        if k != 'PRIORS': raise KeyError(k)
        return self
    def close(self): pass

def _file(v, func):
    m = v.size('m', lo=1); n = v.size('n', lo=1)
    ids = v.array('ids', (m,), 'i'); zz = v.array('zmean', (m,)); ss = v.array('sigma', (m,))
    IDS, ZM, SG = v.frozen(ids), v.frozen(zz), v.frozen(ss)
    a, b = z3.Ints('ra rb')
    v.require(S(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < v.raw(m)), v.raw(IDS(S(a))) != v.raw(IDS(S(b)))))))
    v.require(v.all(m, lambda q: SG(q) > 0))
    M = v.mod('priors')
    M.fits = type('fits', (), {'open': staticmethod(lambda *a, **k: _FITS(dict(TARGETID=ids, Z=zz, SIGMA=ss, FUNCTION=[func])))})
    P = v.call(M.Priors, 'priors.fits')
    z = v.array('z', (n,))
    T = v.int('targetid')
    calls = []
    r = v.call(P.eval, T, z)
    i = v.arb('i', n); q = v.arb('q', m)
    known = isinstance(r, SArr)
    if not known:
        v.ensure('no prior only for a target without an entry', IDS(q) != T)
        v.ensure('no prior means nothing is added', r == 0)
    else:
        u = (v.el(z, i) - ZM(q)) / SG(q)
        want = u * u if func == 'gaussian' else 2 * v.np().log(1 + u * u)
        v.ensure('the prior of its own entry', v.implies(IDS(q) == T, v.el(r, i) == want))
        v.ensure('a prior only for a target with an entry', v.any(m, lambda w: IDS(w) == T))

@proof('C08', ['redrock.priors.Priors.__init__', 'redrock.priors.Priors.eval'])
def file_gaussian(v): _file(v, 'gaussian')
@proof('C08', ['redrock.priors.Priors.__init__', 'redrock.priors.Priors.eval'])
def file_lorentzien(v): _file(v, 'lorentzien')
