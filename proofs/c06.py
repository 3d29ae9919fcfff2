"""C06: delta-chi2, the small-delta flag and ranking"""
from vc.prove import *
LIGHT = 299792.458
BAD = 2**3 + 2**4 + 2**5 + 2**6 + 2**10

_dv = z3.Function('SR_dv', R, R, R)
def DV(v, z, zref):
    "velocity difference (contract of get_dv, proved in C06/get_dv)"
    if v.bounded: return LIGHT * (z - zref) / (1 + zref)
    return S(_dv(v.raw(z), v.raw(zref)), 'r')
def dv_contract(v, module):
    def get_dv(z, zref):
        f = lambda a, b: _dv(a, b)
        if isinstance(z, SArr) or isinstance(zref, SArr): return ew(f, 'r', z, zref)
        return S(_dv(toreal(*lift(z)), toreal(*lift(zref))), 'r')
    v.contract(module, 'get_dv', get_dv)

@proof('C06', ['redrock.fitz.get_dv'])
def get_dv(v):
    z, zref = v.real('z'), v.real('zref')
    v.require(zref > -1)
    d = v.call(v.mod('fitz').get_dv, z, zref)
    v.ensure('velocity difference in km/s', d * (1 + zref) == LIGHT * (z - zref))

class DC:
    "vocabulary of calc_deltachi2"
    def __init__(s, v, chi2, z, zw, lim):
        s.v = v
        s.chi2, s.z, s.zw, s.lim = [v.frozen(a) for a in (chi2, z, zw)] + [lim]
    def good(s, q): return (s.zw(q) & BAD) == 0
    def dv(s, q, i): return abs(DV(s.v, s.z(q), s.z(i)))
    def pairlim(s, q, i): return s.v.np().minimum(s.lim(i), s.lim(q))
    def next_(s, i, q): return s.v.and_(s.good(q), s.dv(q, i) > s.pairlim(q, i))
    def near(s, i, q):
        return s.v.and_(s.good(q), s.dv(q, i) >= s.pairlim(q, i), abs(s.chi2(q) - s.chi2(i)) < 9)

def _spec_d(v, D, n, d, i):
    "d is the smallest increase to a later distinct good fit, 0 when there is none"
    return v.and_(v.all(n, lambda q: v.implies(v.and_(q > i, D.next_(i, q)), d <= D.chi2(q) - D.chi2(i))),
                  v.or_(v.and_(d == 0, v.all(n, lambda q: v.implies(q > i, v.not_(D.next_(i, q))))),
                        v.any(n, lambda q: v.and_(q > i, D.next_(i, q), d == D.chi2(q) - D.chi2(i)))))

def _run(v, scalar):
    n = v.size('n', lo=1)
    chi2, z, zw = v.array('chi2', (n,)), v.array('z', (n,)), v.array('zwarn', (n,), 'w')
    Zf = v.frozen(z)
    v.require(v.all(n, lambda q: Zf(q) > -1))
    M = v.mod('zfind')
    if scalar:
        L = v.real('dvlimit', nonneg=True); lim = lambda q: L
        arg = L
    else:
        la = v.array('dvlimit', (n,)); lim = v.frozen(la); arg = la
    dv_contract(v, 'zfind')
    D = DC(v, chi2, z, zw, lim)
    D.P = v.opaque('delta', lambda i, x: _spec_d(v, D, n, x, i), 'ir')
    D.F = v.opaque('flag', lambda i, x: v.iff(x, v.any(n, lambda q: v.and_(q != i, D.near(i, q)))), 'ib')
    v.ghost = (D, n)
    return D, n, M, (chi2, z, zw), arg

def _setzwarn_inv(G):
    def inv(L):
        v = G['v']; D, n = v.ghost
        s = v.frozen(L.setzwarn)
        return [('flags so far', v.all(n, lambda j: v.implies(j < L.k, D.F(j, s(j))))),
                ('the rest is unset', v.all(n, lambda j: v.implies(j >= L.k, v.not_(s(j)))))]
    return inv
def _setzwarn_hint(G):
    def hint(L):
        v = G['v']; D, n = v.ghost
        D.F.fold('flag of this row', L.k - 1, v.el(L.setzwarn, L.k - 1))
    return hint
def _delta_inv(G):
    def inv(L):
        v = G['v']; D, n = v.ghost
        d = v.frozen(L.deltachi2)
        return [('differences so far', v.all(n, lambda j: v.implies(j < L.k, D.P(j, d(j))))),
                ('the rest is zero', v.all(n, lambda j: v.implies(j >= L.k, d(j) == 0)))]
    return inv
def _delta_hint(G):
    def hint(L):
        v = G['v']; D, n = v.ghost
        D.P.fold('difference of this row', L.k - 1, v.el(L.deltachi2, L.k - 1))
    return hint
_G = {}
SPECS = {'calc_deltachi2#0': dict(inv=_delta_inv(_G), hint=_delta_hint(_G)), 'calc_deltachi2#1': dict(inv=_setzwarn_inv(_G), hint=_setzwarn_hint(_G))}

def _dc(v, scalar):
    _G['v'] = v
    D, n, M, a, arg = _run(v, scalar)
    keep = [v.frozen(x) for x in a]
    d, s = v.call(M.calc_deltachi2, *a, dvlimit=arg)
    v.ensure('one value per candidate', v.and_(d.shape[0] == n, s.shape[0] == n))
    i = v.arb('i', n)
    dd = lambda q: v.el(d, q)
    none = v.all(n, lambda q: v.implies(q > i, v.not_(D.next_(i, q))))
    q = v.arb('q', n)
    D.F.unfold(i, v.el(s, i)); D.P.unfold(i, dd(i))
    last = v.and_(i == n - 1)
    v.ensure('not above any later distinct good fit', v.implies(v.and_(q > i, D.next_(i, q)), dd(i) <= D.chi2(q) - D.chi2(i)))
    v.ensure('attained by a later distinct good fit, or 0 when there is none',
             v.or_(v.and_(dd(i) == 0, none), v.any(n, lambda q: v.and_(q > i, D.next_(i, q), dd(i) == D.chi2(q) - D.chi2(i)))))
    v.ensure('small-delta flag exactly when another distinct good fit is within 9',
             v.iff(v.el(s, i), v.any(n, lambda q: v.and_(q != i, D.near(i, q)))))
    for nm, x, f in zip(('chi2', 'z', 'zwarn'), a, keep): v.ensure('%s unchanged' % nm, v.el(x, i) == f(i))

@proof('C06', ['redrock.zfind.calc_deltachi2'], specs=SPECS, replay='deltachi2', sizes=[dict(n=k) for k in (1, 2, 3)])
def deltachi2_pairs(v): _dc(v, False)
@proof('C06', ['redrock.zfind.calc_deltachi2'], specs=SPECS, replay='deltachi2', sizes=[dict(n=k) for k in (1, 2, 3)])
def deltachi2_scalar(v): _dc(v, True)

def _table(v, n):
    "a table with a ghost row-number column"
    m = v.size('m', lo=1)
    d = dict(zwarn=v.array('zwarn', (n,), 'w'), chi2=v.array('chi2', (n,)), z=v.array('z', (n,)), coeff=v.array('coeff', (n, m)))
    F = {k: v.frozen(a) for k, a in d.items()}
    d['row'] = v.np().arange(n) + 0
    return d, F, m

def _ranked(v, d, F, n, m, cols):
    row = d['row']
    r = lambda k: v.el(row, k)
    k, l = v.arb('k', n), v.arb('l', n)
    v.ensure('same columns', set(d) == set(cols))
    v.ensure('same number of rows', v.and_(*[a.shape[0] == n for a in d.values()]))
    v.ensure('every row comes from the table', v.and_(r(k) >= 0, r(k) < n))
    v.ensure('no row appears twice', v.implies(k != l, r(k) != r(l)))
    for c in ('zwarn', 'chi2', 'z'): v.ensure('%s stays with its row' % c, v.el(d[c], k) == F[c](r(k)))
    c = v.arb('c', m)
    v.ensure('coeff stays with its row', v.el(d['coeff'], k, c) == F['coeff'](r(k), c))
    bad = lambda q: (v.el(d['zwarn'], q) & BAD) != 0
    return k, l, bad

@proof('C06', ['redrock.zfind.sort_zfit_dict', 'redrock.zfind.sort_dict_by_cols'], replay='ranking', sizes=[dict(n=k, m=1) for k in (1, 2, 3)])
def ranking(v):
    n = v.size('n', lo=1)
    d, F, m = _table(v, n); cols = list(d)
    v.call(v.mod('zfind').sort_zfit_dict, d)
    k, l, bad = _ranked(v, d, F, n, m, cols)
    v.ensure('good fits come first', v.implies(v.and_(k < l, bad(k)), bad(l)))
    v.ensure('increasing chi2 within a group', v.implies(v.and_(k < l, v.iff(bad(k), bad(l))), v.el(d['chi2'], k) <= v.el(d['chi2'], l)))

@proof('C06', ['redrock.zfind.sort_dict_by_cols'], sizes=[dict(n=k, m=1) for k in (1, 2, 3)])
def sort_columns(v):
    n = v.size('n', lo=1)
    d, F, m = _table(v, n); cols = list(d)
    v.call(v.mod('zfind').sort_dict_by_cols, d, ('z', 'chi2'))
    k, l, bad = _ranked(v, d, F, n, m, cols)
    z, x = (lambda q: v.el(d['z'], q)), (lambda q: v.el(d['chi2'], q))
    v.ensure('first column first', v.implies(k < l, z(k) <= z(l)))
    v.ensure('second column breaks ties', v.implies(v.and_(k < l, z(k) == z(l)), x(k) <= x(l)))
