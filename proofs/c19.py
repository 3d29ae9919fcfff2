"""C19: [OII] penalty and reduced wavelengths"""
from vc.prove import *
from vc.sums import SumOf

@proof('C19', ['redrock.zscan.calc_negOII_penalty'], replay='penalty', sizes=[dict(nz=1, nbasis=2, nwave=2)])
def penalty(v):
    nz, nb, nw = v.size('nz', lo=1), v.size('nbasis', lo=1), v.size('nwave', lo=0)
    T = v.array('T', (nb, nw)); c = v.array('c', (nz, nb))
    TF, CF = v.frozen(T), v.frozen(c)
    p = v.call(v.mod('zscan').calc_negOII_penalty, T, c)
    v.ensure('one penalty per redshift', v.and_(len(p._shape) == 1, p.shape[0] == nz))
    i = v.arb('i', nz)
    q_ = lambda q: S(q) if z3.is_expr(q) else q
    # summed model emission around [OII]
    flux = v.sum(nw, lambda w: v.sum(nb, lambda b: CF(i, b) * TF(b, w)))
    # mathematical fact (exchange of two finite sums; trusted, see trusted.json)
    v.require(flux == v.sum(nb, lambda b: CF(i, b) * v.sum(nw, lambda w: TF(b, w))))
    P = v.el(p, i)
    v.ensure('never negative', P >= 0)
    v.ensure('zero when the emission is not negative', v.implies(flux >= 0, P == 0))
    v.ensure('absolute value of negative emission', v.implies(flux < 0, P == -flux))
    a, b = v.arb('a', nz), v.arb('b', nb)
    v.ensure('coefficients unchanged', v.el(c, a, b) == CF(a, b))

@proof('C19', ['redrock.utils.reduced_wavelength'], replay='reduced', sizes=[dict(n=2), dict(n=3)])
def reduced(v):
    n = v.size('n', lo=2)
    w = v.array('w', (n,)); W = v.frozen(w)
    a, b = v.arb('a', n), v.arb('b', n)
    v.require(W(a) != W(b))             # not all wavelengths equal
    r = v.call(v.mod('utils').reduced_wavelength, w)
    v.ensure('one value per wavelength', v.and_(len(r._shape) == 1, r.shape[0] == n))
    i, j, k = v.arb('i', n), v.arb('j', n), v.arb('k', n)
    Q = lambda q: v.el(r, q)
    least = lambda s: v.all(n, lambda q: W(s) <= W(q))
    most = lambda s: v.all(n, lambda q: W(s) >= W(q))
    v.ensure('input unchanged', v.el(w, i) == W(i))
    v.ensure('-1 at the shortest wavelength', v.implies(least(i), Q(i) == -1))
    v.ensure('+1 at the longest wavelength', v.implies(most(i), Q(i) == 1))
    v.ensure('within [-1, 1]', v.and_(Q(i) >= -1, Q(i) <= 1))
    v.ensure('linear', (Q(i) - Q(j)) * (W(k) - W(j)) == (Q(k) - Q(j)) * (W(i) - W(j)))
