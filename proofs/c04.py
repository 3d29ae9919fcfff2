"""C04: find_minima and minfit"""
from vc.prove import *

@proof('C04', ['redrock.fitz.find_minima'], replay='find_minima', sizes=[dict(n=k) for k in (1, 2, 3, 4)])
def find_minima(v):
    n = v.size('n', lo=1)
    x = v.array('x', (n,))
    X = v.frozen(x)
    r = v.call(v.mod('fitz').find_minima, x)
    m = r.shape[0]
    local = lambda i: v.and_(v.or_(i == 0, X(i) <= X(i - 1)), v.or_(i == n - 1, X(i) <= X(i + 1)))
    R_ = lambda k: v.el(r, k)
    k = v.arb('k', m)
    v.ensure('every returned index is a grid point', v.and_(R_(k) >= 0, R_(k) < n))
    v.ensure('every returned index is a local minimum', local(R_(k)))
    l = v.arb('l', m)
    v.ensure('no index is returned twice', v.implies(k != l, R_(k) != R_(l)))
    v.ensure('ordered from the deepest', v.implies(k < l, X(R_(k)) <= X(R_(l))))

@proof('C04', ['redrock.fitz.find_minima'], replay='find_minima', sizes=[dict(n=k) for k in (1, 2, 3, 4)])
def find_minima_complete(v):
    n = v.size('n', lo=1)
    x = v.array('x', (n,))
    X = v.frozen(x)
    r = v.call(v.mod('fitz').find_minima, x)
    i = v.arb('i', n)
    v.has('every local minimum is returned', r, i,
          v.and_(v.or_(i == 0, X(i) <= X(i - 1)), v.or_(i == n - 1, X(i) <= X(i + 1))))

@proof('C04', ['redrock.fitz.minfit'], replay='minfit', sizes=[dict(n=3)])
def minfit_three(v):
    BAD = v.mod('zwarning').ZWarningMask.BAD_MINFIT
    x = v.array('x', (3,)); y = v.array('y', (3,))
    v.require(v.and_(x[0] != x[1], x[1] != x[2], x[0] != x[2]))
    X = [x[k] for k in range(3)]; Y = [y[k] for k in range(3)]
    from vc import npf
    a, b, c = npf.polyfit(x, y, 2)      # the parabola through the three points
    x0, xerr, y0, zwarn = v.call(v.mod('fitz').minfit, x, y)
    flat = a == 0
    bad = (zwarn == BAD)
    v.ensure('the only flag is the bad-minimum flag', v.or_(zwarn == 0, bad))
    v.ensure('flat curve is flagged', v.implies(flat, v.and_(bad, x0 == -1, xerr == -1, y0 == -1)))
    v.ensure('vertex abscissa', v.implies(v.not_(flat), 2 * a * x0 + b == 0))
    v.ensure('vertex height', v.implies(v.not_(flat), a * x0 * x0 + b * x0 + c == y0))
    t = v.real('t')
    v.ensure('the fitted form is the parabola through the points',
             v.implies(v.not_(flat), y0 + a * (t - x0) * (t - x0) == a * t * t + b * t + c))
    v.ensure('width is that of the parabola', v.implies(v.not_(flat), v.and_(xerr > 0, xerr * xerr * abs(a) == 1)))
    lo = v.and_(x0 <= X[0], x0 <= X[1], x0 <= X[2]); hi = v.and_(x0 >= X[0], x0 >= X[1], x0 >= X[2])
    v.ensure('bad exactly for a wrong parabola', v.implies(v.not_(flat), v.iff(bad, v.or_(a < 0, lo, hi, y0 <= 0))))

@proof('C04', ['redrock.fitz.minfit'], replay='minfit', sizes=[])
def minfit_short(v):
    BAD = v.mod('zwarning').ZWarningMask.BAD_MINFIT
    n = v.size('n', lo=0, hi=2)
    x = v.array('x', (n,)); y = v.array('y', (n,))
    r = v.call(v.mod('fitz').minfit, x, y)
    v.ensure('fewer than three points is flagged bad', r[3] == BAD)
    v.ensure('placeholder values', v.and_(r[0] == -1, r[1] == -1, r[2] == -1))
