"""C01: rebinning is the exact average of the straight-line interpolation"""
from vc.prove import *

class Interp:
    """specification vocabulary: the straight-line interpolation of (x, y) and its integral.
    area(j): integral from x[0] to x[j] (recursive definition, unfolded where needed);
    upto(j, t): integral from x[0] to t, t in the cell x[j-1] .. x[j]"""
    def __init__(s, v, x, y, nx, of=()):
        s.v, s.nx, s.of = v, nx, tuple(lift(q)[0] for q in of)
        s.X, s.Y = (x if callable(x) else v.frozen(x)), (y if callable(y) else v.frozen(y))
        s.C = z3.Function('SR_area', *([I] * (len(of) + 1)), R); s.U = z3.Function('SR_upto', *([I] * (len(of) + 1)), R, R)
    def trap(s, j): return (s.X(j) - s.X(j - 1)) * (s.Y(j) + s.Y(j - 1)) / 2
    def area(s, j):
        if not s.v.bounded: return S(s.C(*s.of, lift(j)[0]), 'r')
        tot = S(z3.RealVal(0)); out = [tot]
        for q in range(1, s.nx): tot = tot + s.trap(q); out.append(tot)
        if isinstance(zi(j), int): return out[max(0, min(zi(j), s.nx - 1))]
        t = out[-1].t
        for q in range(s.nx - 2, -1, -1): t = z3.If(zi(j) == q, out[q].t, t)
        return S(t, 'r')
    def value(s, j, t): return s.Y(j - 1) + (t - s.X(j - 1)) * (s.Y(j) - s.Y(j - 1)) / (s.X(j) - s.X(j - 1))
    def _upto(s, j, t): return s.area(j - 1) + (t - s.X(j - 1)) * (s.Y(j - 1) + s.value(j, t)) / 2
    def upto(s, j, t):
        if s.v.bounded: return s._upto(j, t)
        return S(s.U(*s.of, lift(j)[0], toreal(*lift(t))), 'r')
    def define(s, j, *ts):
        "unfold the definitions at cell j (and at the points ts of it)"
        if s.v.bounded: return
        g = s.v.and_(j >= 1, j < s.nx)
        s.v.lemma('samples increase', s.v.implies(g, s.X(j - 1) < s.X(j)))
        s.v.assume(s.v.implies(g, s.area(j) == s.area(j - 1) + s.trap(j)))
        for t in ts: s.v.assume(s.v.implies(g, s.upto(j, t) == s._upto(j, t)))
    def increasing(s):
        return s.v.all((s.nx, s.nx), lambda a, b: s.v.implies(a < b, s.X(a) < s.X(b)))
    def cell_lo(s, a, t): return s.v.and_(a >= 1, a < s.nx, s.X(a - 1) <= t, t < s.X(a))
    def cell_hi(s, b, t): return s.v.and_(b >= 1, b < s.nx, s.X(b - 1) < t, t <= s.X(b))
    def integral(s, E, i, r):
        "r is the integral of the interpolation over bin i"
        v = s.v
        return v.all((s.nx, s.nx), lambda a, b: v.implies(v.and_(s.cell_lo(a, E(i)), s.cell_hi(b, E(i + 1))),
                                                         r == s.upto(b, E(i + 1)) - s.upto(a, E(i))))
    def average(s, E, i, r): return s.integral(E, i, r * (E(i + 1) - E(i)))

_G = {}
def g(): v = _G['v']; return (v,) + v.ghost
def outer(L):
    v, In, E, nb, P, Q = g(); i, j = L.i, L.j
    r = v.frozen(L.results)
    return [('bin counter in range', v.and_(i >= 0, i <= nb)),
            ('sample counter in range', v.and_(j >= 0, j < In.nx)),
            ('samples before are not beyond the edge', v.or_(j == 0, In.X(j - 1) <= E(i))),
            ('finished bins hold the integral', v.all(nb, lambda k: v.implies(k < i, P(k, r(k))))),
            ('later bins are empty', v.all(nb, lambda k: v.implies(k >= i, r(k) == 0)))]
def outer_hint(L):
    v, In, E, nb, P, Q = g(); i = L.i - 1; j = L.j
    a = v.c.ghost['a']; b = j + 1 if v.c.ghost.get('two') else j
    rv = v.el(L.results, i)
    v.lemma('cells of the two edges', v.and_(In.cell_lo(a, E(i)), In.cell_hi(b, E(i + 1))))
    In.define(a, E(i), E(i + 1)); In.define(b, E(i + 1))
    v.lemma('the sum is the integral', rv == In.upto(b, E(i + 1)) - In.upto(a, E(i)))
    P.fold('bin holds its integral', i, rv)
def seek(L):
    v, In, E, nb, P, Q = g(); i, j = L.i, L.j
    return [('sample counter in range', v.and_(j >= 0, j < In.nx)),
            ('samples before are not beyond the edge', v.or_(j == 0, In.X(j - 1) <= E(i)))]
def seek_exit(L):
    v, In, E, nb, P, Q = g(); i, j = L.i, L.j
    v.c.ghost['a'] = j
    v.lemma('cell of the lower edge', In.cell_lo(j, E(i)))
    In.define(j, E(i))
def interior(L):
    v, In, E, nb, P, Q = g(); i, j = L.i, L.j; a = v.c.ghost['a']
    r, old = v.frozen(L.results), L.old(L.results)
    return [('sample counter in range', v.and_(j >= a, j < In.nx)),
            ('sample inside the bin', In.X(j) < E(i + 1)),
            ('integral up to the sample', r(i) == In.area(j) - In.upto(a, E(i))),
            ('other bins untouched', v.all(nb, lambda k: v.implies(k != i, r(k) == old(k))))]
def interior_hint(L):
    v, In, E, nb, P, Q = g(); In.define(L.j)
def interior_exit(L):
    v = _G['v']; v.c.ghost['two'] = True
def scale(L):
    v, In, E, nb, P, Q = g(); r = v.frozen(L.results)
    return [('scaled bins hold the average', v.all(nb, lambda k: v.implies(k < L.k, Q(k, r(k))))),
            ('other bins hold the integral', v.all(nb, lambda k: v.implies(k >= L.k, P(k, r(k)))))]
def scale_hint(L):
    v, In, E, nb, P, Q = g(); k = L.k - 1; rv = v.el(L.results, k)
    w = E(k + 1) - E(k)
    v.lemma('bins have width', w > 0)
    v.lemma('average times width is the integral', rv * w == L.start(L.results)(k))
    Q.fold('average of the bin', k, rv)

SPEC_1D = {'_trapz_rebin_1d#0': dict(inv=outer, counter='i', hint=outer_hint, variant=lambda L: g()[3] - L.i),
           '_trapz_rebin_1d#1': dict(inv=seek, at_exit=seek_exit, variant=lambda L: g()[1].nx - L.j),
           '_trapz_rebin_1d#2': dict(inv=interior, hint=interior_hint, at_exit=interior_exit, variant=lambda L: g()[1].nx - L.j),
           '_trapz_rebin_1d#3': dict(inv=scale, counter='i', hint=scale_hint)}

def grids(v):
    nx, nb = v.size('nx', lo=2), v.size('nbin', lo=1)
    x, y, e = v.array('x', (nx,)), v.array('y', (nx,)), v.array('edges', (nb + 1,))
    In = Interp(v, x, y, nx); E = v.frozen(e)
    return nx, nb, x, y, e, In, E
def edges_ok(v, In, E, nb):
    "bins have width and lie inside the sampled range"
    return v.and_(v.all((nb + 1, nb + 1), lambda p, q: v.implies(p < q, E(p) < E(q))), In.X(0) <= E(0), E(nb) <= In.X(In.nx - 1))

@proof('C01', ['redrock.rebin._trapz_rebin_1d'], replay='rebin_one', specs=SPEC_1D, sizes=[dict(nx=2, nbin=1), dict(nx=2, nbin=2), dict(nx=3, nbin=1), dict(nx=3, nbin=2)], limit=400, feas_ms=100)
def rebin_1d(v):
    _G['v'] = v
    nx, nb, x, y, e, In, E = grids(v)
    v.require(In.increasing()); v.require(edges_ok(v, In, E, nb))
    res = v.np().zeros(nb)
    P = v.opaque('integral', lambda i, r: In.integral(E, i, r), 'ir')
    Q = v.opaque('average', lambda i, r: P(i, r * (E(i + 1) - E(i))), 'ir')
    v.ghost = (In, E, nb, P, Q)
    v.call(v.mod('rebin')._trapz_rebin_1d, x, y, e, res)
    i = v.arb('i', nb); r = v.el(res, i)
    v.lemma('the bin holds its average', Q(i, r)); Q.unfold(i, r)
    v.lemma('and so its integral', P(i, r * (E(i + 1) - E(i)))); P.unfold(i, r * (E(i + 1) - E(i)))
    v.ensure('every bin holds the average of the interpolation', In.average(E, i, r))
    a = v.arb('p', nx); q = v.arb('q', nb + 1)
    v.ensure('template and edges unchanged', v.and_(v.el(x, a) == In.X(a), v.el(y, a) == In.Y(a), v.el(e, q) == E(q)))

# ---- several redshifts and basis vectors
class Batch:
    def __init__(s, v, x, y, z, nx, nb, nbasis, nz, E, tag=''):
        s.v, s.nx, s.nb, s.nbasis, s.nz, s.E = v, nx, nb, nbasis, nz, E
        s.x, s.y, s.z = v.frozen(x), (y if callable(y) else v.frozen(y)), (z if callable(z) else v.frozen(z))
        s.P = v.opaque('average' + tag, lambda iz, ib, i, r: s.one(iz, ib).average(E, i, r), 'iiir')
    def X(s, iz): return lambda a: s.x(a) * (1 + s.z(iz))
    def one(s, iz, ib): return Interp(s.v, s.X(iz), lambda a: s.y(ib, a), s.nx, (iz, ib))
    def increasing(s): return s.v.all((s.nx, s.nx), lambda a, b: s.v.implies(a < b, s.x(a) < s.x(b)))
    def covered(s):
        "every bin lies inside the redshifted range, for every redshift"
        return s.v.all(s.nz, lambda q: s.v.and_(s.X(q)(0) <= s.E(0), s.E(s.nb) <= s.X(q)(s.nx - 1)))
    def holds(s, r): return s.v.all((s.nz, s.nbasis, s.nb), lambda iz, ib, i: s.P(iz, ib, i, r(iz, i, ib)))

def contract_1d(v, B):
    "contract of _trapz_rebin_1d (proof rebin_1d), applied to one column of the result"
    def rebin_1d(x, y, edges, results):
        c = v.c
        free = [d for d in results.axes if d[0] == 'fix']
        v.lemma('bin average: lengths agree', v.and_(x.shape[0] == B.nx, y.shape[0] == B.nx, edges.shape[0] == B.nb + 1, results.shape[0] == B.nb))
        xf, yf, ef, rf = v.frozen(x), v.frozen(y), v.frozen(edges), v.frozen(results)
        v.forall_lemma('bin average: samples increase', (B.nx, B.nx), lambda a, b: v.implies(a < b, xf(a) < xf(b)))
        v.lemma('bin average: bins have width', v.all((B.nb + 1, B.nb + 1), lambda p, q: v.implies(p < q, ef(p) < ef(q))))
        v.lemma('bin average: bins inside the samples', v.and_(xf(0) <= ef(0), ef(B.nb) <= xf(B.nx - 1)))
        v.lemma('bin average: result starts at zero', v.all(B.nb, lambda i: rf(i) == 0))
        if len(free) == 2: iz, ib = S(free[0][1], 'i') if z3.is_expr(free[0][1]) else free[0][1], S(free[1][1], 'i') if z3.is_expr(free[1][1]) else free[1][1]
        elif len(free) == 0: iz = ib = 0
        else: raise Unsupported('result column of the rebinning')
        v.forall_lemma('bin average: template redshifted by its own redshift', B.nx, lambda a: xf(a) == B.X(iz)(a))
        v.forall_lemma('bin average: basis vector of its own column', B.nx, lambda a: yf(a) == B.y(ib, a))
        v.forall_lemma('bin average: edges are the requested ones', B.nb + 1, lambda a: ef(a) == B.E(a))
        h = v.function('average', 'i')
        v.write(results, h)
        v.assume(v.all(B.nb, lambda i: B.P(iz, ib, i, h(i))))
    v.contract('rebin', '_trapz_rebin_1d', rebin_1d)

def zloop(L):
    v = _G['v']; B = v.ghost; r = v.frozen(L.results); iz = L.iz
    return [('redshift counter in range', v.and_(iz >= 0, iz <= B.nz)),
            ('finished redshifts hold their averages', v.all((B.nz, B.nbasis, B.nb), lambda z, b, i: v.implies(z < iz, B.P(z, b, i, r(z, i, b))))),
            ('later redshifts are empty', v.all((B.nz, B.nbasis, B.nb), lambda z, b, i: v.implies(z >= iz, r(z, i, b) == 0)))]
def xloop(L):
    v = _G['v']; B = v.ghost; rx = v.frozen(L.redshifted_x)
    return [('redshifted so far', v.all(B.nx, lambda a: v.implies(a < L.k, rx(a) == B.X(L.iz)(a))))]
def bloop(L):
    v = _G['v']; B = v.ghost; r = v.frozen(L.results); iz, ib = L.iz, L.ibasis
    done = lambda z, b: v.or_(z < iz, v.and_(z == iz, b < ib))
    return [('basis counter in range', v.and_(ib >= 0, ib <= B.nbasis)),
            ('finished columns hold their averages', v.all((B.nz, B.nbasis, B.nb), lambda z, b, i: v.implies(done(z, b), B.P(z, b, i, r(z, i, b))))),
            ('later columns are empty', v.all((B.nz, B.nbasis, B.nb), lambda z, b, i: v.implies(v.not_(done(z, b)), r(z, i, b) == 0)))]
SPEC_B = dict(SPEC_1D)
SPEC_B.update({'_trapz_rebin_batch#0': dict(inv=zloop, counter='iz', variant=lambda L: _G['v'].ghost.nz - L.iz), '_trapz_rebin_batch#1': dict(inv=xloop, counter='i'),
               '_trapz_rebin_batch#2': dict(inv=bloop, counter='ibasis', variant=lambda L: _G['v'].ghost.nbasis - L.ibasis)})

def batch_setup(v):
    _G['v'] = v
    nx, nb, nbasis, nz = v.size('nx', lo=2), v.size('nbin', lo=1), v.size('nbasis', lo=1), v.size('nz', lo=1)
    x, y, e, z = v.array('x', (nx,)), v.array('y', (nbasis, nx)), v.array('edges', (nb + 1,)), v.array('z', (nz,))
    E = v.frozen(e)
    B = Batch(v, x, y, z, nx, nb, nbasis, nz, E); v.ghost = B
    v.require(v.all(nz, lambda q: B.z(q) > -1)); v.require(B.increasing()); 
    v.require(v.all((nb + 1, nb + 1), lambda p, q: v.implies(p < q, E(p) < E(q))))
    return B, x, y, z, e, E

@proof('C01', ['redrock.rebin._trapz_rebin_batch'], replay='rebin_batch', specs=SPEC_B, sizes=[dict(nx=2, nbin=1, nbasis=1, nz=1), dict(nx=2, nbin=1, nbasis=2, nz=2)])
def rebin_batch(v):
    B, x, y, z, e, E = batch_setup(v)
    v.require(B.covered())
    contract_1d(v, B)
    res = v.np().zeros((B.nz, B.nb, B.nbasis)); rx = v.np().zeros(B.nx)
    v.call(v.mod('rebin')._trapz_rebin_batch, x, y, e, z, res, rx)
    iz, ib, i = v.arb('iz', B.nz), v.arb('ib', B.nbasis), v.arb('i', B.nb)
    v.ensure('every entry is the average of its own redshift and basis vector', B.P(iz, ib, i, v.el(res, iz, i, ib)))

def contract_batch(v, B, pick=None):
    "contract of _trapz_rebin_batch (proof rebin_batch)"
    B0 = B
    def batch(x, y, edges, myz, results, redshifted_x):
        B = pick(edges) if pick else B0
        v.lemma('batch: lengths agree', v.and_(x.shape[0] == B.nx, y.shape[1] == B.nx, y.shape[0] == B.nbasis, edges.shape[0] == B.nb + 1, myz.shape[0] == B.nz,
                                               results.shape[0] == B.nz, results.shape[1] == B.nb, results.shape[2] == B.nbasis, redshifted_x.shape[0] == B.nx))
        xf, yf, ef, zf, rf = [v.frozen(q) for q in (x, y, edges, myz, results)]
        v.forall_lemma('batch: same template wavelengths', B.nx, lambda a: xf(a) == B.x(a))
        v.forall_lemma('batch: same basis vectors', (B.nbasis, B.nx), lambda b, a: yf(b, a) == B.y(b, a))
        v.forall_lemma('batch: same redshifts', B.nz, lambda a: zf(a) == B.z(a))
        v.forall_lemma('batch: same edges', B.nb + 1, lambda a: ef(a) == B.E(a))
        v.forall_lemma('batch: every bin inside the redshifted range', B.nz, lambda q: v.and_(B.X(q)(0) <= B.E(0), B.E(B.nb) <= B.X(q)(B.nx - 1)))
        v.forall_lemma('batch: result starts at zero', (B.nz, B.nb, B.nbasis), lambda p, q, r: rf(p, q, r) == 0)
        h = v.function('average', 'iii')
        v.write(results, h)
        v.assume(v.all((B.nz, B.nbasis, B.nb), lambda iz, ib, i: B.P(iz, ib, i, h(iz, i, ib))))
    v.contract('rebin', '_trapz_rebin_batch', batch)

def _call(v, zmode, ydim, limits=False):
    _G['v'] = v
    nx, nb = v.size('nx', lo=2), v.size('nbin', lo=1)
    nz = v.size('nz', lo=1) if zmode == 'array' else 1
    nbasis = v.size('nbasis', lo=1) if ydim == 2 else 1
    x = v.array('x', (nx,)); y = v.array('y', (nbasis, nx) if ydim == 2 else (nx,)); e = v.array('edges', (nb + 1,))
    E = v.frozen(e); Y = v.frozen(y); X = v.frozen(x)
    if zmode == 'array': z = v.array('z', (nz,)); Z = v.frozen(z)
    elif zmode == 'scalar': z = v.real('z'); Z = lambda q: z
    else: z = None; Z = lambda q: S(z3.RealVal(0), 'r')
    B = Batch(v, x, Y if ydim == 2 else (lambda b, a: Y(a)), Z, nx, nb, nbasis, nz, E); v.ghost = B
    v.require(v.all(nz, lambda q: B.z(q) > -1)); v.require(B.increasing()); v.require(X(0) >= 0)
    v.require(v.all((nb + 1, nb + 1), lambda p, q: v.implies(p < q, E(p) < E(q))))
    contract_1d(v, B); contract_batch(v, B)
    kw = dict(edge_min=E(0), edge_max=E(nb)) if limits else {}
    r, exc = v.call_exc(v.mod('rebin').trapz_rebin, x, y, edges=e, myz=z, **kw)
    outside = lambda q: v.or_(E(0) < B.X(q)(0), E(nb) > B.X(q)(nx - 1))
    if exc is not None:
        v.ensure('the only exception is ValueError', isinstance(exc, ValueError))
        v.ensure('rejected only when a bin reaches outside for some redshift', v.any(nz, outside)); return
    q = v.arb('q', nz)
    v.ensure('accepted only when every bin lies inside for every redshift', v.not_(outside(q)))
    iz, ib, i = v.arb('iz', nz), v.arb('ib', nbasis), v.arb('i', nb)
    want = ((nz,) if zmode == 'array' else ()) + (nb,) + ((nbasis,) if ydim == 2 else ())
    v.ensure('one axis per redshift, bin and basis vector', len(r.shape) == len(want) and v.and_(*[a == b for a, b in zip(r.shape, want)]))
    idx = ((iz,) if zmode == 'array' else ()) + (i,) + ((ib,) if ydim == 2 else ())
    v.ensure('every entry is the average of its own redshift and basis vector', B.P(iz, ib, i, v.el(r, *idx)))
    a = v.arb('a', nx); p = v.arb('p', nb + 1)
    v.ensure('wavelengths and edges unchanged', v.and_(v.el(x, a) == X(a), v.el(e, p) == E(p)))
    v.ensure('fluxes unchanged', (v.el(y, ib, a) == Y(ib, a)) if ydim == 2 else (v.el(y, a) == Y(a)))
    if zmode == 'array': v.ensure('redshifts unchanged', v.el(z, iz) == Z(iz))

_FN = ['redrock.rebin.trapz_rebin']
_SZ1, _SZ2 = [dict(nx=2, nbin=1)], [dict(nx=2, nbin=1, nz=1, nbasis=1), dict(nx=2, nbin=1, nz=2, nbasis=2)]
@proof('C01', _FN, replay='rebin_one', specs=SPEC_B, sizes=_SZ1)
def trapz_no_redshift(v): _call(v, 'none', 1)
@proof('C01', _FN, replay='rebin_batch', specs=SPEC_B, sizes=_SZ1)
def trapz_one_redshift(v): _call(v, 'scalar', 1)
@proof('C01', _FN, replay='rebin_batch', specs=SPEC_B, sizes=_SZ2)
def trapz_one_redshift_bases(v): _call(v, 'scalar', 2)
@proof('C01', _FN, replay='rebin_batch', specs=SPEC_B, sizes=_SZ2)
def trapz_redshifts(v): _call(v, 'array', 1)
@proof('C01', _FN, replay='rebin_batch', specs=SPEC_B, sizes=_SZ2)
def trapz_redshifts_bases(v): _call(v, 'array', 2)
@proof('C01', _FN, replay='rebin_batch', specs=SPEC_B, sizes=_SZ2)
def trapz_edge_limits(v): _call(v, 'array', 2, True)

@proof('C01', ['redrock.rebin.centers2edges'], replay='centers2edges', sizes=[dict(n=2), dict(n=3), dict(n=4)])
def centres(v):
    n = v.size('n', lo=2); c = v.array('centers', (n,)); C = v.frozen(c)
    e = v.call(v.mod('rebin').centers2edges, c)
    v.ensure('one more edge than centres', v.and_(len(e.shape) == 1, e.shape[0] == n + 1))
    i = v.arb('i', n + 1); E = lambda q: v.el(e, q)
    v.ensure('edges midway between neighbouring centres', v.implies(v.and_(i >= 1, i < n), E(i) == (C(i - 1) + C(i)) / 2))
    v.ensure('first bin symmetric', C(0) - E(0) == E(1) - C(0))
    v.ensure('last bin symmetric', C(n - 1) - E(n - 1) == E(n) - C(n - 1))
    a = v.arb('a', n)
    v.ensure('centres unchanged', v.el(c, a) == C(a))

# ---- a template on several wavelength grids
class Tmpl:
    "what rebin_template reads of a template (Template.__init__: minwave, maxwave are the end points)"
    gpuwave = None
    def __init__(s, wave, flux): s.wave, s.flux, s.minwave, s.maxwave = wave, flux, wave[0], wave[-1]

def _template(v, how):
    _G['v'] = v
    nx, nz, nbasis = v.size('nx', lo=2), v.size('nz', lo=1), v.size('nbasis', lo=1)
    n = {g: v.size('nbin_' + g, lo=2) for g in ('b', 'r')}
    x, y, z = v.array('x', (nx,)), v.array('y', (nbasis, nx)), v.array('z', (nz,))
    X, Y, Z = v.frozen(x), v.frozen(y), v.frozen(z)
    v.require(v.all((nx, nx), lambda a, b: v.implies(a < b, X(a) < X(b)))); v.require(X(0) >= 0); v.require(v.all(nz, lambda q: Z(q) > -1))
    Bs, arg, lim = {}, {}, {}
    for g in n:
        if how == 'dwave':
            w = v.array('wave_' + g, (n[g],)); W = v.frozen(w)
            E = (lambda W, m: lambda k: v.ite(k == 0, (3 * W(0) - W(1)) / 2, v.ite(k == m, (3 * W(m - 1) - W(m - 2)) / 2, (W(k - 1) + W(k)) / 2)))(W, n[g])
            v.require(v.all((n[g], n[g]), lambda a, b: v.implies(a < b, W(a) < W(b))))
            arg[g] = w
        else:
            e = v.array('edges_' + g, (n[g] + 1,)); E = v.frozen(e); arg[g] = (e, E(0), E(n[g])) if g == 'r' else e
            v.require(v.all((n[g] + 1, n[g] + 1), lambda a, b: v.implies(a < b, E(a) < E(b))))
        Bs[g] = Batch(v, x, y, z, nx, n[g], nbasis, nz, E, '_' + g)
    order = list(Bs.values())
    def pick(edges): return order.pop(0)
    contract_batch(v, None, pick)
    t = Tmpl(x, y)
    r, exc = v.call_exc(v.mod('rebin').rebin_template, t, z, **{how: arg})
    outside = lambda B, q: v.or_(B.E(0) < B.X(q)(0), B.E(B.nb) > B.X(q)(nx - 1))
    if exc is not None:
        v.ensure('the only exception is ValueError', isinstance(exc, ValueError))
        v.ensure('rejected only when a bin of some grid reaches outside for some redshift', v.or_(*[v.any(nz, lambda q: outside(B, q)) for B in Bs.values()])); return
    v.ensure('one result per wavelength grid', set(r) == set(n))
    q, iz, ib = v.arb('q', nz), v.arb('iz', nz), v.arb('ib', nbasis)
    for g, B in Bs.items():
        i = v.arb('i', n[g])
        v.ensure('accepted only when every bin lies inside for every redshift', v.not_(outside(B, q)))
        v.ensure('axes are redshift, bin, basis vector', v.and_(r[g].shape[0] == nz, r[g].shape[1] == n[g], r[g].shape[2] == nbasis))
        v.ensure('every entry is the average of its own redshift and basis vector', B.P(iz, ib, i, v.el(r[g], iz, i, ib)))

@proof('C01', ['redrock.rebin.rebin_template'], sizes=[])
def template_centres(v): _template(v, 'dwave')
@proof('C01', ['redrock.rebin.rebin_template'], sizes=[])
def template_edges(v): _template(v, 'dedges')
