"""C11: coaddition"""
from vc.prove import *
from vc.sparse import Dia, Csr
class G: pass
CUR = [None]
class Exposure:
    "a spectrum before the coadd (what compute_coadd reads of it)"
    def __init__(s, **k): s.__dict__.update(k)

def _spectra(v, order, equal=()):
    """exposures of the grids named in order; grids in `equal` have fully measured exposures with the same fluxes"""
    g = G(); g.sp = []; g.n = {}; g.nd = {}
    for k in sorted(set(order)):
        g.n[k] = v.size('n' + k, lo=4); g.nd[k] = v.size('nd' + k, lo=1)
    for e, k in enumerate(order):
        n, nd = g.n[k], g.nd[k]
        iv = v.array('ivar%d' % e, (n,)); f = v.array('flux' + k if k in equal else 'flux%d' % e, (n,))
        IV = v.frozen(iv); v.require(v.all(n, lambda i: (IV(i) > 0) if k in equal else (IV(i) >= 0)))
        R = Dia((v.array('R%d' % e, (nd, n)), v.array('off' + k, (nd,), 'i')), (zi(n), zi(n)))
        x = Exposure(wave=v.array('wave' + k, (n,)), flux=f, ivar=iv, R=R, band='band ' + k, wavehash='grid ' + k)
        x.F = {a: v.frozen(b) for a, b in (('wave', x.wave), ('flux', f), ('ivar', iv), ('data', R.data), ('offsets', R.offsets))}
        g.sp.append(x)
    g.order = order
    return g

def _check(v, g, t, weight):
    "weight(e, i): weight of pixel i of exposure e in the coadd"
    groups = list(dict.fromkeys(g.order))
    v.ensure('one spectrum per distinct grid', isinstance(t.spectra, list) and len(t.spectra) == len(groups))
    for s, k in zip(t.spectra, groups):
        ex = [e for e, kk in enumerate(g.order) if kk == k]; n, nd = g.n[k], g.nd[k]; first = g.sp[ex[0]]
        v.ensure('grids keep the order of first appearance', v.and_(s.wave.ndim == 1, s.wave.shape[0] == n, s.flux.shape[0] == n, s.ivar.shape[0] == n))
        v.ensure('the coadd belongs to the camera of its exposures', s.band == 'band ' + k and s.wavehash == 'band ' + k)
        i = v.arb('i', n); d = v.arb('d', nd)
        v.ensure('the grid is the one of the exposures', v.el(s.wave, i) == first.F['wave'](i))
        tot = 0; wf = 0; un = 0; rd = 0
        for e in ex:
            F = g.sp[e].F; w = weight(e, i)
            tot, wf, un, rd = tot + w, wf + w * F['flux'](i), un + F['flux'](i), rd + w * F['data'](d, i)
        v.ensure('resolution diagonals keep their offsets', v.and_(isinstance(s.R, Dia), s.R.data.shape[0] == nd, s.R.data.shape[1] == n, S(zi(s.R._sh[0])) == n, S(zi(s.R._sh[1])) == n, v.el(s.R.offsets, d) == first.F['offsets'](d)))
        rowsum = S(s.R.rowsum(zi(i)))
        v.ensure('weight is the sum of the weights, or zero where the resolution is incomplete', v.el(s.ivar, i) == v.ite(rowsum < 0.99, 0, tot))
        v.ensure('flux is the inverse-variance weighted mean', v.implies(tot > 0, v.el(s.flux, i) * tot == wf))
        v.ensure('flux is the plain mean where all weights are zero', v.implies(tot == 0, v.el(s.flux, i) * len(ex) == un))
        v.ensure('resolution is combined with the same weights', v.implies(tot > 0, v.el(s.R.data, d, i) * tot == rd))
    v.ensure('bands list the coadded spectra', list(t.bands) == ['band ' + k for k in groups])
    for e, x in enumerate(g.sp):
        n = g.n[g.order[e]]; i = v.arb('i', n); d = v.arb('d', g.nd[g.order[e]])
        v.ensure('the exposures themselves are not changed', v.and_(v.el(x.wave, i) == x.F['wave'](i), v.el(x.flux, i) == x.F['flux'](i), v.el(x.ivar, i) == x.F['ivar'](i), v.el(x.R.data, d, i) == x.F['data'](d, i)))

_FS = ['redrock.targets.Target.compute_coadd', 'redrock.targets.Target.__init__', 'redrock.targets.Target._set_bands', 'redrock.targets.Spectrum.__init__']
def _plain(v, order, cache=False, direct=False):
    g = _spectra(v, order); T = v.mod('targets').Target
    if direct: t = v.call(T, 7, list(g.sp), coadd=True)
    else:
        t = v.call(T, 7, list(g.sp)); v.call(t.compute_coadd, cache_Rcsr=cache)
    _check(v, g, t, lambda e, i: g.sp[e].F['ivar'](i))
    if cache:
        for s in t.spectra:
            src = getattr(s._Rcsr, 'source', None); v.ensure('cached resolution is the coadded one', isinstance(src, Dia))
            i, d = v.arb('i', S(zi(s.R.data._shape[1]))), v.arb('d', S(zi(s.R.data._shape[0])))
            v.ensure('cached resolution is the coadded one', v.el(src.data, d, i) == v.el(s.R.data, d, i))
@proof('C11', _FS)
def one_exposure(v): _plain(v, 'b')
@proof('C11', _FS)
def two_exposures(v): _plain(v, 'bb', cache=True)
@proof('C11', _FS)
def two_grids(v): _plain(v, 'zbzb', direct=True)
@proof('C11', _FS)
def three_grids(v): _plain(v, 'rzbzr')

# ---------------------------------------------------------------- cosmic rejection
def _exposures(g, key):
    return [e for e, x in enumerate(g.sp) if x.wavehash == key]
def _cosmics_inv(L):
    v, g = CUR[0]; ex = _exposures(g, L.key); new = v.frozen(L.ivar); chi = v.frozen(L.chi2); n = g.n[g.order[ex[0]]]; jj = v.frozen(L.jj)
    F = [g.sp[e].F['ivar'] for e in ex]
    def ok(i):
        kept = [new(r, i) == f(i) for r, f in enumerate(F)]
        cut = [v.and_(new(r, i) == 0, *[kept[q] for q in range(len(F)) if q != r]) for r in range(len(F))]
        return v.or_(v.and_(*kept), v.and_(chi(i) > g.nsig ** 2, v.or_(*cut)))
    return [('only the weight of one exposure is set to zero, at pixels where the exposures disagree', v.all(n, ok)),
            ('pixels still to be treated are unchanged', v.all(L.n, lambda q: v.implies(q >= L.k, v.and_(*[new(r, jj(q)) == f(jj(q)) for r, f in enumerate(F)]))))]
def _cosmics_exit(L):
    v, g = CUR[0]; ex = _exposures(g, L.key); new = v.frozen(L.ivar); chi = v.frozen(L.chi2); grad = v.frozen(L.grad); gv = v.frozen(L.gradivar)
    g.used[L.key] = (new, chi, grad, gv, L.grad.shape[0])
def _cosmics(v, order, equal=()):
    g = _spectra(v, order, equal); g.nsig = v.real('nsig', pos=True); g.used = {}; CUR[0] = (v, g)
    T = v.mod('targets').Target
    t = v.call(T, 7, list(g.sp)); v.call(t.compute_coadd, cosmics_nsig=g.nsig)
    def weight(e, i):
        key = g.sp[e].wavehash
        if key not in g.used: return g.sp[e].F['ivar'](i)
        return g.used[key][0](_exposures(g, key).index(e), i)
    for k in dict.fromkeys(order):
        key = 'grid ' + k
        if key not in g.used: continue
        new, chi, grad, gv, ng = g.used[key]; i = v.arb('i', g.n[k]); ex = _exposures(g, key)
        v.ensure('compared exposures are exposures of the grid', ng <= len(ex))
        kept = v.and_(*[new(r, i) == g.sp[e].F['ivar'](i) for r, e in enumerate(ex)])
        if len(ex) == 2 or k in equal:
            v.lemma('gradients have positive weight', v.and_(*[gv(r, i) > 0 for r in range(ng)]))
            same = v.and_(*[grad(r, i) == grad(0, i) for r in range(1, ng)])
            v.lemma('agreeing gradients have no chi2', v.implies(same, chi(i) == 0))
            v.ensure('pixels where the gradients of the exposures agree are not masked', v.implies(same, kept))
        if k in equal: v.ensure('fully measured exposures that agree are never masked', kept)
    _check(v, g, t, weight)
_CS = {'Target.compute_coadd': dict(define=8), 'Target.compute_coadd#3': dict(inv=_cosmics_inv, at_exit=_cosmics_exit)}
@proof('C11', _FS, specs=_CS)
def cosmics_two(v): _cosmics(v, 'bb')
@proof('C11', _FS, specs=_CS)
def cosmics_agree(v): _cosmics(v, 'bb', equal='b')
@proof('C11', _FS, specs=_CS)
def cosmics_agree_three(v): _cosmics(v, 'bbb', equal='b')
@proof('C11', _FS, specs=_CS)
def cosmics_grids(v): _cosmics(v, 'brb')
