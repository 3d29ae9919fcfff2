"""C19: [OII] penalty and reduced wavelength"""
from .base import *
def gen_oii(rng, k):
    nz, nb, nw = int(rng.integers(1, 8)), int(rng.integers(1, 7)), int(rng.integers(0, 12)) if k % 5 else int(rng.integers(0, 2))
    T = rng.normal(size=(nb, nw)); c = rng.normal(size=(nz, nb)) * 10 ** rng.uniform(-4, 4)
    if k % 7 == 0: c[int(rng.integers(0, nz))] = 0
    if k % 6 == 1: T = np.abs(T); c = np.abs(c)
    return dict(T=T, c=c)
@contract('C19', ['zscan.calc_negOII_penalty'], gen_oii, quick=500, thorough=10000)
def penalty(inp, req):
    from redrock.zscan import calc_negOII_penalty
    kT, kc = inp['T'].copy(), inp['c'].copy()
    p = np.asarray(calc_negOII_penalty(inp['T'], inp['c'])); req(same(kT, inp['T']) and same(kc, inp['c']), 'inputs unchanged')
    f = np.einsum('zb,bw->z', inp['c'], inp['T']); sc = np.abs(inp['c']) @ np.abs(inp['T']).sum(1) + 1e-300
    if not req(p.shape == (len(inp['c']),), 'one penalty per redshift', p.shape): return
    for i in range(len(f)):
        req(p[i] >= 0, 'never negative', p[i])
        if f[i] > 1e-12 * sc[i] or not np.any(inp['c'][i]): req(p[i] == 0, 'zero when the emission is not negative', (f[i], p[i]))
        if f[i] < 0: req(abs(p[i] + f[i]) <= 1e-11 * sc[i], 'absolute value of negative emission', (f[i], p[i]))

def gen_scan(rng, k):
    from .build import template_spec
    sp = ['GALAXY', 'GALAXY', 'QSO', 'STAR'][k % 4]; m = ['PCA', 'NMF', 'PCA', 'PCA'][k % 4] if k % 3 else 'PCA'
    t = template_spec(rng, sp, '', nbasis=int(rng.integers(1, 4)), zs=[0., .1, .2], lo=3500., hi=4000., n=int(rng.integers(30, 400)), method=m)
    return dict(t=t, c=rng.normal(size=(3, len(t['flux']))))
@contract('C19', ['templates.Template.__init__', 'zscan.calc_negOII_penalty'], gen_scan, quick=100, thorough=2000)
def cutout(inp, req):
    "only PCA galaxies have an [OII] cut-out, and it covers the doublet"
    from .build import make_template
    from redrock.zscan import calc_negOII_penalty
    t = make_template(inp['t']); w = inp['t']['wave']
    has = inp['t']['spectype'] == 'GALAXY' and inp['t']['method'] == 'PCA'
    if not req(hasattr(t, 'OIItemplate') == has, 'cut-out only for PCA galaxies') or not has: return
    sel = (w >= 3724) & (w <= 3733)
    req(close(t.OIItemplate, inp['t']['flux'][:, sel]), 'the cut-out is the template around [OII]')
    f = (inp['c'] @ inp['t']['flux'][:, sel]).sum(1)
    req(close(calc_negOII_penalty(t.OIItemplate, inp['c']), np.where(f < 0, -f, 0)), 'penalty of the model emission')

def gen_rw(rng, k):
    n = int(rng.integers(2, 60)); w = rng.uniform(-1e4, 1e4, size=n) * 10 ** rng.uniform(-3, 1)
    if k % 2: w = np.sort(np.abs(w))
    if k % 9 == 3: w[:] = w[0]; w[-1] += abs(w[0]) * 1e-3 + 1
    return dict(w=w)
@contract('C19', ['utils.reduced_wavelength', 'targets.Target.legendre'], gen_rw, quick=500, thorough=10000)
def reduced(inp, req):
    from redrock.utils import reduced_wavelength
    w = inp['w']; kw = w.copy(); r = reduced_wavelength(w); lo, hi = w.min(), w.max()
    if lo == hi: raise Skip
    req(same(w, kw), 'input unchanged')
    req(np.all(r[w == lo] == -1), '-1 at the shortest'); req(np.all(np.abs(r[w == hi] - 1) < 1e-15), '+1 at the longest')
    req(np.all(np.abs(r) <= 1 + 1e-15), 'within [-1, 1]')
    req(close(r, -1 + 2 * (w - lo) / (hi - lo), rtol=1e-9, atol=1e-9), 'linear in between')
def gen_leg(rng, k):
    from .archbuild import cameras, archetype_spec
    a = archetype_spec(rng, narch=1); sp, z, i = cameras(rng, k, a); return dict(sp=sp, n=[int(x) for x in rng.integers(0, 5, size=3)])
@contract('C19', ['targets.Target.legendre', 'utils.reduced_wavelength'], gen_leg, quick=100, thorough=2000)
def legendre(inp, req):
    from .archbuild import legpoly, make_target
    tg = make_target(dict(id=1, spectra=inp['sp']))
    for n in inp['n']:
        l = tg.legendre(n)
        req(set(l) == {s.wavehash for s in tg.spectra}, 'one set of polynomials per grid')
        for s in tg.spectra: req(l[s.wavehash].shape[0] == n and (n == 0 or close(l[s.wavehash], legpoly(s.wave, n), 1e-9, 1e-9)), 'Legendre polynomials of the reduced wavelength')
