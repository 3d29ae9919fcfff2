"""C11: coaddition"""
import itertools
from .base import *
from .build import *
from .oracle import *

def gen_coadd(rng, k):
    ngrid = int(rng.integers(1, 4)); named = rng.random() < .5
    cos = [0., 0., 4., 10.][k % 4]
    sps = []
    order = []
    for g in range(ngrid):
        n = int(rng.integers(5, 30)); wave = np.sort(3600 + 1500 * g + np.cumsum(rng.uniform(.5, 1.5, size=n)))
        ne = int(rng.integers(1, 5)); truth = rng.normal(size=n) * 3; nd = int(rng.choice([1, 3, 5]))
        agree = rng.random() < .3
        for e in range(ne):
            iv = rng.uniform(.2, 3, size=n)
            if not agree:
                iv[rng.random(n) < rng.choice([0, .1, .5])] = 0
                if rng.random() < .1: iv[:] = 0
            f = truth.copy()
            if not agree:
                f = f + rng.normal(size=n)
                if rng.random() < .4: f[int(rng.integers(0, n))] += 10 ** rng.uniform(1, 4)
            if rng.random() < .1: f[rng.random(n) < .1] *= -1e4
            sps.append(dict(wave=wave, flux=f, ivar=iv, R=resolution(rng, n, ndiag=nd), band='zbr'[g] if named else None, csr=bool(rng.random() < .3)))
            order.append(g)
    p = rng.permutation(len(sps)) if rng.random() < .7 else np.arange(len(sps))
    return dict(id=1, spectra=[sps[i] for i in p], groups=[order[i] for i in p], cos=cos, cache=bool(rng.random() < .3), route=int(rng.integers(0, 2)))

def _gradstat(fl, iv, wave):
    "gradient chi2 of the exposures that have good pixels, per pixel (NaN when fewer than two)"
    G, V = [], []
    for f, w in zip(fl, iv):
        good = w > 0
        if not good.any(): continue
        f2 = np.where(good, f, np.interp(wave, wave[good], f[good])); w2 = np.where(good, w, np.interp(wave, wave[good], w[good]))
        w2 = np.where(w2 > 0, w2, w2[w2 > 0].min())
        G.append(np.concatenate(([0], np.diff(f2)))); v = 1 / w2; V.append(np.concatenate((v[:1], v[1:] + v[:-1])))
    if len(G) < 2: return None
    G, I = np.array(G), 1 / np.array(V)
    m = (I * G).sum(0) / I.sum(0)
    return (I * (G - m) ** 2).sum(0) / (len(G) - 1)

@contract('C11', ['targets.Target.compute_coadd', 'targets.Target.__init__'], gen_coadd, quick=250, thorough=6000)
def coadd(inp, req):
    from redrock.targets import Target
    sp = [make_spectrum(s) for s in inp['spectra']]
    before = [(s.wave.copy(), s.flux.copy(), s.ivar.copy(), s.R.data.copy(), s.R.offsets.copy(), s.band) for s in sp]
    if inp['route']:
        t = Target(7, list(sp), coadd=True, cosmics_nsig=inp['cos'])
    else:
        t = Target(7, list(sp)); t.compute_coadd(cache_Rcsr=inp['cache'], cosmics_nsig=inp['cos'])
    for s, b in zip(sp, before):
        req(same(s.wave, b[0]) and same(s.flux, b[1]) and same(s.ivar, b[2]) and same(s.R.data, b[3]) and same(s.R.offsets, b[4]), 'the exposures themselves are not changed')
    groups = list(dict.fromkeys(inp['groups']))
    if not req(len(t.spectra) == len(groups), 'one spectrum per distinct grid', (len(t.spectra), len(groups))): return
    for c, g in zip(t.spectra, groups):
        ex = [b for b, gg in zip(before, inp['groups']) if gg == g]
        if not req(same(c.wave, ex[0][0]), 'grids keep the order of first appearance'): continue
        req(c.band == ex[0][5], 'the coadd belongs to the camera of its exposures')
        F = np.array([e[1] for e in ex]); W = np.array([e[2] for e in ex]); RD = np.array([e[3] for e in ex])
        req(same(np.asarray(c.R.offsets), ex[0][4]), 'resolution diagonals keep their offsets')
        rowsum = dense(c.R).sum(1)
        stat = _gradstat(F, W, ex[0][0]) if inp['cos'] > 0 else None
        edge = (rowsum > .99 - 1e-9) & (rowsum < .99 + 1e-9)
        for j in range(len(c.wave)):
            may = stat is not None and stat[j] > inp['cos'] ** 2 * (1 - 1e-9)
            opts = [[]] if not may else [list(s) for m in range(len(ex)) for s in itertools.combinations(range(len(ex)), m)]
            ok = {'w': False, 'f': False, 'r': False}; best = -1
            for drop in opts:
                w = W[:, j].copy(); w[drop] = 0; tot = w.sum()
                f = (w * F[:, j]).sum() / tot if tot > 0 else F[:, j].mean()
                r = (RD[:, :, j] * w[:, None]).sum(0) / tot if tot > 0 else None
                sc = 1e-9 * (1 + np.abs(F[:, j]).max())
                o = {'w': close(c.ivar[j], tot) or (c.ivar[j] == 0 and (rowsum[j] < .99 or edge[j])),
                     'f': abs(c.flux[j] - f) <= sc, 'r': r is None or close(c.R.data[:, j], r, atol=1e-10)}
                if rowsum[j] < .99 - 1e-9: o['w'] = o['w'] and c.ivar[j] == 0
                if sum(o.values()) > best: best = sum(o.values()); ok = o
                if best == 3: break
            d = 'grid %r pixel %d weights %r fluxes %r got flux %r weight %r' % (g, j, W[:, j].tolist(), F[:, j].tolist(), float(c.flux[j]), float(c.ivar[j]))
            req(ok['w'], 'weight is the sum of the weights' + (' of consistent pixels' if may else ''), d)
            req(ok['f'], 'flux is the inverse-variance weighted mean' + (' of consistent pixels' if may else ''), d)
            req(ok['r'], 'resolution is combined with the same weights', d)
        if c._Rcsr is not None: req(close(dense(c._Rcsr), dense(c.R)), 'cached resolution is the coadded one')
    req(t.bands == [s.band for s in t.spectra], 'bands list the coadded spectra')

def gen_cosmic(rng, k):
    n = int(rng.integers(8, 30)); ne = int(rng.integers(3, 7)); wave = 4000. + np.arange(n)
    truth = rng.normal(size=n); s = float(10 ** rng.uniform(-2, 1))
    R = resolution(rng, n, ndiag=3)
    fl = [truth + .3 * s * rng.normal(size=n).clip(-1, 1) for _ in range(ne)]
    hits = {}
    if k % 3:
        e = int(rng.integers(0, ne)); p = int(rng.integers(1, n)); hits[p] = e; fl[e][p] += s * float(10 ** rng.uniform(3, 5))
    blank = bool(rng.random() < .3)
    return dict(wave=wave, fluxes=fl, s=s, R=R, hits=hits, truth=truth, nsig=float(rng.uniform(4, 10)), band=[None, 'b'][k % 2], blank=blank)

@contract('C11', ['targets.Target.compute_coadd'], gen_cosmic, quick=200, thorough=5000)
def cosmics(inp, req):
    from redrock.targets import Target
    n = len(inp['wave']); w = 1 / inp['s'] ** 2
    sp = [make_spectrum(dict(wave=inp['wave'], flux=f, ivar=np.full(n, w), R=inp['R'], band=inp['band'])) for f in inp['fluxes']]
    ne = len(sp)
    if inp['blank']: sp.insert(0, make_spectrum(dict(wave=inp['wave'], flux=inp['truth'], ivar=np.zeros(n), R=inp['R'], band=inp['band'])))
    t = Target(1, sp); t.compute_coadd(cosmics_nsig=inp['nsig']); c = t.spectra[0]
    near = {q for p in inp['hits'] for q in (p, p + 1)}
    for j in range(n):
        if j in inp['hits']:
            req(close(c.ivar[j], (ne - 1) * w), 'a glaring outlier is masked in its exposure', (j, c.ivar[j] / w))
            req(abs(c.flux[j] - inp['truth'][j]) < inp['s'], 'the coadd is free of the outlier', (j, c.flux[j], inp['truth'][j]))
        elif j not in near:
            req(close(c.ivar[j], ne * w), 'agreeing pixels are never masked', (j, c.ivar[j] / w, ne))
