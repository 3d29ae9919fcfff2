"""C03: linear least squares at each trial redshift"""
from .base import *
from .oracle import *
from .build import *
from redrock import zscan
HUGE = 9999999.0

class Tmpl: pass
class Local: pass

def spectra_and_data(rng, nz, nb, nspec, positive=False, mask=.2):
    sp, td = [], {}
    for s in range(nspec):
        n = int(rng.integers(max(6, nb + 2), 25))
        w = np.linspace(4000 + 500 * s, 4400 + 500 * s, n)
        t = rng.normal(size=(nz, n, nb))
        if positive: t = np.abs(t)
        d = spectrum_data(rng, w, rng.normal(size=n) * 3 + (2 if positive else 0), mask=mask)
        sp.append(d); td[s] = t
    return sp, td

def gen_batch(rng, k):
    nz, nb, ns = int(rng.integers(1, 5)), int(rng.integers(1, 5)), int(rng.integers(1, 4))
    alg = ['PCA', 'NMF', 'PCA', 'nnls', 'pca', 'BVLS'][k % 6]
    sp, td = spectra_and_data(rng, nz, nb, ns, positive=alg.upper() in ('NMF', 'NNLS'))
    kind = k % 7
    if kind == 1: sp[0]['ivar'][:] = 0
    if kind == 2:
        for s in sp: s['ivar'][:] = 0
    if kind == 3:       # at one redshift the system is singular
        j = int(rng.integers(0, nz))
        for s in td: td[s][j, :, -1] = 0
    if kind == 4:       # wild but weightless pixels
        for s in sp:
            z = s['ivar'] == 0
            s['flux'][z] = rng.choice([1e30, -1e15, 1e3], size=z.sum())
    if kind == 5 and ns > 1:      # two exposures on the same grid
        sp[1]['wave'] = sp[0]['wave'].copy()
        n = len(sp[0]['wave']); e = spectrum_data(rng, sp[0]['wave'], rng.normal(size=n)); sp[1] = e
        td[1] = td[0]
    if kind == 6:       # weights on very few pixels
        for s in sp:
            keep = rng.choice(len(s['ivar']), size=min(len(s['ivar']), nb), replace=False)
            iv = np.zeros_like(s['ivar']); iv[keep] = s['ivar'][keep] + 1; s['ivar'] = iv
    return dict(sp=sp, td=td, alg=alg, nz=nz, nb=nb, kind=kind, scale=float(10 ** rng.uniform(-2, 3)))

def setup(inp):
    sps = [make_spectrum(s) for s in inp['sp']]
    tdata = {sps[i].wavehash: np.array(inp['td'][i]) for i in range(len(sps))}
    return sps, tdata, zscan.spectral_data(sps)

def verify_fit(req, T, f, w, chi2, c, alg):
    "T: convolved templates (npix, nb)"
    nb = T.shape[1]
    m = T @ c
    own = float(np.sum(w * (np.where(w > 0, f, 0) - m) ** 2)) if np.all(w >= 0) else None
    scale = float(np.sum(w * np.where(w > 0, f, 0) ** 2)) + 1e-300
    sw = np.sqrt(w)
    A, b = sw[:, None] * T, sw * np.where(w > 0, f, 0)
    sv = np.linalg.svd(A, compute_uv=False)
    cond = (sv[0] / sv[-1]) if len(sv) == nb and sv[-1] > 0 else np.inf
    alg = alg.upper()
    if chi2 == HUGE:
        # sentinel: only when the system cannot be solved (or, for the iterative solver, ill conditioned)
        req(cond > 1e5 or not np.all(np.isfinite(T)), 'sentinel only when the system cannot be solved', cond)
        return
    req(abs(chi2 - own) <= 1e-7 * (scale + abs(own)) * max(1, 1e-9 * cond ** 2), 'chi2 is that of the reported coefficients', (chi2, own))
    if alg in ('NMF', 'NNLS'):
        req(np.all(c >= 0), 'no negative coefficient', c)
    else:
        if cond < 1e6:
            best = np.linalg.lstsq(A, b, rcond=None)[0]
            opt = float(np.sum((A @ best - b) ** 2))
            req(chi2 <= opt + 1e-8 * scale * max(1, 1e-8 * cond ** 2), 'no other coefficients give a smaller chi2', (chi2, opt, c, best))
        if cond < 1e4: req(close(c, best, 1e-6, 1e-6 * (np.abs(best).max() + 1e-9)), 'the minimising coefficients', (c, best))

@contract('C03', ['redrock.zscan.calc_zchi2_batch', 'redrock.zscan.solve_matrices', 'redrock.zscan.dot_product_sparse_one', 'redrock.zscan.spectral_data'], gen_batch, quick=1500, thorough=40000)
def zchi2_batch(inp, req):
    sps, tdata, (w, f, wf) = setup(inp)
    nz, nb, alg = inp['nz'], inp['nb'], inp['alg']
    if inp['kind'] == 4 and alg.upper() == 'BVLS': raise Skip
    kw, kf, kt = w.copy(), f.copy(), {a: b.copy() for a, b in tdata.items()}
    chi2, coef = zscan.calc_zchi2_batch(sps, tdata, w, f, wf, nz, nb, solve_matrices_algorithm=alg)
    req(chi2.shape == (nz,) and coef.shape == (nz, nb), 'one chi2 and one coefficient vector per redshift')
    req(same(w, kw) and same(f, kf) and all(same(tdata[a], kt[a]) for a in kt), 'data and templates unchanged')
    if not np.any(w > 0):
        req(np.all(chi2 == HUGE), 'all weights zero gives the sentinel', chi2); return
    Rs = [dense(s['R']) for s in inp['sp']]
    for j in range(nz):
        T = np.vstack([Rs[i] @ inp['td'][i][j] for i in range(len(sps))])
        verify_fit(req, T, f, w, chi2[j], coef[j], alg)
    # independence of the other trial redshifts
    j = nz - 1
    c1, k1 = zscan.calc_zchi2_batch(sps, {a: b[j:j + 1] for a, b in tdata.items()}, w, f, wf, 1, nb, solve_matrices_algorithm=alg)
    req(close(c1[0], chi2[j], 1e-9, 1e-9) and close(k1[0], coef[j], 1e-8, 1e-8), 'a redshift fitted alone gives the same result', (c1, chi2[j]))
    # zero-weight pixels have no influence
    f2 = f.copy(); f2[w == 0] = -77.; c2, k2 = zscan.calc_zchi2_batch(sps, tdata, w, f2, w * f2, nz, nb, solve_matrices_algorithm=alg)
    req(close(c2, chi2, 1e-9, 1e-9) and close(k2, coef, 1e-8, 1e-8), 'zero-weight pixels have no influence', (c2, chi2))

def gen_nmf(rng, k):
    # well conditioned non-negative problems: exact signals of a few templates
    nz, nb, ns = int(rng.integers(1, 4)), int(rng.integers(1, 4)), 2
    sp, td = spectra_and_data(rng, nz, nb, ns, positive=True, mask=.1)
    j = int(rng.integers(0, nz)); c = np.where(rng.random(nb) < .3, 0., rng.uniform(.5, 3, nb))
    for i, s in enumerate(sp): s['flux'] = dense(s['R']) @ (td[i][j] @ c)
    return dict(sp=sp, td=td, alg='NMF', nz=nz, nb=nb, kind=0, c=c, j=j)

@contract('C03', ['redrock.zscan.calc_zchi2_batch', 'redrock.zscan.solve_matrices'], gen_nmf, quick=500, thorough=10000)
def nonnegative_exact(inp, req):
    sps, tdata, (w, f, wf) = setup(inp)
    chi2, coef = zscan.calc_zchi2_batch(sps, tdata, w, f, wf, inp['nz'], inp['nb'], solve_matrices_algorithm='NMF')
    Rs = [dense(s['R']) for s in inp['sp']]
    T = np.vstack([Rs[i] @ inp['td'][i][inp['j']] for i in range(len(sps))])
    if np.linalg.cond(np.sqrt(w)[:, None] * T) > 1e3: raise Skip
    req(close(coef[inp['j']], inp['c'], 1e-6, 1e-6), 'a noiseless non-negative mixture is recovered', (coef[inp['j']], inp['c']))
    req(abs(chi2[inp['j']]) < 1e-6, 'with zero chi2')

@contract('C03', ['redrock.zscan.calc_zchi2_one', 'redrock.zscan._zchi2_one'], gen_batch, quick=500, thorough=10000)
def zchi2_one(inp, req):
    if inp['alg'].upper() == 'BVLS': raise Skip
    sps, tdata, (w, f, wf) = setup(inp)
    if not np.any(w > 0): raise Skip
    for j in range(inp['nz']):
        chi2, c = zscan.calc_zchi2_one(sps, w, f, wf, {a: b[j] for a, b in tdata.items()}, inp['alg'])
        T = np.vstack([dense(s['R']) @ inp['td'][i][j] for i, s in enumerate(inp['sp'])])
        verify_fit(req, T, f, w, chi2, c, inp['alg'])

def gen_scan(rng, k):
    nz, nb, nt = int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(1, 5))
    method = ['PCA', 'NMF'][k % 2]
    grids = [np.linspace(4000 + 700 * g, 4500 + 700 * g, int(rng.integers(8, 20))) for g in range(2)]
    td = {g: (np.abs(rng.normal(size=(nz, len(w), nb))) if method == 'NMF' else rng.normal(size=(nz, len(w), nb))) for g, w in zip('ab', grids)}
    tg = []
    for t in range(nt):
        gs = [0, 1] if rng.random() < .7 else [int(rng.integers(0, 2))]
        sp = [spectrum_data(rng, grids[g], rng.normal(size=len(grids[g])) * 2 + 1, band='ab'[g], mask=.2) for g in gs]
        if rng.random() < .2:
            for s in sp: s['ivar'][:] = 0
        tg.append(dict(id=1000 - 7 * t, spectra=sp))
    oii = bool(rng.random() < .6)
    return dict(td=td, tg=tg, nz=nz, nb=nb, method=method, oii=rng.normal(size=(nb, 3)) if oii else None)

@contract('C03', ['redrock.zscan.calc_zchi2'], gen_scan, quick=300, thorough=6000)
def scan(inp, req):
    from types import SimpleNamespace as N
    t = N(nbasis=inp['nb'], solve_matrices_algorithm=inp['method'], full_type='X', template_type='GALAXY', method=inp['method'])
    if inp['oii'] is not None: t.OIItemplate = inp['oii']
    dt = N(template=t, comm=None, local=N(redshifts=np.arange(inp['nz']) * .1, data={a: b.copy() for a, b in inp['td'].items()}, index=0))
    tg = [make_target(d) for d in inp['tg']]
    chi2, coef, pen = zscan.calc_zchi2([x.id for x in tg], tg, dt)
    req(chi2.shape == (len(tg), inp['nz']) and coef.shape == (len(tg), inp['nz'], inp['nb']) and pen.shape == chi2.shape, 'one row per target')
    for i, d in enumerate(inp['tg']):
        w = np.concatenate([s.ivar for s in tg[i].spectra]); f = np.concatenate([s['flux'] for s in d['spectra']])
        if not np.any(w > 0):
            req(np.all(chi2[i] == HUGE), 'all weights zero gives the sentinel'); continue
        for j in range(inp['nz']):
            T = np.vstack([dense(s['R']) @ inp['td'][s['band']][j] for s in d['spectra']])
            verify_fit(req, T, f, w, chi2[i, j], coef[i, j], inp['method'])
            if inp['oii'] is not None and chi2[i, j] != HUGE:
                o = float(np.sum(coef[i, j] @ inp['oii']))
                req(abs(pen[i, j] - max(0, -o)) <= 1e-9 * (1 + abs(o)), 'penalty of the fitted coefficients')
            else: req(pen[i, j] == 0 or inp['oii'] is not None, 'no penalty for templates without [OII]')
from_model = {}
