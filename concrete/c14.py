"""C14: archetype fits"""
from .base import *
from .archbuild import *
from scipy.optimize import lsq_linear, nnls

def gen_best(rng, k):
    a = archetype_spec(rng)
    if k % 6 == 1 and len(a['flux']) > 1: a['flux'][1] = a['flux'][0]
    sp, z, i = cameras(rng, k, a)
    if k % 9 == 4: sp = [dict(s, flux=-s['flux']) for s in sp]       # negative spectra: non-negativity active
    if k % 11 == 5:
        for s in sp: s['ivar'][:] = 0
    nn = None if k % 2 == 0 else int(rng.integers(1, len(a['flux']) + 1))
    per = bool(rng.random() < .7)
    return dict(a=a, sp=sp, z=z, nleg=int(rng.integers(0, 4)), per=per, n_nearest=nn, prior=None if rng.random() < .4 else float(10 ** rng.uniform(-2, 1)),
                method=['bvls', 'bvls', 'bvls', 'pca', 'nmf'][int(rng.integers(0, 5))] if nn is None and per else 'bvls', trans=bool(rng.random() < .4))

def design(inp, sps, idx, z, per, nleg, order):
    "columns: archetypes idx, then Legendre blocks per camera in the given order (or one shared block)"
    from redrock import igm
    aw = arch_wave(inp['a']); rows = []
    for s in sps:
        w = s['wave']; T = np.asarray(igm.transmission_Lyman(z, w, model='Inoue14'))
        cols = [binavg(aw * (1 + z), inp['a']['flux'][i], edges_of(w)) * T for i in idx]
        p = legpoly(w, nleg)
        if per:
            for b in order: cols += [p[j] if s['band'] == b else np.zeros(len(w)) for j in range(nleg)]
        else: cols += list(p)
        rows.append(dense(s['R']) @ np.array(cols).T)
    return np.vstack(rows)

def solve(A, f, w, P, nn, method):
    M = A.T @ (w[:, None] * A) + P; y = A.T @ (w * f)
    if method == 'pca': return np.linalg.solve(M, y)
    if method == 'nmf': return nnls(M, y)[0]
    lb = np.full(len(y), -np.inf); lb[:nn] = 0
    return lsq_linear(M, y, bounds=(lb, np.full(len(y), np.inf)), method='bvls').x

@contract('C14', ['archetypes.Archetype.get_best_archetype', 'archetypes.Archetype.nearest_neighbour_model', 'archetypes.Archetype.rebin_template_batch',
                  'zscan.per_camera_coeff_with_least_square_batch', 'archetypes.split_archetype_coeff', 'fitz.prior_on_coeffs', 'zscan.calc_zchi2_batch', 'zscan.solve_matrices'],
          gen_best, quick=120, thorough=3000, seconds=60)
def best(inp, req):
    from redrock.zscan import spectral_data
    from redrock.fitz import prior_on_coeffs
    from redrock.archetypes import split_archetype_coeff
    from redrock.templates import parse_fulltype
    from redrock import igm
    ax = make_arch(inp['a']); tg = make_target(dict(id=1, spectra=inp['sp'])); sps = inp['sp']
    nleg, per, nn, z = inp['nleg'], inp['per'], inp['n_nearest'], inp['z']
    tg.legendre(nleg)
    dwave = {s.wavehash: s.wave for s in tg.spectra}; ncam = len(dwave) if per else 1
    w, f, wf = spectral_data(tg.spectra); na = len(ax.flux)
    prior = None if inp['prior'] is None else prior_on_coeffs(nn or 1, nleg, inp['prior'], ncam)
    P0 = 0 if inp['prior'] is None or not per else 1 / inp['prior'] ** 2
    k0 = None if prior is None else prior.copy()
    def run():
        tr = None
        if inp['trans']: tr = {h: igm.transmission_Lyman(np.array([z]), g, always_return_array=False, model='Inoue14') for h, g in dwave.items()}
        return ax.get_best_archetype(tg, w, f, wf, dwave, z, per, nn, trans=tr, solve_method=inp['method'], prior=prior)
    chi2, coeff, full = run()
    req(prior is None or same(prior, k0), 'the prior is not changed')
    sp, subtype = parse_fulltype(full)
    req(sp == inp['a']['spectype'], 'reported with its type', full)
    subs = subtype.split(';')
    names = ['%s_%d' % (s, i) for i, s in enumerate(inp['a']['sub'])]
    if not req(all(s in names for s in subs) and len(set(subs)) == len(subs), 'the subtypes are those of archetypes', subs): return
    idx = [names.index(s) for s in subs]
    n = nn or 1
    if not req(len(idx) == n, 'number of archetypes', (len(idx), n)): return
    order = sorted({s['band'] for s in sps})
    nc = n + nleg * ncam
    coeff = np.asarray(coeff)
    if not req(coeff.shape == (nc,), 'length of the coefficient vector', (coeff.shape, nc)): return
    ac, lc = split_archetype_coeff(subtype, coeff, ncam, nleg)
    req(same(np.asarray(ac), coeff[:n]), 'splitting gives the archetype coefficients')
    req(len(lc) == ncam and np.array_equal(np.concatenate(list(lc)) if nleg else np.zeros(0), coeff[n:]) and all(len(x) == nleg for x in lc), 'splitting gives one block per camera without loss')
    A = design(inp, sps, idx, z, per, nleg, order)
    W = np.concatenate([s['ivar'] for s in sps]); F = np.concatenate([s['flux'] for s in sps])
    def chi(A, c): return float(np.sum(W * (F - A @ c) ** 2))
    P = np.diag([0.] * n + [P0] * (nc - n)); A1 = {}
    H = 9999999.
    scale = float(np.sum(W * F ** 2)) + 1e-30
    if chi2 >= H and not W.any(): return
    own = chi(A, coeff)
    req(abs(own - chi2) <= 1e-6 * (own + chi2) + 1e-9 * scale, 'the chi2 is that of the reported coefficients attached to their cameras', (own, chi2))
    if inp['method'] in ('bvls', 'nmf'): req(np.all(coeff[:n] >= -1e-12), 'archetype coefficients are not negative', coeff[:n])
    # which archetypes are best
    P1 = np.diag([0.] + [P0] * (nc - n)); c2 = []; conds = []
    for i in range(na):
        A1 = design(inp, sps, [i], z, per, nleg, order); M = A1.T @ (W[:, None] * A1) + P1
        ev = np.linalg.eigvalsh(M); conds.append(ev[-1] / max(ev[0], 1e-300))
        try: c2.append(chi(A1, solve(A1, F, W, P1, 1, inp['method'])))
        except np.linalg.LinAlgError: c2.append(H)
    c2 = np.array(c2); tol = 1e-6 * np.abs(c2).max() + 1e-8 * scale
    if max(conds) > 1e8: return
    if nn is None:
        req(chi2 <= c2.min() + tol, 'the selected archetype has the lowest chi2', (chi2, c2.tolist()))
        req(abs(c2[idx[0]] - chi2) <= tol, 'reported with its own chi2', (c2[idx[0]], chi2))
        ref = solve(A, F, W, P, 1, inp['method'])
        req(close(A @ coeff, A @ ref, rtol=1e-5, atol=1e-5 * (np.abs(A @ ref).max() + 1e-12)) or abs(own - chi(A, ref)) < tol, 'coefficients of the selected archetype with the prior on Legendre terms only')
    else:
        srt = np.sort(c2)
        req(all(c2[i] <= srt[n - 1] + tol for i in idx), 'the nearest archetypes are the ones with the lowest chi2', (idx, c2.tolist()))
        req(all(c2[idx[j]] <= c2[idx[j + 1]] + tol for j in range(n - 1)), 'nearest archetypes in order of chi2', (idx, c2.tolist()))
        M = A.T @ (W[:, None] * A) + P; ev = np.linalg.eigvalsh(M)
        if ev[-1] / max(ev[0], 1e-300) < 1e8:
            ref = solve(A, F, W, P, n, 'bvls')
            req(close(coeff, ref, rtol=1e-4, atol=1e-5 * (np.abs(ref).max() + 1e-12)) or abs(own - chi(A, ref)) < tol, 'coefficients of the nearest archetypes with the prior on Legendre terms only', (coeff.tolist(), ref.tolist()))
    # the order of the spectra does not matter
    if len(sps) > 1:
        rev = dict(inp, sp=sps[::-1]); tg2 = make_target(dict(id=1, spectra=rev['sp'])); tg2.legendre(nleg)
        w2, f2, wf2 = spectral_data(tg2.spectra); dw2 = {s.wavehash: s.wave for s in tg2.spectra}
        chi2b, coeffb, fullb = ax.get_best_archetype(tg2, w2, f2, wf2, dw2, z, per, nn, solve_method=inp['method'], prior=prior)
        req(abs(chi2b - chi2) <= tol, 'same chi2 for another order of the spectra', (chi2, chi2b))
        if fullb == full and max(conds) < 1e6: req(close(coeffb, coeff, rtol=1e-4, atol=1e-5 * (np.abs(coeff).max() + 1e-12)) or n > 1, 'same coefficient vector for another order of the spectra', (coeff.tolist(), np.asarray(coeffb).tolist()))

def gen_split(rng, k):
    n, nb, nl = int(rng.integers(1, 5)), int(rng.integers(1, 5)), int(rng.integers(0, 5))
    return dict(n=n, nb=nb, nl=nl, pad=int(rng.integers(0, 4)), coeff=rng.normal(size=n + nb * nl), sigma=float(10 ** rng.uniform(-3, 3)), lst=bool(k % 2))
@contract('C14', ['archetypes.split_archetype_coeff', 'fitz.prior_on_coeffs'], gen_split, quick=300, thorough=5000)
def split_and_prior(inp, req):
    from redrock.archetypes import split_archetype_coeff
    from redrock.fitz import prior_on_coeffs
    c = np.concatenate((inp['coeff'], np.zeros(inp['pad']))); n, nb, nl = inp['n'], inp['nb'], inp['nl']
    a, l = split_archetype_coeff(';'.join('ELG_%d' % i for i in range(n)), list(c) if inp['lst'] else c, nb, nl)
    req(list(a) == list(c[:n]), 'the archetype coefficients come first')
    req(len(l) == nb and all(list(l[i]) == list(c[n + i * nl:n + (i + 1) * nl]) for i in range(nb)), 'one block per camera in order')
    p = prior_on_coeffs(n, nl, inp['sigma'], nb)
    d = np.array([0.] * n + [1 / inp['sigma'] ** 2] * (nl * nb))
    req(p.shape == (len(d), len(d)) and close(p, np.diag(d), rtol=1e-12), 'regularisation on Legendre coefficients only')
def _from_prior(d):
    n, nl, nb = int(d.get('n_nbh', 1)), int(d.get('deg', 0)), int(d.get('ncamera', 1))
    return dict(coeff=np.arange(1., n + nl * nb + 1), pad=0, n=n, nb=nb, nl=nl, lst=False, sigma=float(d.get('sigma', 0.1)))
from_model = {'split_and_prior': _from_prior}
