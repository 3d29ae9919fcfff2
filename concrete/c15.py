"""C15: evaluation of stored best fits"""
from .base import *
from .archbuild import *

IGMS = ['Inoue14', 'Calura12', 'Kamble20', 'None']
def T_of(igm_model, z, w):
    from redrock import igm
    return np.asarray(igm.transmission_Lyman(np.array([z]), w, model=igm_model))[0]

def model_of(t, coeff, z, s):
    b = rebin_all(t['wave'], t['flux'], [z], s['wave'])[0]
    m = (b @ np.asarray(coeff)[:len(t['flux'])]) * T_of(t['igm'], z, s['wave'])
    return m if s['R'] is None else dense(s['R']) @ m

def tmpl(rng, sp='QSO', sub='', **k):
    return template_spec(rng, sp, sub, nbasis=int(rng.integers(1, 5)), zs=np.linspace(.1, 3.2, 12), lo=700., hi=9500., n=500, igm=IGMS[int(rng.integers(0, 4))], **k)

def gen_eval(rng, k):
    ts = [tmpl(rng, 'QSO', 'HIZ'), tmpl(rng, 'QSO', 'LOZ'), tmpl(rng, 'GALAXY', ''), tmpl(rng, 'STAR', 'F')]
    sp = []
    for g in range(int(rng.integers(1, 4))):
        w = np.linspace(3600 + 1000 * g, 4500 + 1000 * g, int(rng.integers(8, 25)))
        for e in range(int(rng.integers(1, 3)) if g == 0 else 1):
            sp.append(spectrum_data(rng, w, rng.normal(size=len(w)), band='brz'[g] if k % 2 else None, mask=.2, ndiag=3))
    p = rng.permutation(len(sp)); sp = [sp[i] for i in p]
    nt = int(rng.integers(1, 4)); rows = []
    for i in range(nt):
        t = ts[int(rng.integers(0, 4))]; nc = len(t['flux']); c = rng.normal(size=nc) * 10 ** rng.uniform(-2, 3)
        if rng.random() < .15: c = c * 0
        elif nc > 1 and rng.random() < .4: c[:int(rng.integers(1, nc))] = 0   # some, not all, coefficients are zero
        elif nc > 1 and rng.random() < .2: c[int(rng.integers(1, nc)):] = 0
        z = float(rng.uniform(.1, 3.)) if t['spectype'] != 'STAR' else float(rng.uniform(-.002, .002))
        rows.append(dict(TARGETID=100 + i, SPECTYPE=t['spectype'], SUBTYPE=t['subtype'], COEFF=np.concatenate((c, np.zeros(6 - nc) if rng.random() < .5 else rng.normal(size=6 - nc) * (np.any(c != 0)))), Z=z, FITMETHOD='PCA'))
    order = rng.permutation(nt)
    return dict(ts=ts, sp=sp, rows=rows, order=order, noR=bool(rng.random() < .3), dictwave=bool(rng.random() < .5), extra=bool(rng.random() < .5))

def near(a, b): return close(a, b, rtol=1e-7, atol=1e-9 * (np.abs(np.asarray(b)).max() + 1e-300) if np.size(b) else 1e-12)

@contract('C15', ['templates.Template.eval', 'templates.eval_model', 'targets.Target.eval_model', 'targets.DistTargets.eval_models'], gen_eval, quick=60, thorough=1500)
def evaluate(inp, req):
    from redrock.templates import eval_model
    from redrock.targets import DistTargetsCopy
    from astropy.table import Table
    T = {(t['spectype'], t['subtype']): make_template(t) for t in inp['ts']}; TS = {(t['spectype'], t['subtype']): t for t in inp['ts']}
    rows = inp['rows']
    for r in rows:
        t = TS[(r['SPECTYPE'], r['SUBTYPE'])]
        for s in inp['sp'][:2]:
            R = None if inp['noR'] else s['R'].tocsr()
            got = T[(r['SPECTYPE'], r['SUBTYPE'])].eval(r['COEFF'].copy(), s['wave'], r['Z'], R)
            req(near(got, model_of(t, r['COEFF'], r['Z'], dict(s, R=None if R is None else s['R']))), 'a template evaluates to its transmitted and convolved model')
    tab = Table({c: np.array([r[c] for r in rows]) for c in rows[0]})
    tgs = [make_target(dict(id=100 + i, spectra=inp['sp'][i % len(inp['sp']):] + inp['sp'][:i % len(inp['sp'])])) for i in range(len(rows))]
    best = tab[inp['order']]
    if inp['extra']:
        from astropy.table import vstack
        more = tab[:1].copy(); more['TARGETID'] = 5; more['COEFF'] *= 2; best = vstack([more, best])
    models = DistTargetsCopy(tgs).eval_models(best, T)
    dt = DistTargetsCopy(tgs)
    if not req(len(models) == len(tgs), 'one entry per target'): return
    def check(tg, m, r, what):
        sps = inp['sp'][(r['TARGETID'] - 100) % len(inp['sp']):] + inp['sp'][:(r['TARGETID'] - 100) % len(inp['sp'])]
        req(set(m) == {s.wavehash for s in tg.spectra}, what + 'one model per spectrum')
        byhash = {}
        for so, sd in zip(tg.spectra, sps): byhash.setdefault(so.wavehash, []).append(sd)
        for h, sds in byhash.items():
            if not np.any(r['COEFF'] != 0): want = [np.zeros(len(sd['wave'])) for sd in sds]
            else: want = [model_of(TS[(r['SPECTYPE'], r['SUBTYPE'])], r['COEFF'], r['Z'], sd) for sd in sds]
            req(any(near(m[h], x) for x in want), what + 'each spectrum gets its own model')
    loc = dt.local()
    for tg, m in zip(loc, models):
        r = rows[tg.id - 100]; check(tg, m, r, 'targets: ')
    for tg, r in zip(tgs, [rows[t.id - 100] for t in tgs]):
        m = tg.eval_model(tab[tg.id - 100], T); check(tg, m, r, 'target: ')
        req(tg.model is m or all(same(tg.model[h], m[h]) for h in m), 'the target keeps the model')
    # tables of fits at given wavelengths
    ws = {('cam%d' % i): s for i, s in enumerate(inp['sp'])}
    nR = lambda s: [s['R'].tocsr() for _ in rows]
    if inp['dictwave']:
        out = eval_model(tab, {k: s['wave'] for k, s in ws.items()}, R=None if inp['noR'] else {k: nR(s) for k, s in ws.items()}, templates=T)
        req(set(out) == set(ws), 'one array of models per camera')
    else: out = {k: eval_model(tab, s['wave'], R=None if inp['noR'] else nR(s), templates=T) for k, s in ws.items()}
    for k, s in ws.items():
        for i, r in enumerate(rows):
            want = model_of(TS[(r['SPECTYPE'], r['SUBTYPE'])], r['COEFF'], r['Z'], dict(s, R=None if inp['noR'] else s['R']))
            req(out[k].shape == (len(rows), len(s['wave'])) and close(out[k][i], want, rtol=1e-5, atol=1e-6 * (np.abs(want).max() + 1e-30)), 'tables: each fit gets its own model')

def gen_fit(rng, k):
    t = template_spec(rng, ['GALAXY', 'QSO'][k % 2], '', nbasis=int(rng.integers(1, 4)), zs=np.linspace([.1, 1.9][k % 2], [.6, 2.8][k % 2], 15), lo=700., hi=9500., n=600, igm=IGMS[int(rng.integers(0, 4))], method='PCA')
    z = float(rng.uniform(t['redshifts'][2], t['redshifts'][-3])); c = rng.uniform(.5, 2, size=len(t['flux'])); sp = []
    for g in range(int(rng.integers(1, 3))):
        w = np.linspace(3650 + 1000 * g, 4500 + 1000 * g, int(rng.integers(25, 45)))
        tr = model_of(t, c, z, dict(wave=w, R=None)); sp.append(spectrum_data(rng, w, tr, noise=.02, band='br'[g] if rng.random() < .5 else None, mask=.1))
    return dict(t=t, sp=sp, z=z)

@contract('C15', ['templates.Template.eval', 'targets.Target.eval_model', 'fitz.fitz'], gen_fit, quick=40, thorough=1000)
def fitted_model(inp, req):
    "the evaluated model of a fit has the chi2 that the fit finds at that redshift"
    from redrock import fitz, zscan
    from redrock.zwarning import ZWarningMask as ZW
    t = make_template(inp['t']); tg = make_target(dict(id=3, spectra=inp['sp']))
    from .c05 import scan
    r = fitz.fitz(scan(t, tg, t.redshifts), t.redshifts, tg, t, nminima=3)
    for i in range(len(r['z'])):
        if r['zwarn'][i, 0] & ZW.BAD_MINFIT: continue
        z = float(r['z'][i, 0])
        m = tg.eval_model(dict(SPECTYPE=inp['t']['spectype'], SUBTYPE='', COEFF=r['coeff'][i], Z=z, FITMETHOD='PCA'), {(inp['t']['spectype'], ''): t})
        own = sum(float(np.sum(s.ivar * (s.flux - m[s.wavehash]) ** 2)) for s in tg.spectra)
        A = np.vstack([dense(s['R']) @ (rebin_all(inp['t']['wave'], inp['t']['flux'], [z], s['wave'])[0] * T_of(inp['t']['igm'], z, s['wave'])[:, None]) for s in inp['sp']])
        W = np.concatenate([s['ivar'] for s in inp['sp']]); F = np.concatenate([s['flux'] for s in inp['sp']])
        c = np.linalg.lstsq(np.sqrt(W)[:, None] * A, np.sqrt(W) * F, rcond=None)[0]; best = float(np.sum(W * (F - A @ c) ** 2))
        req(abs(own - best) <= 1e-5 * best + 1e-7 * float(np.sum(W * F ** 2)), 'the evaluated model is the one that was fitted', (own, best))

def gen_arch(rng, k):
    a = archetype_spec(rng, narch=int(rng.integers(1, 6)), lo=1100.); sp, z, i = cameras(rng, k, a, multi=False)
    n = int(rng.integers(1, len(a['flux']) + 1)); nleg = int(rng.integers(1, 4)); bands = sorted({s['band'] for s in sp})
    idx = [int(x) for x in rng.permutation(len(a['flux']))[:n]]
    kind = int(rng.integers(0, 2))
    pad = int(rng.integers(0, 3)); c = rng.uniform(.2, 3, size=n)
    if k % 3 == 1: c[int(rng.integers(0, n))] = 0
    return dict(a=a, sp=sp, z=z, idx=idx, coeff=np.concatenate((c, rng.normal(size=pad) * 0)), leg=rng.normal(size=(len(bands), nleg)) if kind else rng.normal(size=nleg), z2=float(rng.uniform(.1, .6)), zero=bool(k % 10 == 7), flat=bool(k % 10 == 3))

@contract('C15', ['archetypes.Archetype.eval', 'targets.Target.eval_model', 'utils.reduced_wavelength'], gen_arch, quick=80, thorough=2000)
def archetype_model(inp, req):
    ax = make_arch(inp['a']); tg = make_target(dict(id=3, spectra=inp['sp'])); sps = inp['sp']
    bands = sorted({s['band'] for s in sps}); aw = arch_wave(inp['a']); n = len(inp['idx'])
    sub = ';'.join('%s_%d' % (inp['a']['sub'][i], i) for i in inp['idx'])
    coeff = inp['coeff'] * (0 if inp['zero'] or inp['flat'] else 1); inp['leg'] = inp['leg'] * (0 if inp['zero'] else 1)      # flat: Legendre terms only
    m = tg.eval_model(dict(SPECTYPE=inp['a']['spectype'], SUBTYPE=sub, COEFF=coeff, LEGCOEFF=inp['leg'], Z=inp['z'], FITMETHOD='ARCH'), {}, archetypes={inp['a']['spectype']: ax})
    for so, s in zip(tg.spectra, sps):
        if inp['zero']: want = np.zeros(len(s['wave']))
        else:
            w = s['wave']; T = T_of('Inoue14', inp['z'], w)
            x = sum(coeff[j] * binavg(aw * (1 + inp['z']), inp['a']['flux'][i], edges_of(w)) * T for j, i in enumerate(inp['idx']))
            lc = inp['leg'] if inp['leg'].ndim == 1 else inp['leg'][bands.index(s['band'])]
            want = dense(s['R']) @ (x + lc @ legpoly(w, len(lc)))
        req(near(m[so.wavehash], want), 'zero fits give zero models' if inp['zero'] else 'archetype models have the Legendre terms of their camera')
    s = sps[0]; w = s['wave']
    got = ax.eval(sub, coeff, w, inp['z'])
    T = T_of('Inoue14', inp['z'], w)
    req(near(got, sum(coeff[j] * binavg(aw * (1 + inp['z']), inp['a']['flux'][i], edges_of(w)) * T for j, i in enumerate(inp['idx'])) + np.zeros(len(w))), 'archetypes evaluate without optional arguments')

def gen_archfit(rng, k):
    a = archetype_spec(rng, lo=1100.); sp, z, i = cameras(rng, k, a, multi=False)
    t = template_spec(rng, a['spectype'], '', nbasis=2, zs=np.linspace(.1, .7, 13), lo=1100., hi=9500., n=300, method='PCA')
    t['flux'][0] = np.interp(t['wave'], arch_wave(a), a['flux'][i])
    if k % 8 == 5:                                       # anti-correlated with every archetype: their coefficients are zero
        for s in sp: s['flux'] = 3. * float(np.max(np.abs(s['flux']))) - 2 * s['flux']
    return dict(a=a, sp=sp, t=t, nleg=int(rng.integers(1, 4)), per=bool(rng.random() < .7), nn=None if rng.random() < .5 else int(rng.integers(1, len(a['flux']) + 1)), prior=None if rng.random() < .5 else float(10 ** rng.uniform(-1, 1)))

@contract('C15', ['fitz.fitz', 'archetypes.Archetype.get_best_archetype', 'targets.Target.eval_model', 'archetypes.split_archetype_coeff'], gen_archfit, quick=40, thorough=1000)
def archetype_fit_model(inp, req):
    from redrock import fitz
    from redrock.zwarning import ZWarningMask as ZW
    from .c05 import scan
    ax = make_arch(inp['a']); t = make_template(inp['t']); tg = make_target(dict(id=3, spectra=inp['sp']))
    r = fitz.fitz(scan(t, tg, t.redshifts), t.redshifts, tg, t, nminima=2, archetype=ax, deg_legendre=inp['nleg'], per_camera=inp['per'], n_nearest=inp['nn'], prior_sigma=inp['prior'] if inp['per'] else None)
    for i in range(len(r['z'])):
        if r['zwarn'][i, 0] & ZW.BAD_MINFIT: continue
        sub = str(np.ravel(r['fulltype'][i])[0]).split(':::')[1]
        m = tg.eval_model(dict(SPECTYPE=inp['a']['spectype'], SUBTYPE=sub, COEFF=r['coeff'][i], LEGCOEFF=np.asarray(r['legcoeff'][i]), Z=float(r['z'][i, 0]), FITMETHOD='ARCH'), {}, archetypes={inp['a']['spectype']: ax})
        own = sum(float(np.sum(s.ivar * (s.flux - m[s.wavehash]) ** 2)) for s in tg.spectra)
        c = float(r['chi2'][i, 0])
        req(abs(own - c) <= 1e-6 * (own + c) + 1e-9 * sum(float(np.sum(s.ivar * s.flux ** 2)) for s in tg.spectra), 'the evaluated archetype model has the chi2 of the fit', (own, c))
