"""C07: the final table"""
from .base import *
from .oracle import dv
from .build import *
from .survey import *
from redrock import zfind, zscan, fitz
BAD = 2**3 + 2**4 + 2**5 + 2**6 + 2**10
SMALL, LITTLE, NODATA = 2**2, 2**1, 2**9

def gen(rng, k):
    d = gen_survey(rng, k); d['priors'] = None
    return d

def candidates(inp):
    "refined candidates of every target, by template, from a separate run of scan and refinement"
    dt, ts = build_survey(inp)
    scan = zscan.calc_zchi2_targets(dt, ts)
    out = {}
    for tg in dt.local():
        for t in ts:
            ft = t.template.full_type
            r = fitz.fitz(scan[tg.id][ft]['zchi2'] + scan[tg.id][ft]['penalty'], t.template.redshifts, tg, t.template, nminima=inp['nminima'])
            for i in range(len(r['z'])):
                out.setdefault(tg.id, []).append(dict(z=r['z'][i, 0], chi2=r['chi2'][i, 0], zwarn=int(r['zwarn'][i, 0]), zerr=r['zerr'][i, 0], coeff=r['coeff'][i],
                    zz=r['zz'][i], zzchi2=r['zzchi2'][i], npixels=int(r['npixels'][i, 0]), spectype=t.template.template_type, subtype=t.template.sub_type, nb=t.template.nbasis, method=t.template.method))
    return out

@contract('C07', ['redrock.zfind.zfind', 'redrock.zfind.sort_zfit_dict', 'redrock.zfind.calc_deltachi2', 'redrock.zscan.calc_zchi2_targets'], gen, quick=200, thorough=4000, seconds=80)
def table(inp, req):
    want = candidates(inp)
    dt, ts = build_survey(inp)
    npix = {t.id: sum(int((s.ivar > 0).sum()) for s in t.spectra) for t in dt.local()}
    res, zf = zfind.zfind(dt, ts, nminima=inp['nminima'])
    ids = [d['id'] for d in inp['targets']]
    req(set(zf['targetid']) == set(ids), 'every target is listed', (set(zf['targetid']), ids))
    req(set(res) == set(ids), 'scan results of every target')
    types = {t['spectype'] for t in inp['templates']}
    for tid in ids:
        rows = zf[zf['targetid'] == tid]; cand = list(want[tid])
        req(list(rows['znum']) == list(range(len(rows))), 'numbered in order', list(rows['znum']))
        bad = (rows['zwarn'] & BAD) != 0
        req(np.all(np.diff(bad.astype(int)) >= 0), 'good fits first')
        for b in (False, True): req(np.all(np.diff(np.asarray(rows['chi2'])[bad == b]) >= 0), 'increasing chi2 within each group')
        meta = [d['meta'] for d in inp['targets'] if d['id'] == tid][0]
        used = []
        for r in rows:
            m = [i for i, c in enumerate(cand) if i not in used and c['spectype'] == r['spectype'] and (c['subtype'] or '') == r['subtype'] and c['z'] == r['z'] and c['chi2'] == r['chi2']]
            if not req(len(m) > 0, 'each row is one refined candidate of its target', dict(z=r['z'], chi2=r['chi2'], t=r['spectype'])): continue
            c = cand[m[0]]; used.append(m[0])
            nc = len(c['coeff'])
            req(same(np.asarray(r['coeff'])[:nc], c['coeff'][:len(r['coeff'])]) and np.all(np.asarray(r['coeff'])[nc:] == 0), 'coefficients of that candidate', (r['coeff'], c['coeff']))
            req(r['zerr'] == c['zerr'] and same(r['zz'], c['zz']) and same(r['zzchi2'], c['zzchi2']) and r['fitmethod'] == c['method'], 'values of that candidate')
            req(r['ncoeff'] == c['nb'], 'its number of coefficients', (r['ncoeff'], c['nb']))
            req(r['npixels'] == npix[tid], 'pixels with positive weight')
            req(bool(r['zwarn'] & NODATA) == (npix[tid] == 0), 'no-data warning exactly without data', (r['zwarn'], npix[tid]))
            req(bool(r['zwarn'] & LITTLE) == (npix[tid] < 10 * c['nb']), 'little-coverage warning', (r['zwarn'], npix[tid], c['nb']))
            req((r['zwarn'] & ~(NODATA | LITTLE | SMALL)) == c['zwarn'], 'warnings of that candidate kept', (r['zwarn'], c['zwarn']))
            req(r['FIBER'] == meta['FIBER'] and r['mag'] == meta['mag'], 'metadata of its target')
        for t in types:
            mine = sorted([(bool(c['zwarn'] & BAD), c['chi2']) for c in cand if c['spectype'] == t])
            got = [(bool(r['zwarn'] & BAD), r['chi2']) for r in rows if r['spectype'] == t]
            req(len(got) == min(len(mine), inp['nminima']), 'at most the requested maximum per type, nothing else dropped', (t, len(got), len(mine)))
            req(got == mine[:len(got)], 'the best-ranked candidates of the type', (t, got, mine))
        # delta chi2 of the final list
        z, chi2, n = np.asarray(rows['z']), np.asarray(rows['chi2']), len(rows)
        lim = np.where(np.asarray(rows['spectype']) == 'STAR', 100., 1000.); good = ~np.asarray(bad)
        for i in range(n):
            v = np.abs(dv(z, z[i])); l = np.minimum(lim, lim[i]); later = np.arange(n) > i; other = np.arange(n) != i
            if np.any(np.abs(v - l)[other] < 1e-6 * l[other]): continue
            c = (chi2 - chi2[i])[later & good & (v > l)]
            req(abs(rows['deltachi2'][i] - (c.min() if len(c) else 0)) <= 1e-6, 'delta chi2 to the next distinct good fit', (i, rows['deltachi2'][i]))
            near = other & good & (v >= l) & (np.abs(chi2 - chi2[i]) < 9)
            req(bool(rows['zwarn'][i] & SMALL) == bool(near.any()), 'small delta chi2 warning', i)

def gen_pri(rng, k):
    d = gen_survey(rng, k, masks=False)
    d['prior'] = [(t['id'], float(rng.uniform(0, 1)), float(rng.uniform(.1, .8))) for t in d['targets'] if rng.random() < .7]
    d['func'] = ['gaussian', 'lorentzien'][k % 2]
    return d

@contract('C07', ['redrock.zfind.zfind'], gen_pri, quick=25, thorough=600, seconds=50)
def table_with_priors(inp, req):
    "a target without an entry gets the same rows as without priors, and all targets are listed"
    import tempfile
    from astropy.table import Table
    from .c08 import prior_of
    if not inp['prior']: raise Skip
    with tempfile.TemporaryDirectory() as d:
        p = d + '/p.fits'
        write_priors(p, inp['prior'], inp['func'])
        dt, ts = build_survey(inp); res, a = zfind.zfind(dt, ts, nminima=inp['nminima'], priors=p)
    dt, ts = build_survey(inp); res0, b = zfind.zfind(dt, ts, nminima=inp['nminima'])
    req(set(a['targetid']) == {t['id'] for t in inp['targets']}, 'every target is listed')
    ent = {x[0]: x[1:] for x in inp['prior']}
    for t in inp['targets']:
        for ft in res[t['id']]:
            z = res0[t['id']][ft]['redshifts']; x = res[t['id']][ft]['zchi2']; y = res0[t['id']][ft]['zchi2']
            p = prior_of(inp['func'], z, *ent[t['id']]) if t['id'] in ent else 0
            req(close(x, y + p, 1e-9, 1e-9), 'chi2 curve plus the prior of this target')
        if t['id'] in ent: continue
        x, y = a[a['targetid'] == t['id']], b[b['targetid'] == t['id']]
        req(len(x) == len(y) and same(x['z'], y['z']) and same(x['chi2'], y['chi2']), 'targets without a prior are not affected')

def write_priors(path, rows, func):
    from astropy.io import fits
    from astropy.table import Table
    t = Table(dict(TARGETID=np.array([r[0] for r in rows], dtype='i8'), Z=np.array([r[1] for r in rows], float), SIGMA=np.array([r[2] for r in rows], float), FUNCTION=np.array([func] * len(rows))))
    h = fits.table_to_hdu(t); h.name = 'PRIORS'
    fits.HDUList([fits.PrimaryHDU(), h]).writeto(path)

def gen_arch(rng, k):
    from .archbuild import archetype_spec
    d = gen_survey(rng, k); types = sorted({t['spectype'] for t in d['templates']}); d['per'] = bool(rng.random() < .6)
    some = [t for t in types if rng.random() < .6] or types[:1]
    if rng.random() < .15: some = [t for t in some if len(some) > 1][1:] + [t for t in ('GALAXY', 'QSO', 'STAR') if t not in types][:1] or some
    d['arch'] = [archetype_spec(rng, t, lo=1300., hi=9500., n=250) for t in some]
    d['nleg'] = int(rng.integers(0, 4)); n = min(len(a['flux']) for a in d['arch']); d['n_nearest'] = None if rng.random() < .6 else int(rng.integers(1, min(n, 3) + 1))
    d['prior'] = None if rng.random() < .5 else .1
    have = {}
    for t in d['targets']:
        for s in t['spectra']: have.setdefault(s['band'], 1)
    keep = set.intersection(*[{s['band'] for s in t['spectra']} for t in d['targets']])     # the same cameras for all targets
    for t in d['targets']: t['spectra'] = [s for s in t['spectra'] if s['band'] in keep]
    return d
def refined_with(req, tg, t, a, r, r0, kw):
    "archetype candidates r against the refinement r0 without archetypes and the best archetypes at these redshifts"
    from redrock.zscan import spectral_data
    req(sorted(r['z'][:, 0]) == sorted(r0['z'][:, 0]), 'redshifts as without archetypes'); dw = {s.wavehash: s.wave for s in tg.spectra}; w, f, wf = spectral_data(tg.spectra)
    for i, z in enumerate(r['z'][:, 0]):
        m = np.where(r0['z'][:, 0] == z)[0]
        if len(m) != 1: continue
        m = m[0]; req(all(same(r[k][i], r0[k][m]) for k in ('zerr', 'zz', 'zzchi2', 'zwarn')), 'errors, curve and warnings as without archetypes'); req(same(np.ravel(r['pca_coeff'][i]), np.ravel(r0['coeff'][m])), 'coefficients of the template at that redshift', (r['pca_coeff'][i], r0['coeff'][m]))
        req((str(r['pca_spectype'][i, 0]), str(r['pca_subtype'][i, 0])) == (t.template_type, t.sub_type or ''), 'the template of the candidate')
        if r['zwarn'][i, 0] & 2**10 or t.igm_model != a.igm_model or not t.redshifts[0] <= z <= t.redshifts[-1]: continue
        per, nn, nleg = kw['per_camera'], kw['n_nearest'], kw['deg_legendre']; nc = len(dw) if per else 1; p = None if kw['prior_sigma'] is None else fitz.prior_on_coeffs(nn or 1, nleg, kw['prior_sigma'], nc)
        tg.legendre(nleg); chi2, co, full = a.get_best_archetype(tg, w, f, wf, dw, z, per, nn, prior=p); k = nn or 1
        req(close(r['chi2'][i, 0], chi2, 1e-9, 1e-9) and close(np.ravel(r['coeff'][i]), co[:k], 1e-6, 1e-9) and close(np.ravel(r['legcoeff'][i]), co[k:], 1e-6, 1e-9) and str(r['fulltype'][i, 0]) == full, 'the best archetypes at that redshift', (r['chi2'][i], chi2, r['fulltype'][i], full))
@contract('C07', ['redrock.zfind.zfind', 'redrock.fitz.fitz', 'redrock.utils.extra_columns_in_archetype_mode'], gen_arch, quick=120, thorough=2500, seconds=70)
def table_with_archetypes(inp, req):
    from redrock.templates import parse_fulltype
    from redrock.zwarning import ZWarningMask as ZW
    from .archbuild import make_arch
    arch = {a['spectype']: make_arch(a) for a in inp['arch']}; ids = [t['id'] for t in inp['targets']]
    kw = dict(deg_legendre=inp['nleg'], per_camera=inp['per'], n_nearest=inp['n_nearest'], prior_sigma=inp['prior'])
    dt, ts = build_survey(inp); scan = zscan.calc_zchi2_targets(dt, ts); cand = {i: [] for i in ids}
    for tg in dt.local():
        for t in ts:
            t = t.template; ft = t.full_type; a = arch.get(t.template_type)
            r = fitz.fitz(scan[tg.id][ft]['zchi2'] + scan[tg.id][ft]['penalty'], t.redshifts, tg, t, nminima=inp['nminima'], archetype=a, **kw)
            if a is not None: refined_with(req, tg, t, a, r, fitz.fitz(scan[tg.id][ft]['zchi2'] + scan[tg.id][ft]['penalty'], t.redshifts, tg, t, nminima=inp['nminima']), kw)
            for i in range(len(r['z'])):
                sp, sub = parse_fulltype(r['fulltype'][i, 0]) if a is not None else (t.template_type, t.sub_type or '')
                cand[tg.id].append(dict(z=r['z'][i, 0], zerr=r['zerr'][i, 0], chi2=r['chi2'][i, 0], zwarn=int(r['zwarn'][i, 0]), zz=r['zz'][i], zzchi2=r['zzchi2'][i], coeff=r['coeff'][i], spectype=sp, subtype=sub, arch=a is not None,
                    legcoeff=r['legcoeff'][i] if a is not None else None, pca=r['pca_coeff'][i] if a is not None else r['coeff'][i], pt=(t.template_type, t.sub_type or ''), method='ARCH' if a is not None else t.method))
    if not all(cand.values()): raise Skip
    npix = {t.id: sum(int((s.ivar > 0).sum()) for s in t.spectra) for t in dt.local()}
    dt, ts = build_survey(inp); res, zf = zfind.zfind(dt, ts, nminima=inp['nminima'], archetypes=arch, ncamera=len({s['band'] for s in inp['targets'][0]['spectra']}), **kw)
    req(set(zf['targetid']) == set(ids), 'every target is listed'); txt = lambda x: x.decode() if isinstance(x, bytes) else str(x)
    for tid in ids:
        rows, cs, used = zf[zf['targetid'] == tid], cand[tid], []
        req(list(rows['znum']) == list(range(len(rows))), 'numbered in order'); bad = np.asarray((rows['zwarn'] & BAD) != 0)
        req(np.all(np.diff(bad.astype(int)) >= 0), 'good fits first')
        for b in (False, True): req(np.all(np.diff(np.asarray(rows['chi2'])[bad == b]) >= 0), 'increasing chi2 within each group')
        meta = [d['meta'] for d in inp['targets'] if d['id'] == tid][0]; some = any(c['arch'] for c in cs)
        for r in rows:
            same_c = lambda c: c['spectype'] == r['spectype'] and c['subtype'] == r['subtype'] and c['z'] == r['z'] and c['chi2'] == r['chi2']
            m = [i for i, c in enumerate(cs) if i not in used and same_c(c)]
            if not req(len(m) > 0, 'each row is one refined candidate of its target', dict(z=r['z'], chi2=r['chi2'], t=(r['spectype'], r['subtype']))): continue
            def whole(c):
                n = len(c['coeff']); x = np.atleast_1d(r['coeff'])
                return same(x[:n], c['coeff']) and np.all(x[n:] == 0) and r['zerr'] == c['zerr'] and same(r['zz'], c['zz']) and same(r['zzchi2'], c['zzchi2']) and r['fitmethod'] == c['method'] and r['ncoeff'] == n
            w = [i for i in m if whole(cs[i])]
            if not req(len(w) > 0, 'values and coefficients of that candidate', (r['coeff'], cs[m[0]]['coeff'])): continue
            c = cs[w[0]]; used.append(w[0]); n = len(c['coeff'])
            req(r['npixels'] == npix[tid] and bool(r['zwarn'] & NODATA) == (npix[tid] == 0) and bool(r['zwarn'] & LITTLE) == (npix[tid] < 10 * n), 'coverage warnings')
            req((r['zwarn'] & ~(NODATA | LITTLE | SMALL | ZW.NEGATIVE_MODEL)) == (c['zwarn'] & ~ZW.NEGATIVE_MODEL), 'warnings of that candidate kept')
            neg = bool(r['zwarn'] & ZW.NEGATIVE_MODEL)
            if not c['arch']: req(not neg, 'no negative-model warning without archetypes')
            elif np.any(c['coeff'] < 0): req(neg, 'warning for negative archetypes')
            elif np.all(c['coeff'] > 0): req(not neg, 'no warning for positive archetypes')
            req(r['FIBER'] == meta['FIBER'] and r['mag'] == meta['mag'], 'metadata of its target')
            if some:
                x = np.atleast_1d(r['pca_coeff']); n = len(c['pca'])
                req(same(x[:n], c['pca']) and np.all(x[n:] == 0), 'template coefficients of that candidate', (x, c['pca']))
                req((txt(r['pca_spectype']), txt(r['pca_subtype'])) == c['pt'], 'template of that candidate', (r['pca_spectype'], r['pca_subtype'], c['pt']))
                y = np.asarray(r['legcoeff']); req(np.all(y == 0) if not c['arch'] else y.size == np.size(c['legcoeff']) and same(y.ravel(), np.ravel(c['legcoeff'])), 'Legendre coefficients of that candidate', (y, c['legcoeff']))
        for t in {c['spectype'] for c in cs}:
            def key(c):
                neg = c['arch'] and bool(np.any(c['coeff'] < 0)); return (bool(c['zwarn'] & BAD) or neg, c['chi2'])
            if any(c['arch'] and np.any(c['coeff'] == 0) for c in cs): continue
            mine = sorted(key(c) for c in cs if c['spectype'] == t); got = [(bool(r['zwarn'] & BAD), r['chi2']) for r in rows if r['spectype'] == t]
            req(got == mine[:inp['nminima']], 'the best-ranked candidates of the type, no more than requested', (t, got, mine))

from_model = {}
