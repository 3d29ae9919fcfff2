"""C05: refinement of redshift minima"""
from .base import *
from .oracle import *
from .build import *
from redrock import fitz, igm
from redrock.zwarning import ZWarningMask as ZW
from .c03 import verify_fit, HUGE

def redshift_grid(rng, spectype, n):
    if spectype == 'STAR':
        return np.linspace(-.002, .002, n)
    if rng.random() < .5: return np.linspace(.05, float(rng.uniform(.3, 1.2)), n)
    a, b = .02, float(rng.uniform(.3, 1.2))
    return 10 ** np.linspace(np.log10(1 + a), np.log10(1 + b), n) - 1

def gen(rng, k):
    spectype = ['GALAXY', 'QSO', 'STAR'][k % 3]
    n = int(rng.integers(4, 40))
    zs = redshift_grid(rng, spectype, n)
    if k % 11 == 5: zs = zs[0] + (zs - zs[0]) * .05      # spacing far below the velocity limit
    t = template_spec(rng, spectype, nbasis=int(rng.integers(1, 4)), zs=zs, method=['PCA', 'NMF'][int(rng.random() < .3)], lo=1100., hi=9500., n=400,
                      igm=['Inoue14', 'None', 'Calura12'][int(rng.integers(0, 3))])
    if t['method'] == 'NMF': t['flux'] = np.abs(t['flux'])
    ztrue = float(rng.choice(zs)) + float(rng.uniform(-.4, .4)) * (zs[1] - zs[0])
    if k % 7 == 3: ztrue = float(zs[0] if k % 2 else zs[-1])
    sp = []
    c = rng.uniform(.5, 2, size=len(t['flux']))
    for g in range(int(rng.integers(1, 3))):
        m = int(rng.integers(15, 50)); w = np.linspace(3700 + 900 * g, 4300 + 900 * g, m)
        truth = rebin_all(t['wave'], t['flux'], [ztrue], w)[0] @ c
        s = spectrum_data(rng, w, truth, noise=float(10 ** rng.uniform(-2, .5)), band='br'[g] if k % 2 else None, mask=.1)
        s['flux'] = dense(s['R']) @ truth + (s['flux'] - truth)
        sp.append(s)
    if k % 13 == 7:
        for s in sp: s['ivar'][:] = 0
    # any chi2 curve may reach the refinement: smooth, noisy, tied or flat ones
    kind = int(rng.integers(0, 5))
    if kind <= 1: y = None                      # the real scan
    elif kind == 2: y = rng.uniform(10, 1000, size=n)
    elif kind == 3: y = rng.integers(0, 4, size=n) * 10. + 5
    else: y = 100 + 50 * np.cos(np.linspace(0, 25, n)) + rng.normal(size=n)
    return dict(t=t, sp=sp, y=y, nminima=int(rng.integers(1, 6)), npts=[None, 15, 7, 3, 21][int(rng.integers(0, 5))])

def scan(t, target, zs):
    from redrock import zscan
    from redrock.templates import DistTemplate
    dt = quiet(DistTemplate, t, {s.wavehash: s.wave for s in target.spectra})
    chi2, co, pen = zscan.calc_zchi2([target.id], [target], dt)
    return chi2[0] + pen[0]

def models_at(t, sps, Rs, z):
    out = []
    for s, R in zip(sps, Rs):
        b = rebin_all(t['wave'], t['flux'], [z], s['wave'])[0]
        T = np.asarray(igm.transmission_Lyman(np.array([z]), s['wave'], model=t['igm']))[0]
        out.append(R @ (b * T[:, None]))
    return np.vstack(out)

@contract('C05', ['redrock.fitz.fitz', 'redrock.fitz.minfit', 'redrock.fitz.get_dv'], gen, quick=700, thorough=15000, seconds=60)
def refine(inp, req):
    t = make_template(inp['t']); tg = make_target(dict(id=7, spectra=inp['sp']))
    zs = t.redshifts
    y = scan(t, tg, zs) if inp['y'] is None else np.array(inp['y'])
    ky, kz = y.copy(), zs.copy()
    kw = {} if inp['npts'] is None else dict(zminfit_npoints=inp['npts'])
    r = fitz.fitz(y, zs, tg, t, nminima=inp['nminima'], **kw)
    req(same(y, ky) and same(zs, kz), 'inputs unchanged')
    n = len(r['z'])
    req(n <= inp['nminima'], 'at most the requested number', n)
    if n == 0: return
    z = r['z'][:, 0]; chi2 = r['chi2'][:, 0]; zw = r['zwarn'][:, 0].astype(int)
    lim = 100. if inp['t']['spectype'] == 'STAR' else 1000.
    for i in range(n):
        for j in range(i):
            d = max(abs(dv(z[i], z[j])), abs(dv(z[j], z[i])))
            req(d >= lim * (1 - 1e-9), 'candidates are separated in velocity', (z[i], z[j], d))
    req(np.all(np.diff(chi2) >= 0), 'increasing chi2', chi2)
    w = np.concatenate([s.ivar for s in tg.spectra]); f = np.concatenate([s['flux'] for s in inp['sp']])
    npix = int(np.sum(w > 0))
    req(np.all(r['npixels'] == npix), 'pixels with positive weight', (r['npixels'], npix))
    req(len(r['coeff']) == n, 'one row per candidate')
    Rs = [dense(s['R']) for s in inp['sp']]
    for i in range(n):
        edge = z[i] < zs[1] or z[i] > zs[-2]
        lim_flag, bad = bool(zw[i] & ZW.Z_FITLIMIT), bool(zw[i] & ZW.BAD_MINFIT)
        req(lim_flag or not edge, 'end intervals carry the fit-limit warning', (z[i], zs[:2], zs[-2:]))
        if not bad: req(edge or not lim_flag, 'inner candidates carry no fit-limit warning')
        req(zw[i] & ~(ZW.Z_FITLIMIT | ZW.BAD_MINFIT) == 0, 'no other warning')
        zz, zc = r['zz'][i], r['zzchi2'][i]
        req(zz.shape == (inp['npts'] or 15,) and zz[0] >= zs[0] - 1e-12 and zz[-1] <= zs[-1] + 1e-12, 'fine grid inside the scanned range')
        k = int(np.clip(np.argmin(zc), 1, len(zz) - 2))
        x3, y3 = zz[k - 1:k + 2], zc[k - 1:k + 2]
        h = x3[1] - x3[0]
        a = (y3[0] - 2 * y3[1] + y3[2]) / (2 * h * h); b = (y3[2] - y3[0]) / (2 * h)
        scale = np.abs(y3).max()
        clear = abs(a) * h * h > 1e-7 * scale
        if clear:
            x0 = x3[1] - b / (2 * a); y0 = y3[1] - b * b / (4 * a)
            margin = min(abs(x0 - x3[0]), abs(x0 - x3[2])) > 1e-6 * h and abs(y0) > 1e-7 * scale
            if margin:
                failed = a < 0 or x0 <= x3[0] or x0 >= x3[2] or y0 <= 0
                req(bad == failed, 'bad-minimum warning exactly for failed parabolas', (bad, failed, a, x0, x3, y0))
                if not failed:
                    req(abs(z[i] - x0) < 1e-5 * h + 1e-9, 'redshift is the vertex', (z[i], x0))
                    req(abs(chi2[i] - y0) < 1e-5 * scale + 1e-6, 'chi2 is the vertex height', (chi2[i], y0))
                    req(abs(r['zerr'][i, 0] - 1 / np.sqrt(a)) < 1e-4 / np.sqrt(a), 'error is the width of the parabola')
        elif abs(a) * h * h < 1e-13 * scale and npix == 0: pass
        if not bad and npix:
            T = models_at(inp['t'], inp['sp'], Rs, z[i])
            c = r['coeff'][i]
            own = float(np.sum(w * (np.where(w > 0, f, 0) - T @ c) ** 2))
            if np.all(c == 0) and np.all(zc >= HUGE): continue
            verify_fit(req, T, f, w, own, c, inp['t']['method'])
    # fine-grid chi2 of one candidate: fits at those redshifts
    i = 0; j = int(np.argmin(r['zzchi2'][i]))
    if npix and r['zzchi2'][i][j] < HUGE and not (inp['t']['spectype'] == 'GALAXY' and inp['t']['method'] == 'PCA') and inp['t']['method'] == 'PCA':
        T = models_at(inp['t'], inp['sp'], Rs, r['zz'][i][j])
        sw = np.sqrt(w); A = sw[:, None] * T
        if np.linalg.cond(A) < 1e5:
            b = sw * np.where(w > 0, f, 0); best = np.linalg.lstsq(A, b, rcond=None)[0]
            opt = float(np.sum((A @ best - b) ** 2))
            req(abs(r['zzchi2'][i][j] - opt) <= 1e-6 * float(np.sum(b ** 2)) + 1e-9, 'fine-grid chi2 is that of the fit at that redshift', (r['zzchi2'][i][j], opt))
from_model = {}
