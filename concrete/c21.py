"""C21: the DESI redshift catalogue"""
import shutil, tempfile
from .base import *
from .fakecomm import run_ranks
from . import build, c20
BITS = dict(UNASSIGNED=0, STUCK=1, BROKEN=2, RESTRICTED=3, MISSING=8, BADPOS=9, POORPOS=10, LOWTRANS=12, BADFIBER=16, AMPB=22, AMPR=23, AMPZ=24, PETAL=25)
ZW = dict(SKY=0, LITTLE_COVERAGE=1, UNPLUGGED=7, BAD_TARGET=8, NODATA=9, POORDATA=11)
BANDS = ['b', 'r', 'z']
def wave(b, n): return dict(b=5566., r=5579., z=9788.)[b] + 1.0 * np.arange(n)

def gen(rng, k):
    nf = int(rng.choice([1, 1, 2])); pool = [int(x) for x in rng.permutation(40)[:int(rng.integers(2, 7))] + (39627000000000000 if rng.random() < .5 else 100)]
    bands = BANDS[:int(rng.integers(1, 4))]; nw = {b: int(rng.integers(12, 18)) for b in BANDS}; nd = 3; files = []
    for q in range(nf):
        ids = [int(i) for i in rng.permutation(pool) if nf == 1 or rng.random() < .8] or pool[:1]; n = len(ids)
        d = dict(coadded=True, ids=ids, bands=bands, data={}, exp=ids, onetile=True, interleave=False)
        d['status'] = [int(sum(2 ** b for b in set(rng.choice(list(BITS.values()), size=int(rng.integers(0, 4)))))) if rng.random() < .6 else 0 for _ in ids]
        d['objtype'] = [str(rng.choice(['TGT', 'TGT', 'TGT', 'SKY', 'BAD', ''])) for _ in ids]
        for b in bands:
            s = (n, nw[b]); R = np.zeros((n, nd, nw[b])); R[:, 1] = 1; R[:, 0] = .01; R[:, 2] = .02
            d['data'][b] = dict(flux=rng.normal(size=s).astype('f4'), ivar=rng.uniform(.5, 2, size=s).astype('f4'), mask=None, R=R.astype('f4'))
        files.append(d)
    ids = c20.order(i for f in files for i in f['ids']); ids = [int(i) for i in rng.permutation(ids)]
    tm = [dict(spectype=a, subtype=s, method=m, nb=nb) for a, s, m, nb in [('GALAXY', '', 'NMF', 4), ('QSO', 'HIZ', 'PCA', 2), ('STAR', 'M', 'PCA', 3), ('STAR', 'CV', 'PCA', 1)]][:int(rng.integers(1, 5))]
    for t in tm: t['spec'] = build.template_spec(rng, t['spectype'], t['subtype'], nbasis=t['nb'], lo=700., hi=12000., n=400, zs=[0.], method=t['method'])
    mc = max(t['nb'] for t in tm); rows = []
    for i in ids:
        for q in range(int(rng.integers(1, 4))):
            t = tm[int(rng.integers(len(tm)))]; c = np.zeros(mc); c[:t['nb']] = rng.normal(size=t['nb'])
            rows.append(dict(targetid=i, z=float(rng.uniform(0, .5)), zerr=float(rng.uniform(0, .1)), zwarn=int(rng.choice([0, 4, 32, 2048, 1024])), chi2=float(rng.uniform(0, 1e4)), zz=rng.normal(size=5), zzchi2=rng.normal(size=5),
                             coeff=c, npixels=int(rng.integers(0, 10**5)), spectype=t['spectype'], subtype=t['subtype'], ncoeff=t['nb'], fitmethod=t['method'], znum=q, deltachi2=float(rng.uniform(0, 100))))
    return dict(files=files, nw=nw, tm=tm, rows=rows, nd=nd, ranks=[0, 0, 0, 2, 3][int(rng.integers(5))], sky=bool(rng.random() < .7), allspec=bool(rng.random() < .4), model=bool(rng.random() < .8), details=bool(rng.random() < .7), out=True,
                earlier=bool(rng.random() < .3), nminima=int(rng.integers(1, 6)) if rng.random() < .5 else None, sub='sub' if rng.random() < .3 else '', ftype='U3' if rng.random() < .8 else 'U4')

def table(inp):
    from astropy.table import Table
    t = Table()
    for c in ('targetid', 'z', 'zerr', 'zwarn', 'chi2', 'zz', 'zzchi2', 'coeff', 'npixels', 'spectype', 'subtype', 'ncoeff', 'fitmethod', 'znum', 'deltachi2'):
        t[c] = np.array([r[c] for r in inp['rows']], dtype=dict(spectype='U6', subtype='U20', fitmethod=inp['ftype']).get(c))
    return t
def flags(inp):
    "per target: bits to be set, and whether there are data"
    out = {}
    for f in inp['files']:
        for i, s, o in zip(f['ids'], f['status'], f['objtype']):
            on = lambda b: bool(s >> BITS[b] & 1); bad = o not in ('TGT', 'SKY'); w = set()
            if on('POORPOS'): w.add('POORDATA')
            if on('BADPOS') or on('BROKEN') or on('UNASSIGNED') or bad: w.add('NODATA')
            if on('BROKEN'): w.add('UNPLUGGED')
            if o == 'SKY': w.add('SKY')
            if on('AMPB') or on('AMPR') or on('AMPZ'): w.add('LITTLE_COVERAGE')
            if bad: w.add('BAD_TARGET')
            out[i] = out.get(i, set()) | w
    return out

@contract('C21', ['external.desi.rrdesi', 'external.desi.write_zbest', 'external.desi.write_bestmodel'], gen, quick=120, thorough=3000)
def catalogue(inp, req):
    import logging
    logging.disable(logging.CRITICAL)
    import redrock.external.desi as M
    from astropy.io import fits
    from astropy.table import Table
    d = tempfile.mkdtemp(prefix='vc_c21_'); old = M.zfind, M.load_dist_templates
    env = os.environ.get('RR_TEMPLATE_DIR'); os.environ['RR_TEMPLATE_DIR'] = d
    try:
        names = c20.write(inp, d, wave=wave); o = os.path.join(d, inp['sub'], 'zbest.fits'); m = os.path.join(d, inp['sub'], 'model.fits'); h = os.path.join(d, 'x.h5')
        if inp['earlier']:
            os.makedirs(os.path.dirname(o), exist_ok=True); open(o, 'w').write('earlier'); open(m, 'w').write('earlier')
        tm = [build.make_template(t['spec']) for t in inp['tm']]; seen = []
        for k, t in enumerate(tm): t._filename = 'rrtemplate-%d.fits' % k
        class DT:
            def __init__(s, t): s.template = t
        M.load_dist_templates = lambda *a, **k: [DT(t) for t in tm]
        def zfind(targets, templates, mp=1, **k):
            seen.append((k, [(int(t.id), [(s.band, np.array(s.wave), np.array(s.flux), np.array(s.ivar)) for s in t.spectra]) for t in targets.local()]))
            if targets.comm is not None and targets.comm.rank != 0: return None, None
            scan = {int(i): {t.full_type: dict(redshifts=np.zeros(2), zchi2=np.ones(2), penalty=np.zeros(2), zcoeff=np.zeros((2, t.nbasis))) for t in tm} for i in targets.all_target_ids}
            return scan, table(inp)
        M.zfind = zfind
        args = ['-i'] + names + ['-o', o] + (['--model', m] if inp['model'] else []) + (['--details', h] if inp['details'] else []) + ([] if inp['sky'] else ['--no-skymask']) + (['--allspec'] if inp['allspec'] else []) + ['--mp', '1'] + (['--nminima', str(inp['nminima'])] if inp['nminima'] else [])
        if inp['ranks']: run_ranks(inp['ranks'], lambda comm: M.rrdesi(args + ['--no-mpi-abort'], comm=comm))
        else: M.rrdesi(args)
        # fits see only usable pixels
        want = flags(inp); ids = list(want); have = [x for _, t in seen for x in t]
        req(sorted(i for i, _ in have) == sorted(ids), 'every target is fitted once', (have and [i for i, _ in have], ids))
        req(all(k['nminima'] == (inp['nminima'] or 3) for k, _ in seen), 'number of minima asked for')
        spec = c20.model(dict(inp, want=None, first=None, n=None, nsig=5.))[1]
        if inp['allspec']:
            for i, sp in have:
                for s, w in zip(sp, spec[i]):
                    win = ((s[1] >= 5572) & (s[1] <= 5582)) | ((s[1] >= 9792) & (s[1] <= 9795)); iv = np.where(win, 0, w[2]) if inp['sky'] else w[2]
                    req(same(s[3][~w[4]], iv[~w[4]]), 'night sky windows carry no weight, other pixels keep theirs', (i, s[0]))
                    req(same(s[2], w[1]), 'fluxes are those of the input', (i, s[0]))
        else:
            for i, sp in have:
                for s in sp:
                    win = ((s[1] >= 5572) & (s[1] <= 5582)) | ((s[1] >= 9792) & (s[1] <= 9795)); iv = sum(w[2] for w in spec[i] if w[0] == s[0]); edge = np.any([w[4] for w in spec[i] if w[0] == s[0]], axis=0)
                    if inp['sky']: iv = np.where(win, 0, iv)
                    req(close(s[3][~edge], iv[~edge], rtol=1e-6), 'night sky windows carry no weight, other pixels keep theirs', (i, s[0], s[3], iv))
        # the catalogue
        best = {r['targetid']: r for r in inp['rows'] if r['znum'] == 0}; byid = [r['targetid'] for r in inp['rows'] if r['znum'] == 0]
        def expected(r):
            e = dict(r); w = want[r['targetid']]
            for b in w: e['zwarn'] |= 2 ** ZW[b]
            if 'NODATA' in w: e.update(spectype='GALAXY', subtype='', coeff=np.zeros(len(r['coeff'])), z=0., fitmethod='NONE')
            return e
        with fits.open(o) as f: cat = Table(f['REDSHIFTS'].data); fm = Table(f['FIBERMAP'].data); ex = Table(f['EXP_FIBERMAP'].data); ts = Table(f['TSNR2'].data)
        req([int(i) for i in cat['TARGETID']] == byid and sorted(byid) == sorted(ids), 'one row per target', (list(cat['TARGETID']), byid))
        req(sorted(c for c in cat.colnames) == sorted(c.upper() for c in inp['rows'][0] if c not in ('zz', 'zzchi2', 'znum')), 'columns of the catalogue', cat.colnames)
        text = lambda x: (x.decode() if isinstance(x, bytes) else str(x)).strip()
        single = ('zerr', 'coeff', 'chi2', 'deltachi2', 'zz', 'zzchi2')
        def compare(what, row, e, up):
            for c, x in e.items():
                if up and c in ('zz', 'zzchi2', 'znum'): continue
                y = row[c.upper() if up else c]
                if isinstance(x, str): ok = text(y) == x
                elif isinstance(x, int): ok = int(y) == x
                else: ok = close(np.ravel(y), np.ravel(x), rtol=1e-6 if c in single else 1e-15, atol=0)
                req(ok, '%s: %s' % (what, c), (e['targetid'], y, x))
        for row, i in zip(cat, byid): compare('catalogue', row, expected(best[i]), True)
        rows = lambda t: [int(i) for i in t['TARGETID']]
        req(rows(fm) == [i for f in inp['files'] for i in f['ids']], 'fibermap rows'); req(rows(ex) == rows(fm) and rows(ts) == rows(fm), 'exposure and score rows')
        left = sorted(os.listdir(os.path.dirname(o))); allowed = {'zbest.fits', 'x.h5'} | ({'model.fits'} if inp['model'] or inp['earlier'] else set()) | {os.path.basename(n) for n in names} | {'sub'}
        req(set(left) <= allowed, 'nothing else is left behind', left)
        if inp['details']:
            from redrock.results import read_zfit
            t = read_zfit(h); key = {(int(r['targetid']), int(r['znum'])): r for r in t}
            req(len(t) == len(inp['rows']) and len(key) == len(t), 'details: one row per candidate')
            for r in inp['rows']: compare('details', key[r['targetid'], r['znum']], expected(r), False)
        if inp['model']:
            with fits.open(m) as f:
                mt = Table(f['REDSHIFTS'].data); req([int(i) for i in mt['TARGETID']] == byid, 'model rows are the catalogue rows')
                for b in inp['files'][0]['bands']:
                    w, a = f[b.upper() + '_WAVELENGTH'].data, f[b.upper() + '_MODEL'].data; n = inp['nw'][b]
                    req(same(w, wave(b, n)) and a.shape == (len(byid), n), 'model: wavelengths and shape of the camera')
                    for k, i in enumerate(byid):
                        e = expected(best[i])
                        if not np.any(e['coeff']): req(not np.any(a[k]), 'a target without data has a zero model', i); continue
                        t = [x for x in tm if (x.template_type, x.sub_type) == (e['spectype'], e['subtype'])][0]
                        R = np.zeros((n, n)); R[np.arange(n), np.arange(n)] = np.float32(1)
                        for j in range(n - 1): R[j, j + 1] = np.float32(.01); R[j + 1, j] = np.float32(.02)
                        y = R @ np.ravel(t.eval(np.float32(e['coeff'][:t.nbasis]), wave(b, n), e['z']))
                        req(close(a[k], y, rtol=1e-4, atol=1e-4 * max(1e-3, float(np.max(np.abs(y))))), 'model of the target in its own row', (i, b, a[k][:4], y[:4]))
    finally:
        shutil.rmtree(d, ignore_errors=True); M.zfind, M.load_dist_templates = old
        if env is None: os.environ.pop('RR_TEMPLATE_DIR', None)
        else: os.environ['RR_TEMPLATE_DIR'] = env
