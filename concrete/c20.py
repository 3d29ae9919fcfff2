"""C20: DESI spectra reach the target that owns them"""
import shutil, tempfile
from .base import *
from .fakecomm import run_ranks
NSIG = 5.

def gen(rng, k):
    nf = [1, 2, 1, 3, 2][k % 5]; pool = [int(x) for x in rng.permutation(40)[:int(rng.integers(2, 7))] + (39627000000000000 if rng.random() < .5 else 100)]
    if rng.random() < .2: pool[0] = -pool[0]
    allb = [['b', 'r', 'z'], ['b', 'r'], ['r', 'z'], ['b'], ['z', 'b']][int(rng.integers(0, 5))]
    onetile = bool(rng.random() < .5)
    nw = {b: int(rng.integers(8, 14)) for b in 'brz'}; nd = int(rng.choice([3, 5]))
    files = []; co = bool(rng.random() < .6)
    for f in range(nf):
        ids = [i for i in rng.permutation(pool) if rng.random() < .8] or [pool[0]]; ids = [int(i) for i in ids]
        tg = ids if co else [int(i) for i in rng.permutation([i for i in ids for _ in range(int(rng.integers(1, 4)))])]
        bands = [b for b in allb if f == 0 or rng.random() < .85] or [allb[0]]
        if rng.random() < .25: bands = bands[::-1]
        d = dict(coadded=co, ids=tg, bands=bands, data={}, exp=[int(i) for i in rng.permutation([i for i in ids for _ in range(int(rng.integers(1, 3)))])], onetile=onetile, interleave=bool(rng.random() < .3))
        n = len(tg)
        for b in bands:
            s = (n, nw[b]); fl = rng.normal(size=s) * 10 ** rng.uniform(-2, 2); iv = rng.uniform(.1, 3, size=s) / np.var(fl)
            u = rng.random(s); fl[u < .04] = np.nan; fl[(u > .04) & (u < .06)] = np.inf; fl[(u > .06) & (u < .08)] = -np.inf
            u = rng.random(s); iv[u < .15] = 0; iv[(u > .15) & (u < .18)] = np.nan; iv[(u > .18) & (u < .2)] = np.inf
            m = (rng.random(s) < .15) * 2 ** rng.integers(0, 31, size=s)
            u = rng.random(s); neg = (u < .06); g = np.isfinite(iv) & (iv > 0) & neg
            fl[g] = -rng.choice([4.9, 5.1, 30, 1e5], size=int(g.sum())) / np.sqrt(iv[g])
            g = np.isfinite(iv) & (iv > 0) & (u > .97); fl[g] = 40 / np.sqrt(iv[g])
            R = rng.uniform(.1, 1, size=(n, nd, nw[b])); offs = np.arange(nd // 2, -(nd // 2) - 1, -1); row = rng.choice([1., 1., 1., .98, .5, 1.01, 0.], size=s)
            for q in range(n):          # rows of the matrix sum to the chosen values
                tot = np.zeros(nw[b])
                for j, o in enumerate(offs):
                    for c in range(nw[b]):
                        if 0 <= c - o < nw[b]: tot[c - o] += R[q, j, c]
                for j, o in enumerate(offs):
                    for c in range(nw[b]):
                        if 0 <= c - o < nw[b]: R[q, j, c] *= row[q, c - o] / tot[c - o]
            d['data'][b] = dict(flux=fl.astype('f4'), ivar=iv.astype('f4'), mask=m.astype('i4') if rng.random() < .75 else None, R=R.astype('f4'))
        files.append(d)
    if any(len(f['ids']) < 2 for f in files):          # the fibermaps of all files have the same columns
        for f in files: f['onetile'] = True
    kept = set(i for f in files for i in f['ids']); want = None
    if rng.random() < .4: want = [int(i) for i in rng.permutation(sorted(kept))[:int(rng.integers(1, len(kept) + 1))]]
    first = n = None
    if want is None and rng.random() < .4:
        m = min(len(set(f['ids'])) for f in files)
        first = int(rng.integers(0, m)) if rng.random() < .7 else None; n = int(rng.integers(1, m - (first or 0) + 1)) if rng.random() < .7 else None
    return dict(files=files, nw=nw, want=want, first=first, n=n, coadd=bool(rng.random() < .35), ranks=[0, 0, 0, 2, 3][int(rng.integers(0, 5))], rcsr=bool(rng.random() < .5), cosmics=0, nsig=NSIG if rng.random() < .7 else -NSIG, caps=bool(rng.random() < .2), beyond=bool(rng.random() < .05), glob=bool(nf == 1 and rng.random() < .3))

def wave(b, n): return dict(b=3600., r=5700., z=7500.)[b] + .8 * np.arange(n)
def order(ids): return list(dict.fromkeys(ids))

def write(inp, d, wave=wave):
    from astropy.io import fits
    from astropy.table import Table
    names = []
    for q, f in enumerate(inp['files']):
        n = len(f['ids']); t = Table(); t['TARGETID'] = np.array(f['ids'], 'i8'); bad = lambda m: np.arange(m) * 0
        tile = (lambda m: np.ones(m, 'i4') * 7) if f['onetile'] else (lambda m: 7 + np.arange(m, dtype='i4') % 2)
        h = fits.HDUList([fits.PrimaryHDU()]); h[0].header['SURVEY'] = 'f%d' % q
        if f['coadded']:
            t['COADD_FIBERSTATUS'] = np.array(f.get('status', [0] * n), 'i4'); t['ROW'] = 1000 * q + np.arange(n); t['OBJTYPE'] = np.array(f.get('objtype', ['TGT'] * n))
            e = Table(); e['TARGETID'] = np.array(f['exp'], 'i8'); e['EXPID'] = (1000 * q + np.arange(len(f['exp']))).astype('i4')
        else:
            t['FIBERSTATUS'] = np.array(f.get('status', [0] * n), 'i4'); t['TILEID'] = tile(n); t['NIGHT'] = 20200101 + np.zeros(n, 'i4'); t['EXPID'] = (1000 * q + np.arange(n)).astype('i4'); t['FIBER'] = np.arange(n, dtype='i4'); t['EXPTIME'] = np.ones(n, 'f4')
            t['OBJTYPE'] = np.array(f.get('objtype', ['TGT'] * n)); t['ROW'] = 1000 * q + np.arange(n); e = None
            t['FIBERASSIGN_X'] = np.zeros(n, 'f4'); t['TARGET_RA'] = np.zeros(n); t['TARGET_DEC'] = np.zeros(n); t['MJD'] = np.ones(n)
        h.append(fits.BinTableHDU(t, name='FIBERMAP'))
        if e is not None: h.append(fits.BinTableHDU(e, name='EXP_FIBERMAP'))
        s = Table(); s['TARGETID'] = np.array(f['ids'], 'i8'); s['TSNR2_ELG_B'] = (1. + np.arange(n) + 100 * q).astype('f4'); s['OTHER'] = np.zeros(n)
        h.append(fits.BinTableHDU(s, name='SCORES'))
        ext = []
        for b in f['bands']:
            B = b.upper(); x = f['data'][b]
            ext.append([fits.ImageHDU(wave(b, inp['nw'][b]), name=B + '_WAVELENGTH'), fits.ImageHDU(x['flux'], name=B + '_FLUX'), fits.ImageHDU(x['ivar'], name=B + '_IVAR')] + ([fits.ImageHDU(x['mask'], name=B + '_MASK')] if x['mask'] is not None else []) + [fits.ImageHDU(x['R'], name=B + '_RESOLUTION')])
        if f['interleave']: ext = [[e[0] for e in ext]] + [e[1:] for e in ext]
        for e in ext:
            for u in e: h.append(u)
        names.append(os.path.join(d, 'spectra-%d.fits' % q)); h.writeto(names[-1], overwrite=True)
    return names

def model(inp):
    "expected: kept ids in order, per id the list of (band, flux, ivar, R), per file the rows of the tables"
    ids, spec, fm, em, ts = [], {}, [], [], []
    for q, f in enumerate(inp['files']):
        u = order(f['ids'])
        keep = inp['want'] if inp['want'] is not None else u[(inp['first'] or 0):][:inp['n'] if inp['n'] is not None else None]
        ids += [i for i in keep if i not in ids]
        for i in keep: spec.setdefault(i, [])
        for b in f['bands']:
            x = f['data'][b]
            for r, i in enumerate(f['ids']):
                if i not in keep: continue
                fl, iv = x['flux'][r].astype(float), x['ivar'][r].astype(float)
                badf = ~np.isfinite(fl); fl[badf] = 0; iv[~np.isfinite(iv) | badf] = 0
                R = x['R'][r].astype(float); nd, n = R.shape; row = np.zeros(n); offs = np.arange(nd // 2, -(nd // 2) - 1, -1)
                for j, o in enumerate(offs):
                    for c in range(n):
                        if 0 <= c - o < n: row[c - o] += R[j, c]
                nsig = fl * np.sqrt(iv)
                out = (nsig < -abs(inp['nsig'])) | (row < .99)
                edge = (abs(nsig + abs(inp['nsig'])) < 1e-9) | (abs(row - .99) < 1e-9)
                if x['mask'] is not None: out |= x['mask'][r] != 0
                spec[i].append((b, fl, np.where(out, 0, iv), R, edge, q, r))
        fm += [(i, 1000 * q + (f['ids'].index(i))) for i in u if i in keep]
        ts += [(i, 1 + f['ids'].index(i) + 100 * q if f['coadded'] else sum(1 + r + 100 * q for r, j in enumerate(f['ids']) if j == i)) for i in u if i in keep]
        e = f['exp'] if f['coadded'] else f['ids']
        em += [(i, 1000 * q + r) for r, i in enumerate(e) if i in keep]
    return ids, spec, fm, em, ts

def load(names, inp, comm=None):
    from redrock.external.desi import DistTargetsDESI
    k = {} if comm is None or not inp['caps'] else dict(capacities=[1. + r for r in range(comm.size)])
    return DistTargetsDESI(names, coadd=inp['coadd'], targetids=inp['want'], first_target=inp['first'], n_target=inp['n'], comm=comm, cache_Rcsr=inp['rcsr'], negflux_nsig=inp['nsig'], **k)

@contract('C20', ['external.desi.DistTargetsDESI.__init__'], gen, quick=220, thorough=6000)
def reading(inp, req):
    import logging
    logging.disable(logging.CRITICAL)
    d = tempfile.mkdtemp(prefix='vc_c20_')
    try:
        names = write(inp, d); raw = [open(n, 'rb').read() for n in names]
        if inp['beyond'] and inp['want'] is None:
            m = min(len(set(f['ids'])) for f in inp['files'])
            for a, b in ((m + 1, None), (0, m + 1), (m, 1)):
                try: load(names, dict(inp, first=a, n=b)); ok = False
                except RuntimeError: ok = True
                req(ok, 'a range beyond the selected targets is refused', (a, b))
            return
        if inp['ranks']:
            got = run_ranks(inp['ranks'], lambda comm: _facts(load(names, inp, comm)))[0]
        else: got = [_facts(load(names[0] if inp['glob'] else names, inp))]
        req([open(n, 'rb').read() for n in names] == raw, 'the input files are unchanged')
        ids, spec, fm, em, ts = model(inp)
        every = []
        for g in got:
            req(g['all'] == ids, 'targets in order of first appearance', (g['all'], ids))
            req(g['local'] == [t[0] for t in g['targets']], 'local targets are in the order of their identifiers')
            req(g['fm'] == fm, 'rows of the coadded fibermap', (g['fm'], fm))
            req(g['em'] == em, 'rows of the exposure fibermap', (g['em'], em))
            req(len(g['ts']) == len(ts) and all(a[0] == b[0] and abs(a[1] - b[1]) < 1e-3 for a, b in zip(g['ts'], ts)), 'rows of the scores', (g['ts'], ts))
            req(g['header'] == 'f0', 'header of the first file')
            every += g['targets']
        req(sorted(t[0] for t in every) == sorted(ids), 'every target is held by exactly one process')
        for i, sp in every:
            want = spec[i]
            if inp['coadd']: _coadded(req, i, sp, want, inp); continue
            if not req([s['band'] for s in sp] == [w[0] for w in want], 'spectra in order of file, camera and row', (i, [s['band'] for s in sp], [w[0] for w in want])): continue
            for s, w in zip(sp, want):
                why = 'target %s, file %d, row %d, band %s' % (i, w[5], w[6], w[0])
                req(same(s['wave'], wave(w[0], len(w[1]))), 'wavelengths of the camera', why)
                req(same(s['flux'], w[1]), 'fluxes of its own rows', why)
                g = ~w[4]
                req(bool(np.all(s['ivar'][(w[2] == 0) & g] == 0)), 'unusable pixels have no weight', (why, s['ivar'], w[2]))
                req(same(s['ivar'][(w[2] != 0) & g], w[2][(w[2] != 0) & g]), 'usable pixels keep their weight', (why, s['ivar'], w[2]))
                req(same(s['R'], w[3]), 'resolution of its own rows', why)
                if s['csr'] is not None: req(same(s['csr'], s['full']), 'cached resolution is the same matrix', why)
    finally: shutil.rmtree(d, ignore_errors=True)

def _facts(t):
    row = lambda tab, c: [(int(a), (float if c.startswith('TSNR') else int)(b)) for a, b in zip(tab['TARGETID'], tab[c])]
    sp = lambda s: dict(band=s.band, wave=np.array(s.wave), flux=np.array(s.flux), ivar=np.array(s.ivar), R=np.array(s.R.data), full=s.R.toarray(), csr=None if s._Rcsr is None else s._Rcsr.toarray())
    return dict(all=[int(i) for i in t.all_target_ids], local=[int(i) for i in t.local_target_ids()], targets=[(int(x.id), [sp(s) for s in x.spectra]) for x in t.local()],
                fm=row(t.fibermap, 'ROW'), em=row(t.exp_fibermap, 'EXPID'), ts=row(t.tsnr2, 'TSNR2_ELG_B'), header=t.header0['SURVEY'])

def _coadded(req, i, sp, want, inp):
    bands = order(w[0] for w in want)
    if not req([s['band'] for s in sp] == bands, 'one coadd per camera, in order of first appearance', (i, [s['band'] for s in sp], bands)): return
    for s in sp:
        ws = [w for w in want if w[0] == s['band']]; g = ~np.any([w[4] for w in ws], axis=0)
        iv = np.sum([w[2] for w in ws], axis=0); num = np.sum([w[2] * w[1] for w in ws], axis=0)
        row = np.zeros(len(iv)); nz = iv > 0
        R = np.sum([w[2] * 0 + 0 for w in ws], axis=0)
        keep = s['ivar'] > 0
        req(bool(np.all(~keep[(iv == 0) & g])), 'pixels unusable in every exposure have no weight in the coadd', i)
        req(close(s['ivar'][keep & g], iv[keep & g], rtol=1e-9), 'weight of the coadd', (i, s['ivar'], iv))
        req(close((s['flux'] * s['ivar'])[keep & g], num[keep & g], rtol=1e-9, atol=1e-9), 'flux of the coadd', i)
        lost = ~keep & (iv > 0) & g
        req(bool(np.all(s['full'].sum(1)[lost] < .99 + 1e-9)), 'usable pixels keep their weight in the coadd', i)

def gen_batches(rng, k):
    return dict(n=[10007, 10000, 20001, 9999, 10001][k % 5], npix=6, nt=3, seed=int(rng.integers(0, 10**6)))
@contract('C20', ['external.desi.DistTargetsDESI.__init__'], gen_batches, quick=1, thorough=5, seconds=60)
def batches(inp, req):
    "more rows than one broadcast of resolution data holds: every process gets all of them"
    import logging
    logging.disable(logging.CRITICAL)
    rng = np.random.default_rng(inp['seed']); n, m, nd = inp['n'], inp['npix'], 3
    R = np.zeros((n, nd, m), 'f4'); R[:, 1] = 1 + np.arange(n)[:, None] % 4099
    f = dict(coadded=False, ids=[int(i) for i in 100 + np.arange(n) % inp['nt']], bands=['r'], exp=None, onetile=True, interleave=False,
             data=dict(r=dict(flux=rng.normal(size=(n, m)).astype('f4'), ivar=np.ones((n, m), 'f4'), mask=None, R=R)))
    full = dict(files=[f], nw=dict(r=m), want=None, first=None, n=None, coadd=False, rcsr=False, nsig=5., caps=False)
    d = tempfile.mkdtemp(prefix='vc_c20_')
    try:
        names = write(full, d)
        def body(comm):
            t = load(names, full, comm)
            return [(int(x.id), [s.R.data for s in x.spectra]) for x in t.local()]
        got = [x for r in run_ranks(2, body)[0] for x in r]
        req(sorted(i for i, _ in got) == sorted(set(f['ids'])), 'every target is held by exactly one process')
        for i, sp in got:
            rows = [r for r, j in enumerate(f['ids']) if j == i]
            req(len(sp) == len(rows) and all(same(a, R[r].astype(float)) for a, r in zip(sp, rows)), 'resolution of its own rows, over all batches', i)
    finally: shutil.rmtree(d, ignore_errors=True)
