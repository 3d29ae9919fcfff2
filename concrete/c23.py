"""C23: BOSS spectra and catalogue"""
import shutil, tempfile
from .base import *
from .fakecomm import run_ranks
LIM = dict(plate=(3500., 10000.), b=(3500., 6000.), r=(5500., 10000.))

def image(rng, nf, kind):
    lo, hi, n = dict(plate=(3.53, 4.02, 46), b=(3.54, 3.81, 26), r=(3.73, 4.02, 30))[kind]; n += int(rng.integers(0, 9))
    c0, c1 = lo + .01 * rng.random(), (hi - lo) / n; s = (nf, n)
    wd = rng.uniform(.7, 2.6, size=s); wd[rng.random(s) < .03] = 0; wd[rng.random(s) < .01] = 1e-6
    if rng.random() < .3: wd[:] = rng.uniform(.3, 1.2)
    return dict(kind=kind, c0=c0, c1=c1, log=c0 + c1 * np.arange(n) + (rng.uniform(0, .0004, size=s[:1] + (1,)) if kind != 'plate' else np.zeros((nf, 1))),
                flux=rng.normal(size=s).astype('f4') * 10, ivar=(rng.uniform(.1, 2, size=s) * (rng.random(s) > .1)).astype('f4'), amask=((rng.random(s) < .1) * 2 ** rng.integers(0, 32, size=s)).astype('i4'), wd=wd.astype('f4'))
def gen(rng, k):
    npl = [1, 1, 2, 1, 3][k % 5]; frames = bool(rng.random() < .4); pool = [int(x) for x in rng.permutation(500)[:7] + 1]; plates = []; p0 = int(rng.integers(266, 9999)); m0 = int(rng.integers(51608, 58800))
    big = npl == 1 and not frames and rng.random() < .2
    for q in range(npl):
        nf = int(rng.integers(2, 5)) if not big else int(rng.integers(502, 510)); p = dict(plate=p0 if rng.random() < .5 else p0 + q, mjd=m0 if rng.random() < .5 else m0 + q, nf=nf)
        p['thing'] = [int(x) for x in rng.choice(pool, size=1000)]
        if not frames: p['im'] = image(rng, nf, 'plate')
        else:
            p['im'] = image(rng, nf, 'plate'); p['frames'] = []; e = int(rng.integers(100000, 999999))
            for c in ('b1', 'r1', 'b2', 'r2'):
                if rng.random() < .2 and c != 'b1': continue
                for _ in range(int(rng.integers(1, 3))): p['frames'].append((c, '%s-%08d' % (c, e + int(rng.integers(0, 5)) * 10 + len(p['frames'])), image(rng, nf, c[0])))
        plates.append(p)
    inp = dict(plates=plates, frames=frames, coadd=bool(rng.random() < .3), rcsr=bool(rng.random() < .5), amask=bool(rng.random() < .5), glob=npl == 1 and bool(rng.random() < .4), fiber=None, want=None)
    if rng.random() < .15: inp['fiber'] = [int(rng.integers(1, plates[0]['nf'] + 1))] if rng.random() < .5 else [1, 2]
    if big: inp['fiber'] = [1, 500, 501, plates[0]['nf']]
    ids = sorted(model(inp)[0])
    if rng.random() < .4: inp['want'] = [int(x) for x in rng.permutation(ids)[:int(rng.integers(1, len(ids) + 1))]]
    return inp
def name(q, p): return 'spPlate-%04d-%d.fits' % (p['plate'], p['mjd'] + 0) if q == 0 else 'v%d/spPlate-%04d-%d.fits' % (q, p['plate'], p['mjd'])
def write(inp, d):
    import fitsio
    names = []
    def out(path, im, hdr, fibers):
        f = fitsio.FITS(path, 'rw', clobber=True); kind = im['kind']; hdr = dict(hdr)
        if kind == 'plate': hdr.update(COEFF0=im['c0'], COEFF1=im['c1'])
        f.write(im['flux'], header=hdr); f.write(im['ivar']); f.write(im['amask']); f.write(im['log'] if kind != 'plate' else im['amask']); f.write(im['wd'])
        f.write(np.array([(x, x + .5) for x in fibers], dtype=[('FIBERID', 'i4'), ('OTHER', 'f8')])); f.close()
    for q, p in enumerate(inp['plates']):
        n = os.path.join(d, name(q, p)); os.makedirs(os.path.dirname(n), exist_ok=True); h = dict(PLATEID=p['plate'], MJD=p['mjd'])
        for k, (c, e, im) in enumerate(p.get('frames', [])):
            h['NEXP_' + c.upper()] = h.get('NEXP_' + c.upper(), 0) + 1; h['EXPID%02d' % (k + 1)] = e + '-%08d-%08d' % (k, k)
            out(os.path.join(os.path.dirname(n), 'spCFrame-%s.fits' % e), im, dict(PLATEID=p['plate'], MJD=p['mjd'], CAMERAS=c + ' '), [x + 1 + (500 if c[1] == '2' else 0) for x in range(p['nf'])])
        out(n, p['im'], h, range(1, p['nf'] + 1)); names.append(n)
        f = fitsio.FITS(n.replace('spPlate', 'photoPosPlate'), 'rw', clobber=True); f.write(np.zeros(1)); f.write(np.array([(x,) for x in p['thing']], dtype=[('THING_ID', 'i4')])); f.close()
    return names
def model(inp):
    "what the files say: per target the rows of its fibers, in order of file"
    many = len(inp['plates']) > 1; out = {}
    pl = {p['plate'] for p in inp['plates']}; mj = {p['mjd'] for p in inp['plates']}
    brick = '%d-%d' % (pl.pop() if len(pl) == 1 else 0, mj.pop() if len(mj) == 1 else 0)
    for p in inp['plates']:
        for c, im in [('1', x) for x in [p['im']] if not inp['frames']] + [(f[0], f[2]) for f in p.get('frames', [])]:
            lo, hi = LIM[im['kind']]; w = 10 ** np.broadcast_to(im['log'], im['flux'].shape)
            a, b = [int(np.argmin(np.min(np.abs(w - x), axis=0))) for x in (lo, hi)]
            wd = np.where(im['wd'] < 1e-5, np.float32(2), im['wd'])[:, a:b].astype('f8'); half = 2 * int(np.ceil(wd.max())); n = b - a
            for r in range(p['nf']):
                fib = r + 1 + (500 if c[-1] == '2' else 0)
                if inp['fiber'] is not None and fib not in inp['fiber']: continue
                t = p['thing'][fib - 1] if many else (p['plate'] * 100000 + p['mjd']) * 10000 + fib
                i = np.arange(n); R = np.where(abs(i - i[:, None]) <= half, np.exp(-(i - i[:, None]) ** 2 / 2 / wd[r] ** 2), 0.); R /= R.sum(axis=0)
                iv = np.where(im['amask'][r] != 0, 0, im['ivar'][r]) if inp['amask'] else im['ivar'][r]
                out.setdefault(t, []).append((w[r, a:b], im['flux'][r, a:b], iv[a:b], R))
    return out, brick
def right(req, t, spec, inp):
    from redrock.targets import Spectrum, Target
    from scipy import sparse
    if inp['coadd']:
        ref = Target(0, [Spectrum(w.copy(), f.astype('f8'), iv.astype('f8'), sparse.dia_matrix(R), None) for w, f, iv, R in spec], coadd=True).spectra
        req(len(t.spectra) == len(ref) and all(close(a.flux, b.flux, rtol=1e-4, atol=1e-4) and close(a.ivar, b.ivar, rtol=1e-4, atol=1e-6) for a, b in zip(t.spectra, ref)), 'coadded spectra of the target'); return
    req(len(t.spectra) == len(spec), 'one spectrum per fiber and file', (len(t.spectra), len(spec)))
    for s, (w, f, iv, R) in zip(t.spectra, spec):
        req(len(s.wave) == len(w) and close(s.wave, w, rtol=1e-12), 'wavelengths between the limits', (len(s.wave), len(w), s.wave[:2], w[:2]))
        if len(s.wave) != len(w): return
        req(same(s.flux, f), 'its own flux', (s.flux[:3], f[:3])); row = R.sum(axis=1); edge = abs(row - .99) < 1e-6
        req(close(s.R.toarray(), R, rtol=1e-5, atol=1e-7), 'resolution from the dispersion'); good = row >= .99
        req(same(np.asarray(s.ivar)[good & ~edge], iv[good & ~edge]), 'its own weights, none where masked'); req(not np.any(np.asarray(s.ivar)[~good & ~edge]), 'no weight without trustworthy resolution')
        req((s._Rcsr is not None) == inp['rcsr'] or s._Rcsr is not None and close(s._Rcsr.toarray(), R, rtol=1e-5, atol=1e-7), 'both forms of the resolution agree')

@contract('C23', ['external.boss.read_spectra'], gen, quick=150, thorough=3000)
def boss_spectra(inp, req):
    import redrock.external.boss as M
    d = tempfile.mkdtemp(prefix='vc_c23_')
    try:
        names = write(inp, d); out, brick = model(inp)
        t, meta = M.read_spectra(os.path.join(d, 'spPlate-*.fits') if inp['glob'] else names, targetids=inp['want'], use_frames=inp['frames'], fiberid=inp['fiber'], coadd=inp['coadd'], cache_Rcsr=inp['rcsr'], use_andmask=inp['amask'])
        ids = sorted(inp['want'] or out)
        req([int(x.id) for x in t] == ids, 'the targets asked for, in order of their ids', ([int(x.id) for x in t], ids))
        req([int(x) for x in meta['TARGETID']] == ids, 'table of the same targets')
        req(all((b.decode() if isinstance(b, bytes) else str(b)) == brick for b in meta['BRICKNAME']), 'plate and date of the table', (list(meta['BRICKNAME'])[:2], brick))
        req(all(x.meta['BRICKNAME'] == brick and len(np.array([brick], dtype=x.meta['BRICKNAME_datatype'])[0]) == len(brick) for x in t), 'plate and date of the target')
        for x, i in zip(t, ids): right(req, x, out[i], inp)
    finally: shutil.rmtree(d, ignore_errors=True)

def gen_run(rng, k):
    inp = gen(rng, k)
    while inp['plates'][0]['nf'] > 500: inp = gen(rng, k)
    inp.update(coadd=False, fiber=None, glob=False); inp['want'] = inp['want'] and [i for i in inp['want'] if i in model(inp)[0]] or None; ids = sorted(model(inp)[0]); inp['first'] = inp['n'] = None
    if inp['want'] is None and rng.random() < .5:
        inp['first'] = int(rng.integers(0, len(ids))) if rng.random() < .6 else None; inp['n'] = int(rng.integers(1, len(ids) - (inp['first'] or 0) + 1)) if rng.random() < .7 else None
    mine = inp['want'] and sorted(inp['want']) or ids[inp['first'] or 0:][:inp['n']]
    rows = []
    for i in [int(x) for x in rng.permutation(mine)]:
        for q in range(int(rng.integers(1, 4))): rows.append(dict(targetid=i, z=float(rng.uniform(0, 3)), zerr=float(rng.uniform(0, .1)), zwarn=int(rng.choice([0, 4, 32])), chi2=float(rng.uniform(0, 1e4)), zz=rng.normal(size=5), zzchi2=rng.normal(size=5), coeff=rng.normal(size=3), npixels=int(rng.integers(0, 9999)),
                                                                      spectype=str(rng.choice(['GALAXY', 'QSO', 'STAR'])), subtype=str(rng.choice(['', 'HIZ', 'M'])), ncoeff=3, znum=q, deltachi2=float(rng.uniform(0, 100))))
    inp.update(rows=rows, mine=mine, ranks=[0, 0, 2, 3][int(rng.integers(4))], nminima=int(rng.integers(1, 6)) if rng.random() < .5 else None, zbest=bool(rng.random() < .8)); inp['details'] = not inp['zbest'] or bool(rng.random() < .5)
    if inp['ranks'] > len(mine): inp['ranks'] = 0
    return inp
@contract('C23', ['external.boss.rrboss', 'external.boss.write_zbest', 'targets.DistTargetsCopy.__init__'], gen_run, quick=120, thorough=2000)
def boss_catalogue(inp, req):
    import redrock.external.boss as M
    from astropy.io import fits
    from astropy.table import Table
    d = tempfile.mkdtemp(prefix='vc_c23_'); old = M.zfind, M.load_dist_templates
    try:
        names = write(inp, d); o, h = d + '/out/zbest.fits', d + '/out/x.h5'; os.makedirs(d + '/out'); seen = []; out, brick = model(inp)
        class TT: full_type, _version = 'GALAXY', '2.6'
        class DT: _template = template = TT
        M.load_dist_templates = lambda *a, **k: [DT]
        def zfind(targets, templates, mp=1, **k):
            loc = targets.local(); seen.append((k, [int(t.id) for t in loc], [int(x) for x in targets.local_target_ids()], [int(x) for x in targets.all_target_ids], [(int(t.id), [(np.array(s.wave), np.array(s.flux)) for s in t.spectra]) for t in loc]))
            if targets.comm is not None and targets.comm.rank != 0: return None, None
            t = Table()
            for c in inp['rows'][0]: t[c] = np.array([r[c] for r in inp['rows']], dtype=dict(spectype='U6', subtype='U20').get(c))
            return {i: {'GALAXY': dict(redshifts=np.zeros(2), zchi2=np.ones(2), penalty=np.zeros(2), zcoeff=np.zeros((2, 3)))} for i in inp['mine']}, t
        M.zfind = zfind
        args = ['--spplate'] + names + (['--zbest', o] if inp['zbest'] else []) + (['-o', h] if inp['details'] else []) + ['--mp', '1', '--allspec'] + (['--use-frames'] if inp['frames'] else []) + (['--use-andmask'] if inp['amask'] else []) + (['--targetids', ','.join(map(str, inp['want']))] if inp['want'] else []) \
            + (['--mintarget', str(inp['first'])] if inp['first'] is not None else []) + (['-n', str(inp['n'])] if inp['n'] is not None else []) + (['--nminima', str(inp['nminima'])] if inp['nminima'] else [])
        if inp['ranks']: run_ranks(inp['ranks'], lambda comm: M.rrboss(args + ['--no-mpi-abort'], comm=comm))
        else: M.rrboss(args)
        req(sorted(i for s in seen for i in s[1]) == inp['mine'], 'every target selected is fitted on one process', ([s[1] for s in seen], inp['mine']))
        req(all(s[2] == s[1] and s[3] == inp['mine'] for s in seen), 'processes know their targets and all targets')
        req(all(s[0]['nminima'] == (inp['nminima'] or 3) for s in seen), 'number of minima asked for')
        req(all(len(sp) == len(out[i]) and all(close(a, w, rtol=1e-12) and same(b, f) for (a, b), (w, f, _, _) in zip(sp, out[i])) for s in seen for i, sp in s[4]), 'each with its own spectra')
        def compare(row, r, up, what):
            for c, x in r.items():
                if up and c in ('zz', 'zzchi2', 'znum'): continue
                y = row[c.upper() if up else c]; y = (y.decode() if isinstance(y, bytes) else str(y)).strip() if isinstance(x, str) else y
                req(y == x if isinstance(x, (str, int)) else close(np.ravel(y), np.ravel(x), rtol=1e-6), '%s: %s' % (what, c), (y, x))
        if inp['zbest']:
            best = [r for r in inp['rows'] if r['znum'] == 0]
            with fits.open(o) as f: cat = Table(f['ZBEST'].data)
            req([int(x) for x in cat['TARGETID']] == [r['targetid'] for r in best], 'one row per target, its best candidate'); req(sorted(cat.colnames) == sorted(c.upper() for c in inp['rows'][0] if c not in ('zz', 'zzchi2', 'znum')), 'columns of the catalogue', cat.colnames)
            for row, r in zip(cat, best): compare(row, r, True, 'catalogue')
        if inp['details']:
            from redrock.results import read_zfit
            t = read_zfit(h); key = {(int(r['targetid']), int(r['znum'])): r for r in t}; req(len(t) == len(inp['rows']) == len(key), 'details: one row per candidate')
            for r in inp['rows']: compare(key[r['targetid'], r['znum']], r, False, 'details')
        req(sorted(os.listdir(d + '/out')) == sorted(['zbest.fits'] * inp['zbest'] + ['x.h5'] * inp['details']), 'nothing else is left behind')
    finally:
        shutil.rmtree(d, ignore_errors=True); M.zfind, M.load_dist_templates = old
