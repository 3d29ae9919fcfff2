"""C24: archetype files"""
import shutil, tempfile
from .base import *
from .oracle import *
from .archbuild import archetype_spec, arch_wave, write_arch
TYPES = ['GALAXY', 'QSO', 'STAR', ' GALAXY', 'star', 'LRG1']
def one(rng, rrtype=None):
    a = archetype_spec(rng, rrtype or str(rng.choice(TYPES)), n=int(rng.integers(20, 60))); n = len(a['sub'])
    a['sub'] = [str(rng.choice(['ELG', 'elg', ' LRG', 'A B', '', 'sf_1', 'X1'])) for _ in range(n)]
    if rng.random() < .3 and n == 1: a['sub'] = ['ELG']
    if rng.random() < .4: a['flux'] = a['flux'].astype('f4')
    return a
def gen(rng, k):
    a = one(rng); n = len(a['sub'])
    return dict(a=a, log=bool(rng.random() < .5), crval=float(rng.uniform(1, 12)), z=float(rng.uniform(0, .5)), grids={b: np.linspace(lo + float(rng.uniform(0, 90)), lo + 900, int(rng.integers(5, 20))) for b, lo in (('b', 3600), ('r', 5000), ('z', 7000))},
                indx=None if rng.random() < .4 else rng.integers(0, n, size=int(rng.integers(1, n + 2))) if rng.random() < .7 else rng.permutation(n), env=bool(rng.random() < .3))
def written(a, p):
    write_arch(dict(a, flux=a['flux'].astype('f8')), p) if a['flux'].dtype == np.float64 else _single(a, p)
def _single(a, p):
    from astropy.io import fits
    h = fits.BinTableHDU.from_columns([fits.Column('ARCHETYPE', '%dE' % a['flux'].shape[1], array=a['flux']), fits.Column('SUBTYPE', '20A', array=np.array(a['sub']))], name='ARCHETYPES')
    for k, x in (('RRTYPE', a['spectype']), ('VERSION', '0.1'), ('CRVAL1', a['crval']), ('CDELT1', a['cdelt']), ('LOGLAM', a['log'])): h.header[k] = x
    fits.HDUList([fits.PrimaryHDU(), h]).writeto(p, overwrite=True)
def right(req, x, a, name):
    w, F = arch_wave(a), a['flux'].astype('f8'); n = len(F)
    req(close(x.wave, w, rtol=1e-9) and x.wave.shape == w.shape, 'wavelengths'); req(x.minwave == x.wave[0] and x.maxwave == x.wave[-1], 'wavelength limits')
    req(x.flux.shape == F.shape and same(x.flux, F) and x.flux.dtype == np.float64 and x.flux.dtype.isnative, 'fluxes of the rows')
    t = a['spectype'].strip(); subs = ['%s_%d' % (s.strip(), k) for k, s in enumerate(a['sub'])]
    req(x.template_type == t, 'type', x.template_type); req(list(x.sub_type) == subs, 'subtypes', (list(x.sub_type), subs)); req(list(x.full_type) == [t + ':::' + s.strip() for s in subs], 'full names', list(x.full_type))
    req(x.version == '0.1' and x.filename == name and x.method == 'ARCH', 'version, file name and method')
    return subs
@contract('C24', ['archetypes.Archetype.__init__', 'archetypes.Archetype.rebin_template', 'archetypes.Archetype.rebin_template_batch', 'archetypes.Archetype.eval'], gen, quick=150, thorough=3000)
def archetype_file(inp, req):
    from redrock.archetypes import Archetype
    from redrock.igm import transmission_Lyman
    a = inp['a']; d = tempfile.mkdtemp(prefix='vc_c24_'); os.environ['VC_C24'] = d
    try:
        p = d + '/rrarchetype-x.fits'; written(a, p); name = '$VC_C24/rrarchetype-x.fits' if inp['env'] else p
        x = Archetype(name)
        b = dict(a, log=inp['log'], crval=inp['crval'], cdelt=inp['crval'] / 50); written(b, d + '/b.fits'); right(req, Archetype(d + '/b.fits'), b, d + '/b.fits')
    finally: shutil.rmtree(d); os.environ.pop('VC_C24', None)
    subs = right(req, x, a, name); w, F, z, dw = arch_wave(a), a['flux'].astype('f8'), inp['z'], inp['grids']; n = len(F)
    bins = {b: np.array([binavg(w * (1 + z), f, edges_of(g)) for f in F]) for b, g in dw.items()}
    def lin(f, g):
        y = np.interp(g / (1 + z), w, f); return y
    ip = {b: np.array([lin(f, g) for f in F]) for b, g in dw.items()}
    rows = np.arange(n) if inp['indx'] is None else inp['indx']; kw = {} if inp['indx'] is None else dict(indx=inp['indx'])
    r = x.rebin_template_batch(z, dw, **kw); q = x.rebin_template_batch(z, dw, trapz=False, **kw)
    for b in dw:
        req(b in r and r[b].shape == (len(dw[b]), len(rows)) and close(r[b], bins[b][rows].T, rtol=1e-7, atol=1e-9), 'bin averages of the archetypes asked for', b)
        req(b in q and q[b].shape == (len(dw[b]), len(rows)) and close(q[b], ip[b][rows].T, rtol=1e-7, atol=1e-9), 'interpolation of the archetypes asked for', (b, rows))
    for k in range(n):
        r, q = x.rebin_template(k, z, dw), x.rebin_template(k, z, dw, trapz=False)
        req(all(close(r[b], bins[b][k], rtol=1e-7, atol=1e-9) and close(q[b], ip[b][k], rtol=1e-7, atol=1e-9) for b in dw), 'one archetype', k)
        for b, g in dw.items():
            req(close(x.eval(subs[k], np.array([1.]), g, z), bins[b][k] * transmission_Lyman(z, g, model='Inoue14'), rtol=1e-7, atol=1e-9), 'found again by its name', subs[k])
def gen_set(rng, k):
    ts = list(rng.permutation(['GALAXY', 'QSO', 'STAR', 'Elg', 'wd'])[:int(rng.integers(1, 4))])
    return dict(fs=[one(rng, str(t)) for t in ts], names=[str(x) for x in rng.permutation(['galaxy', 'b', 'z9', 'qso'])[:len(ts)]], how=int(rng.integers(6)), other=bool(rng.random() < .5))
@contract('C24', ['archetypes.find_archetypes', 'archetypes.All_archetypes.__init__'], gen_set, quick=80, thorough=1500)
def archetype_set(inp, req):
    from redrock.archetypes import All_archetypes, find_archetypes
    d = tempfile.mkdtemp(prefix='vc_c24_'); e = d + '/other'; os.makedirs(e); env = os.environ.pop('RR_ARCHETYPE_DIR', None); os.environ['VC_C24'] = d; how = inp['how']
    try:
        fn = ['rrarchetype-%s.fits' % n for n in inp['names']]
        for a, n in zip(inp['fs'], fn): written(a, d + '/' + n)
        if inp['other']:
            open(d + '/notes.txt', 'w').write('x'); open(d + '/rrtemplate-GALAXY.fits', 'w').write('x'); open(d + '/old-rrarchetype-z.fits', 'w').write('x')
        order = sorted(range(len(fn)), key=lambda k: fn[k])
        if how in (0, 1): os.environ['RR_ARCHETYPE_DIR'] = e if how else d
        arg = [None, d, d + '/' + fn[0], '$VC_C24', d + '/', e][how]
        if how == 2: order = [0]
        if how == 5: order = []
        want = [(d if how != 3 else '$VC_C24') + '/' + fn[k] for k in order]
        got = find_archetypes(arg)
        req([x.replace('//', '/') for x in got] == want, 'the archetype files, by name', (got, want))
        x = All_archetypes(archetypes_dir=arg).archetypes
        req(sorted(x) == sorted(inp['fs'][k]['spectype'] for k in order), 'one entry for each type', sorted(x))
        for k, f in zip(order, got): right(req, x[inp['fs'][k]['spectype']], inp['fs'][k], f)
        sub = [d + '/' + fn[k] for k in order[::-1]][:2]
        req(sorted(All_archetypes(lstfilename=sub).archetypes) == sorted(inp['fs'][k]['spectype'] for k in order[::-1][:2]), 'a list of files is used as it is')
        if how == 1:
            os.environ['RR_ARCHETYPE_DIR'] = d
            req([x.replace('//', '/') for x in find_archetypes()] == [d + '/' + fn[k] for k in order], 'RR_ARCHETYPE_DIR'); req([x.replace('//', '/') for x in find_archetypes(e)] == [], 'a directory that was named comes first')
    finally:
        shutil.rmtree(d, ignore_errors=True); os.environ.pop('VC_C24', None); os.environ.pop('RR_ARCHETYPE_DIR', None)
        if env is not None: os.environ['RR_ARCHETYPE_DIR'] = env
