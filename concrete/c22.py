"""C22: template files"""
import shutil, tempfile, math
from .base import *
from .fakecomm import run_ranks

def one(rng, k, big=False):
    f = dict(nb=int(rng.integers(1, 4)), nw=int(rng.integers(4, 60)), log=[None, 0, 1, 1][int(rng.integers(4))], rrtype=str(rng.choice(['GALAXY', 'STAR', 'QSO', 'galaxy ', 'qso'])), sub=[None, '', 'HIZ', 'loz', ' A '][int(rng.integers(5))],
             method=[None, 'PCA', 'NMF', 'nmf', 'pca'][int(rng.integers(5))], igm=[None, 'Calura12', 'Kamble20', 'Inoue14', 'None'][int(rng.integers(5))], version=[None, '0.1', '1.0', '1.1', '2.6', '3.0', '', '1', '2.60', ' 1.0'][int(rng.integers(10))],
             zs=None if rng.random() < .5 else np.sort(rng.uniform(0, 2, size=int(rng.integers(1, 6)))), single=bool(rng.random() < .5))
    if rng.random() < .1: f['rrtype'] = 'ELG'
    if rng.random() < .1: f['method'] = 'ICA'
    f['cdelt'] = float(rng.uniform(1e-4, 3e-4)) if f['log'] else float(rng.uniform(.5, 9)); f['crval'] = 3.5713 + .001 * int(rng.integers(9)) if f['log'] else 3720. + float(rng.integers(0, 9))
    f['data'] = rng.normal(size=(f['nb'], f['nw'])).astype('f4' if f['single'] else 'f8')
    return f
def rng_text(rng, star):
    lo = float(rng.uniform(-.003, 0)) if star else float(rng.uniform(-.005, 1)); hi = lo + float(rng.uniform(.0005, .01) if star else rng.uniform(.001, .5)); dz = float(rng.choice([1e-4, 3e-4, 4e-5, 7e-4]))
    return (lo, hi, dz)
DEFAULT = dict(GALAXY=(-0.005, 1.7, 3e-4), QSO=(0.05, 6.0, 5e-4), STAR=(-0.002, 0.00201, 4e-5))
def gen(rng, k):
    return dict(f=one(rng, k), zscan={t: rng_text(rng, t == 'STAR') if rng.random() < .6 else None for t in DEFAULT}, where=int(rng.integers(3)))
def write(f, p):
    from astropy.io import fits
    h = fits.ImageHDU(f['data'], name='BASIS_VECTORS'); h.header['CRVAL1'] = f['crval']; h.header['CDELT1'] = f['cdelt']; h.header['RRTYPE'] = f['rrtype']
    for key, c in (('LOGLAM', 'log'), ('RRSUBTYP', 'sub'), ('RRMETHOD', 'method'), ('RRIGM', 'igm'), ('VERSION', 'version')):
        if f[c] is not None: h.header[key] = f[c]
    hs = [fits.PrimaryHDU(), h]
    if f['zs'] is not None: hs.append(fits.ImageHDU(f['zs'], name='REDSHIFTS'))
    fits.HDUList(hs).writeto(p)
def igm(f):
    t = f['rrtype'].strip().upper()
    if f['igm'] is not None: return f['igm']
    if t == 'STAR': return 'None'
    return {('GALAXY', '2.6'): 'Calura12', ('QSO', '0.1'): 'Calura12', ('QSO', '1.0'): 'Calura12', ('QSO', '1.1'): 'Kamble20'}.get((t, f['version']))
def usable(f): return (f['method'] or 'PCA').upper() in ('PCA', 'NMF') and igm(f) is not None and (f['zs'] is not None or f['rrtype'].strip().upper() in DEFAULT)
def grid(f, zscan):
    if f['zs'] is not None: return f['zs']
    t = f['rrtype'].strip().upper(); lo, hi, dz = zscan.get(t) or DEFAULT[t]
    a, b = (lo, hi) if t == 'STAR' else (math.log10(1 + lo), math.log10(1 + hi))
    x = [a + i * dz for i in range(int(math.ceil((b - a) / dz - 1e-9)))]
    return np.array(x if t == 'STAR' else [10 ** y - 1 for y in x])
def right(req, t, f, zscan, name):
    w = f['crval'] + f['cdelt'] * np.arange(f['nw'])
    req(close(t.wave, 10 ** w if f['log'] else w, rtol=1e-9), 'wavelengths', (t.wave[:3], f['crval'], f['log']))
    req(same(t.flux, f['data'].astype('f8')) and t.flux.dtype.isnative, 'vectors'); req((t.nbasis, t.nwave) == f['data'].shape, 'numbers of vectors and pixels')
    req(t.minwave == t.wave[0] and t.maxwave == t.wave[-1], 'wavelength limits')
    req(t.template_type == f['rrtype'].strip().upper() and t.sub_type == (f['sub'] or '').strip().upper(), 'type and subtype', (t.template_type, t.sub_type))
    req(t.method == t.solve_matrices_algorithm == (f['method'] or 'PCA').upper(), 'method', t.method)
    req(t.igm_model == igm(f), 'absorption model', (t.igm_model, f['rrtype'], f['version'])); req(t.version == ('unknown' if f['version'] is None else f['version']), 'version', t.version)
    z = grid(f, zscan); r = np.asarray(t.redshifts)
    req(abs(len(r) - len(z)) <= (f['zs'] is None and abs(len(r) - len(z)) <= 1), 'number of trial redshifts', (len(r), len(z))); n = min(len(r), len(z))
    req(close(r[:n], z[:n], rtol=1e-7, atol=1e-9), 'trial redshifts', (r[:3], z[:3])); req(t.filename == name, 'file name')
def text(zscan): return {'zscan_' + t.lower(): None if z is None else '%r,%r,%r' % tuple(z) for t, z in zscan.items()}

@contract('C22', ['templates.Template.__init__'], gen, quick=300, thorough=6000)
def template_file(inp, req):
    from redrock.templates import Template
    f = inp['f']; d = tempfile.mkdtemp(prefix='vc_c22_'); env = os.environ.get('RR_TEMPLATE_DIR'); os.environ['RR_TEMPLATE_DIR'] = d
    try:
        os.makedirs(d + '/sub'); name = 'sub/rrtemplate-x.fits' if inp['where'] else d + '/sub/rrtemplate-x.fits'
        if inp['where'] < 2: write(f, d + '/sub/rrtemplate-x.fits')
        ok = inp['where'] < 2 and usable(f); t, err = None, None
        try: t = Template(name, **text(inp['zscan']))
        except Exception as e: err = e
        req((err is None) == ok, 'refused exactly if missing or unusable', (repr(err), f['method'], f['igm'], f['version'], f['rrtype']))
        if err is not None: req(isinstance(err, OSError if inp['where'] == 2 else ValueError), 'kind of refusal', repr(err)); return
        right(req, t, f, inp['zscan'], name)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        if env is None: os.environ.pop('RR_TEMPLATE_DIR', None)
        else: os.environ['RR_TEMPLATE_DIR'] = env

def gen_set(rng, k):
    kinds = [('GALAXY', None), ('GALAXY', 'OLD'), ('QSO', 'LOZ'), ('QSO', 'HIZ'), ('STAR', 'A'), ('STAR', 'M'), ('STAR', 'CV')]; n = int(rng.integers(1, 5)); fs = []
    for j in rng.permutation(len(kinds))[:n]:
        f = one(rng, k); f['rrtype'], f['sub'] = kinds[int(j)]; f['method'] = 'PCA'; f['igm'] = f['igm'] or 'None'; f['log'] = 1; f['nw'] = int(rng.integers(20, 40)); f['crval'] = 2.6; f['cdelt'] = 1.5 / f['nw']; f['data'] = rng.normal(size=(f['nb'], f['nw']))
        if f['zs'] is None: f['zs'] = np.sort(rng.uniform(0, .1, size=int(rng.integers(1, 6)))) if rng.random() < .7 else None
        fs.append(f)
    order = [int(x) for x in rng.permutation(n)][:int(rng.integers(1, n + 1))]; lines = []
    for j in order:
        if rng.random() < .3: lines.append(str(rng.choice(['', '# a comment', '   ', '#rrtemplate-0.fits', '-', '  # indented', '\t#comment', ' \t'])))
        lines.append((j, bool(rng.random() < .3), str(rng.choice(['', '  # trailing', '\t']))  , str(rng.choice(['', '  ', '\t']))))
    return dict(fs=fs, lines=lines, missing=bool(rng.random() < .1), how=int(rng.integers(7)), ranks=[0, 0, 2, 3][int(rng.integers(4))], redis=False,
                zscan={t: rng_text(rng, t == 'STAR') if rng.random() < .6 else None for t in DEFAULT})
@contract('C22', ['templates.find_templates', 'templates.load_templates', 'templates.load_dist_templates'], gen_set, quick=150, thorough=3000)
def template_set(inp, req):
    import redrock.templates as T
    d = tempfile.mkdtemp(prefix='vc_c22_'); e = d + '/other'; os.makedirs(e); env = os.environ.get('RR_TEMPLATE_DIR'); os.environ['RR_TEMPLATE_DIR'] = d
    try:
        names = ['rrtemplate-%d.fits' % k for k in range(len(inp['fs']))]; how = inp['how']
        for f, n in zip(inp['fs'], names): write(f, d + '/' + n)
        order = [l[0] for l in inp['lines'] if not isinstance(l, str)]; bad = False
        listing = [l if isinstance(l, str) else l[3] + (d + '/' if l[1] else '') + names[l[0]] + l[2] for l in inp['lines']]
        if how in (0, 1, 2):
            if inp['missing']: listing.append('rrtemplate-missing.fits'); bad = True
            open(d + ('/mine.txt' if how == 2 else '/templates-default.txt'), 'w').write('\n'.join(listing) + ('\n' if inp['redis'] else ''))
            arg = [None, d, d + '/mine.txt'][how]
        elif how == 3: arg = d; order = sorted(range(len(names)), key=lambda k: names[k])
        elif how == 4: arg = d + '/' + names[0]; order = [0]
        elif how == 5: arg = [d + '/' + names[k] for k in order]
        else: arg = d + '/nowhere'; bad = True
        z = text(inp['zscan'])
        try: got = T.load_templates(arg, **z)
        except ValueError: req(bad, 'the files exist'); return
        req(not bad, 'missing files are refused')
        req([os.path.abspath(t.filename) for t in got] == [d + '/' + names[k] for k in order], 'the templates listed, in order', ([t.filename for t in got], order))
        for t, k in zip(got, order): right(req, t, inp['fs'][k], inp['zscan'], t.filename)
        dd = T.load_templates(arg, asdict=True, **z)
        req(list(dd) == [(inp['fs'][k]['rrtype'], inp['fs'][k]['sub'] or '') for k in order] and all(os.path.abspath(t.filename) == d + '/' + names[k] for t, k in zip(dd.values(), order)), 'templates by type and subtype', list(dd))
        if inp['ranks'] > min(len(t.redshifts) for t in got): return     # more processes than trial redshifts
        dw = dict(b=3600. + 5 * np.arange(6), r=7000. + 5 * np.arange(5))
        f = lambda comm: T.load_dist_templates(dw, templates=arg, comm=comm, **z)
        parts = run_ranks(inp['ranks'], f)[0] if inp['ranks'] else [f(None)]
        req(all([os.path.abspath(x.template.filename) for x in p] == [d + '/' + names[k] for k in order] for p in parts), 'the same templates in the same order on every process')
        for q, t in enumerate(got):
            req(same(np.concatenate([np.asarray(p[q].local.redshifts) for p in parts]), np.asarray(t.redshifts)), 'the slices make up the redshift grid', q)
            req(all(p[q].local.data[b].shape == (len(p[q].local.redshifts), len(dw[b]), t.nbasis) for p in parts for b in dw if len(p[q].local.redshifts)), 'rebinned to the wavelengths of the data')
    finally:
        shutil.rmtree(d, ignore_errors=True)
        if env is None: os.environ.pop('RR_TEMPLATE_DIR', None)
        else: os.environ['RR_TEMPLATE_DIR'] = env
