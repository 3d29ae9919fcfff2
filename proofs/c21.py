"""C21: the DESI redshift catalogue"""
from vc.prove import *
from vc.loader import Rec
from vc.arr import SArr, as_arr, _b, zi
from vc.core import tb, S, ctx, Unsupported, scode
from vc import npf
from .c13 import Table as T13, Disk, fail, Stop, words
import numpy as np, itertools, types, posixpath
class G: pass

# ---------------------------------------------------------------- contracts
class Table(T13):
    def __init__(s, d=None, **k): T13.__init__(s, d.cols if isinstance(d, T13) else d, **k); s.meta = {}
    def __getitem__(s, k):
        r = T13.__getitem__(s, k)
        if type(r) is T13: r = Table(r)
        if isinstance(r, Table): r.meta = dict(s.meta)
        else: r.data = r          # of a column
        return r
    def copy(s, *a): r = Table(s.cols); r.meta = dict(s.meta); return r
    def nrows(s): return dim_(next(iter(s.cols.values()))._shape[0])
    def __len__(s):
        if not isinstance(s.nrows(), int): raise Unsupported('length of a table')
        return s.nrows()
def dim_(n): return n
BITS = {'UNASSIGNED': 0, 'STUCKPOSITIONER': 1, 'BROKENFIBER': 2, 'RESTRICTED': 3, 'MISSINGPOSITION': 8, 'BADPOSITION': 9, 'POORPOSITION': 10, 'LOWTRANSMISSION': 12, 'NEARCHARGETRAP': 13, 'VARIABLETHRU': 14, 'LOWEFFTIME': 15, 'BADFIBER': 16, 'BADTRACE': 17, 'BADFLAT': 18, 'BADARC': 19, 'MANYBADCOL': 20, 'MANYREJECTED': 21, 'BADAMPB': 22, 'BADAMPR': 23, 'BADAMPZ': 24, 'BADPETALPOS': 25, 'BADPETALSKY': 26, 'BADPETALSTDSTAR': 27, 'BADPETALFLUXCAL': 28, 'BADPETALSNR': 29, 'BADREADNOISE': 30, 'RESERVED31': 31}
class Fibermask:
    "contract of desispec.maskbits.fibermask: the bits of the installed desispec; an older one calls bit 20 BADCOLUMN"
    def __init__(s, old):
        s._b = dict(BITS)
        if old: s._b['BADCOLUMN'] = s._b.pop('MANYBADCOL')
    def names(s, *a): return list(s._b)
    def mask(s, *ks):
        r = 0
        for k in ks:
            for n in (k.split('|') if isinstance(k, str) else k): r |= 1 << s._b[n]
        return r
    def bitnum(s, k): return s._b[k]
    def __getattr__(s, k):
        if k.startswith('_'): raise AttributeError(k)
        if k not in s._b: raise AttributeError(k)
        return 1 << s._b[k]
    def __getitem__(s, k): return 1 << s._b[k]
    def __contains__(s, k): return k in s._b
ZBIT = dict(SKY=0, LITTLE_COVERAGE=1, UNPLUGGED=7, BAD_TARGET=8, NODATA=9, POORDATA=11)

def fibermap(v, old):
    "a fibermap with any number of rows"
    f = G(); n = v.size('nfiber', lo=1); f.n = n
    f.t = Table(dict(TARGETID=v.array('fm_targetid', (n,), 'i'), COADD_FIBERSTATUS=v.array('fm_status', (n,), 'w'), OBJTYPE=v.array('fm_objtype', (n,), 's')))
    tid, st, ob = [v.frozen(f.t.cols[c]) for c in ('TARGETID', 'COADD_FIBERSTATUS', 'OBJTYPE')]
    on = lambda q, *names: v.or_(*[(st(q) & (1 << (20 if b == 'BADCOLUMN' else BITS[b]))) != 0 for b in names])
    bad = lambda q: v.and_(ob(q) != 'TGT', ob(q) != 'SKY')
    f.tid = tid
    f.when = dict(POORDATA=lambda q: on(q, 'POORPOSITION'), NODATA=lambda q: v.or_(on(q, 'BADPOSITION', 'BROKENFIBER', 'UNASSIGNED'), bad(q)), UNPLUGGED=lambda q: on(q, 'BROKENFIBER'), SKY=lambda q: ob(q) == 'SKY',
                  LITTLE_COVERAGE=lambda q: on(q, 'BADAMPB', 'BADAMPR', 'BADAMPZ', *(['BADCOLUMN'] if old else [])), BAD_TARGET=bad)
    f.some = lambda name, t: v.any(n, lambda q: v.and_(tid(q) == t, f.when[name](q)))
    return f

SCEN = [  # target ids, candidates (target, znum, spectype, subtype, method)
    ([907], [(0, 0, 'GALAXY', '', 'PCA')]),
    ([907, 39627000000000001], [(0, 1, 'STAR', 'M', 'PCA'), (0, 0, 'QSO', 'LOZ', 'PCA'), (1, 0, 'STAR', 'LONGER', 'NMF'), (1, 1, 'GALAXY', '', 'NMF')]),
    ([5, 39627000000000001, -44], [(1, 0, 'GALAXY', '', 'ARCH'), (2, 0, 'STAR', 'CV', 'ARCH'), (0, 0, 'GALAXY', '', 'ARCH')]),
]
def zfit_table(v, g):
    ids, cands = g.ids, g.cands; n = len(cands); W, mc = v.size('width', lo=1), v.size('maxcoeff', lo=1); g.W, g.mc = W, mc
    a = lambda c, sh=(), k='r': v.array(c, (n,) + sh, k)
    S_ = lambda xs: npf.array(list(xs))
    g.cols = dict(targetid=S_(ids[c[0]] for c in cands), z=a('z'), zerr=a('zerr'), zwarn=a('zwarn', (), 'w'), chi2=a('chi2'), zz=a('zz', (W,)), zzchi2=a('zzchi2', (W,)), coeff=a('coeff', (mc,)), npixels=a('npixels', (), 'i'),
                  spectype=words(c[2] for c in cands), subtype=words(c[3] for c in cands), ncoeff=a('ncoeff', (), 'i'), fitmethod=words(c[4] for c in cands), znum=S_(c[1] for c in cands), deltachi2=a('deltachi2'))
    g.cf = {c: v.frozen(x) for c, x in g.cols.items()}
    v.require(v.all((n,), lambda i: v.and_(g.cf['ncoeff'](i) >= 0, g.cf['ncoeff'](i) < 1000)))
    t = Table(g.cols)
    # what zfind delivers: text columns just wide enough
    for c, w in (('spectype', 6), ('subtype', 20), ('fitmethod', max(len(c[4]) for c in cands))): t.cols[c].buf.width = w
    return t

class Comm:
    "one process of several: broadcasts and gathers are those of an assumed partner, compared afterwards"
    def __init__(s, rank, size, others=None, box=None): s.rank, s.size, s.others, s.box, s.sent, s.gave = rank, size, others, box, [], []
    Get_rank = lambda s: s.rank
    Get_size = lambda s: s.size
    def bcast(s, x, root=0):
        if root != 0: raise Unsupported('broadcast by another process')
        if s.rank == 0: s.sent.append(value(x)); return x
        if len(s.sent) >= len(s.box):
            ctx().check('no process waits for a broadcast that never comes', False, kind='safety', assume=False); raise PathEnd('waits for ever')
        s.sent.append(s.box[len(s.sent)]); return value(s.sent[-1])
    def gather(s, x, root=0):
        if root != 0: raise Unsupported('gather by another process')
        k = len(s.gave); s.gave.append(x)
        if s.rank: return None
        if k >= len(s.others): raise Unsupported('unexpected gather')
        return [x] + [o() for o in s.others[k]]
    def barrier(s): pass
    Barrier = barrier
    def Abort(s, *a): raise Unsupported('Abort')
def value(x): return x.copy() if isinstance(x, (Table, SArr)) else x

BANDS = ['b', 'z']
def world(v, k, old=False):
    g = G(); g.ids, g.cands = SCEN[k]; g.old = old
    g.tables = None; g.fm = fibermap(v, old); g.zf = zfit_table(v, g); g.n = {b: v.size('n_' + b, lo=1) for b in BANDS}
    g.wave = {b: v.array('wave_' + b, (n,)) for b, n in g.n.items()}; g.wf = {b: v.frozen(a) for b, a in g.wave.items()}
    g.ivar = {(i, b): v.array('ivar_%s_%d' % (b, q), (g.n[b],)) for q, i in enumerate(g.ids) for b in BANDS}; g.ivf = {c: v.frozen(a) for c, a in g.ivar.items()}
    g.model = {(i, b): v.array('model_%s_%d' % (b, q), (g.n[b],)) for q, i in enumerate(g.ids) for b in BANDS}; g.mf = {c: v.frozen(a) for c, a in g.model.items()}
    g.scan, g.th = dict(scan='of every target'), [Rec(template=Rec(template_type=a, sub_type=b, full_type=a + (':::' + b if b else ''), _k=q)) for q, (a, b) in enumerate([('GALAXY', ''), ('QSO', 'LOZ'), ('QSO', 'HIZ'), ('STAR', 'M')])]
    g.templates = {(t.template.template_type, t.template.sub_type): t.template for t in g.th}
    g.exp, g.tsn, g.head, g.second = object(), object(), dict(SURVEY='main'), dict(FIBERMAP='header')
    return g
def session(v, g, mine, comm, sky, args):
    "execute rrdesi on one process under the contracts of what it calls; -> what it wrote"
    M = v.mod('external.desi'); v.c.ghost['masks stay symbolic'] = True; v.c.ghost['format forks'] = True; out = G(); out.fits, out.files = [], {}
    M.fibermask = Fibermask(g.old)
    sp = {i: [types.SimpleNamespace(band=b, wave=g.wave[b], ivar=g.ivar[i, b].copy(), flux=None, R=None, nwave=g.n[b]) for b in BANDS] for i in mine}
    class Targets:
        fibermap = Table(g.fm.t); exp_fibermap, tsnr2, header0, secondary_headers = g.exp, g.tsn, g.head, g.second; all_target_ids = list(g.ids)
        def __init__(s, files, coadd=True, targetids=None, first_target=None, n_target=None, comm=None, cache_Rcsr=False, cosmics_nsig=0, negflux_nsig=5, capacities=None):
            s.comm = comm; out.read = dict(files=files, coadd=coadd, targetids=targetids, first=first_target, n=n_target, comm=comm, cosmics=cosmics_nsig, negflux=negflux_nsig)
        def local(s): return [Rec(id=i, spectra=sp[i]) for i in mine]
        def local_target_ids(s): return list(mine)
        def wavegrids(s): return {b: g.wave[b] for b in BANDS}
        def eval_models(s, zbest, templates, archetypes, deg):
            "contract of DistTargets.eval_models (C15): the models of the local targets, for the rows of the table that are theirs"
            catalogue_ok(v, g, zbest, 'the models are those of the catalogue')
            v.ensure('models are evaluated with the templates of the fit', templates == g.templates and archetypes is None)
            return [{b: g.model[i, b].copy() for b in BANDS} for i in mine]
    v.contract('external.desi', 'DistTargetsDESI', Targets, keep=True)
    def load(dwave, templates=None, **k):
        v.ensure('templates are read for the wavelengths of the targets', set(dwave) == set(BANDS) and all(dwave[b] is g.wave[b] for b in BANDS)); return list(g.th)
    v.contract('external.desi', 'load_dist_templates', load, keep=True)
    def zfind(targets, templates, mp_procs=1, **k):
        v.ensure('one fit, with the templates that were read', not out.fits and list(templates) == g.th); out.fits.append(k)
        for i in mine:
            for s in sp[i]:
                p = v.arb('p', g.n[s.band]); w = g.wf[s.band](p); o = g.ivf[i, s.band](p)
                win = v.or_(v.and_(w >= 5572, w <= 5582), v.and_(w >= 9792, w <= 9795))
                v.ensure('night sky windows carry no weight', v.implies(win, v.el(s.ivar, p) == (0 if sky else o)))
                v.ensure('other pixels keep their weight', v.implies(v.not_(win), v.el(s.ivar, p) == o))
        return (g.scan, Table(g.zf)) if comm is None or comm.rank == 0 else (None, None)
    v.contract('external.desi', 'zfind', zfind, keep=True)
    v.contract('external.desi', 'get_mp', lambda n: 1, keep=True)
    v.contract('external.desi', 'elapsed', lambda *a, **k: 0., keep=True)
    def put(name, **w):
        v.ensure('each output is written once, by one process', name not in out.files and (comm is None or comm.rank == 0)); out.files[name] = w
    v.contract('external.desi', 'write_zscan', lambda f, scan, zfit, clobber=False: put(f, scan=scan, table=value(zfit), clobber=clobber), keep=True)
    v.contract('external.desi', 'write_zbest', lambda f, zb, fm, ex, ts, tm, archetypes=None, spec_header=None, secondary_headers=None: put(f, table=value(zb), fm=fm, ex=ex, ts=ts, tm=tm, arch=archetypes, head=spec_header, second=secondary_headers), keep=True)
    v.contract('external.desi', 'write_bestmodel', lambda f, zb, models, wave, tm, archetypes=None, spec_header=None: put(f, table=value(zb), models=models, wave=wave, tm=tm, arch=archetypes, head=spec_header), keep=True)
    npf.facade.testing = types.SimpleNamespace(assert_array_equal=lambda a, b, *x, **k: same_arrays(v, a, b))
    try: r, e = v.call_exc(M.rrdesi, args, comm=comm)
    finally: del npf.facade.__dict__['testing']
    v.ensure('no exception%s' % (': %s' % type(e).__name__ if e is not None else ''), e is None)
    return out
def same_arrays(v, a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim != 1 or not isinstance(a._shape[0], int) or a._shape[0] != b._shape[0]: raise AssertionError('arrays differ')
    for q in range(a._shape[0]):
        if not (S(a.at((q,)), a.kind) == S(b.at((q,)), b.kind)): raise AssertionError('arrays differ')

KEEP = ('targetid', 'zerr', 'chi2', 'zz', 'zzchi2', 'npixels', 'ncoeff', 'znum', 'deltachi2')
def row_ok(v, g, t, q, r, what, up):
    "row q of the table t is candidate r with the warnings of its target"
    C = (lambda c: c.upper()) if up else (lambda c: c); f, cf = g.fm, g.cf
    cell = lambda c: S(t.cols[C(c)].at((q,)), t.cols[C(c)].kind)
    tid = g.ids[g.cands[r][0]]; b = v.arb('b', g.mc)
    for c in KEEP:
        if up and c in ('zz', 'zzchi2', 'znum'): continue
        a = t.cols[C(c)]
        if a.ndim == 2: d = v.arb('d', g.W); v.ensure('%s: %s' % (what, c), v.and_(a.shape[1] == g.W, v.el(a, q, d) == cf[c](r, d)))
        else: v.ensure('%s: %s' % (what, c), cell(c) == cf[c](r))
    zw, z0 = cell('zwarn'), cf['zwarn'](r)
    if zw.k != 'w': v.ensure(what + ': warnings are words', False); return
    m = 0
    for name, bit in ZBIT.items():
        m |= 1 << bit; now, was, yes = (zw & (1 << bit)) != 0, (z0 & (1 << bit)) != 0, f.some(name, tid)
        v.ensure('%s: %s is set when the fiber says so' % (what, name), v.implies(yes, now))
        v.ensure('%s: %s is otherwise as it was' % (what, name), v.implies(v.not_(yes), v.iff(now, was)))
    v.ensure(what + ': other warnings are kept', (zw & (0xffffffff ^ m)) == (z0 & (0xffffffff ^ m)))
    no = f.some('NODATA', tid); co = t.cols[C('coeff')]
    v.ensure(what + ': width of the coefficients', co.shape[1] == g.mc)
    v.ensure(what + ': without data, redshift 0 and no coefficients', v.implies(no, v.and_(cell('z') == 0, v.el(co, q, b) == 0)))
    v.ensure(what + ': with data, redshift and coefficients of the fit', v.implies(v.not_(no), v.and_(cell('z') == cf['z'](r), v.el(co, q, b) == cf['coeff'](r, b))))
    for c, x in (('spectype', 'GALAXY'), ('subtype', ''), ('fitmethod', 'NONE')):
        v.ensure('%s: without data, %s %s' % (what, c, x or 'blank'), v.implies(no, cell(c) == x))
        v.ensure('%s: with data, %s of the fit' % (what, c), v.implies(v.not_(no), cell(c) == cf[c](r)))
def catalogue_ok(v, g, t, what):
    if not isinstance(t, Table): v.ensure(what + ': there is a catalogue', False); return
    v.ensure(what + ': columns', set(t.cols) == {c.upper() for c in g.cols if c not in ('zz', 'zzchi2', 'znum')})
    best = [r for r, c in enumerate(g.cands) if c[1] == 0]; n = t.nrows()
    v.ensure(what + ': one row per target', isinstance(n, int) and n == len(best))
    if n != len(best): return
    for q, r in enumerate(best): row_ok(v, g, t, q, r, what, True)
def details_ok(v, g, w):
    t = w['table']; v.ensure('details: the scan', w['scan'] is g.scan and w['clobber'] is True)
    v.ensure('details: columns and candidates', set(t.cols) == set(g.cols) and t.nrows() == len(g.cands))
    if t.nrows() != len(g.cands): return
    for r in range(len(g.cands)): row_ok(v, g, t, r, r, 'details', False)
def extras_ok(v, g, w):
    v.ensure('fibermaps, scores and headers of the input', w['fm'].cols.keys() == g.fm.t.cols.keys() and w['ex'] is g.exp and w['ts'] is g.tsn and w['head'] is g.head and w['second'] is g.second and w['arch'] is None and w['tm'] == g.templates)
    i = v.arb('i', g.fm.n)
    for c, a in w['fm'].cols.items(): v.ensure('the fibermap is unchanged', v.and_(a.shape[0] == g.fm.n, v.el(a, i) == v.el(g.fm.t.cols[c], i)))
def models_ok(v, g, w):
    best = [g.ids[c[0]] for c in g.cands if c[1] == 0]
    catalogue_ok(v, g, w['table'], 'model file'); v.ensure('model file: cameras', set(w['models']) == set(BANDS) == set(w['wave']))
    v.ensure('model file: header', w['head'] is g.head and w['tm'] == g.templates)
    for b in BANDS:
        a = w['models'][b]; p = v.arb('p', g.n[b])
        v.ensure('model file: wavelengths of the camera', w['wave'][b] is g.wave[b])
        v.ensure('model file: shape', a.ndim == 2 and a._shape[0] == len(best) and v.and_(a.shape[1] == g.n[b]))
        if a.ndim == 2 and a._shape[0] == len(best):
            for q, i in enumerate(best): v.ensure('each model is in the row of its target', v.el(a, q, p) == g.mf[i, b](p))

_F = ['redrock.external.desi.rrdesi']
def _serial(v, k, model):
    g = world(v, k, old=v.c.choose(2) == 1); sky = v.c.choose(2) == 0; det = v.c.choose(2) == 0
    args = ['-i', 'in.fits', '-o', 'out.fits'] + (['-d', 'det.h5'] if det else []) + ([] if sky else ['--no-skymask']) + (['--model', 'mod.fits'] if model else [])
    w = session(v, g, g.ids[::-1], None, sky, args)
    v.ensure('the outputs that were asked for', set(w.files) == {'out.fits'} | ({'det.h5'} if det else set()) | ({'mod.fits'} if model else set()))
    if 'out.fits' in w.files: catalogue_ok(v, g, w.files['out.fits']['table'], 'catalogue'); extras_ok(v, g, w.files['out.fits'])
    if 'det.h5' in w.files: details_ok(v, g, w.files['det.h5'])
    if 'mod.fits' in w.files: models_ok(v, g, w.files['mod.fits'])
@proof('C21', _F)
def one_target(v): _serial(v, 0, False)
@proof('C21', _F)
def two_targets(v): _serial(v, 1, False)
@proof('C21', _F)
def three_targets(v): _serial(v, 2, True)
@proof('C21', _F)
def processes(v):
    g = world(v, 2); args = ['-i', 'in.fits', '-o', 'out.fits', '--model', 'mod.fits', '--no-mpi-abort']; d = [[], []]
    for i in [-44, 5, 39627000000000001]: d[v.c.choose(2)].append(i)
    others = [[lambda: [{b: g.model[i, b].copy() for b in BANDS} for i in d[1]]], [lambda: list(d[1])]]
    root = Comm(0, 2, others=others); w = session(v, g, d[0], root, True, args)
    v.ensure('the outputs that were asked for', set(w.files) == {'out.fits', 'mod.fits'})
    if set(w.files) != {'out.fits', 'mod.fits'}: return
    catalogue_ok(v, g, w.files['out.fits']['table'], 'catalogue'); models_ok(v, g, w.files['mod.fits'])
    other = Comm(1, 2, box=root.sent); w = session(v, g, d[1], other, True, args)
    v.ensure('only one process writes', not w.files); v.ensure('every process takes part in the same broadcasts', len(other.sent) == len(root.sent))
    v.ensure('every process contributes its models and targets', len(other.gave) == 2 == len(root.gave))
    if len(other.gave) != 2: return
    m, t = other.gave; v.ensure('every process contributes its targets', list(t) == d[1] and len(m) == len(d[1]))
    for x, i in zip(m, d[1]):
        for b in BANDS: p = v.arb('p', g.n[b]); v.ensure('every process contributes its models', v.el(x[b], p) == g.mf[i, b](p))

# ---------------------------------------------------------------- the files themselves
class Header(dict):
    @property
    def cards(s): return [(k, x) for k, x in s.items()]
    def extend(s, cards, strip=True, unique=False, update=False, **k):
        for c in (cards.cards if isinstance(cards, Header) else cards):
            if c[0] not in s or update: s[c[0]] = c[1]
    def copy(s, *a): return Header(s)
    def __setitem__(s, k, x): dict.__setitem__(s, k, x[0] if isinstance(x, tuple) else x)
class HDU:
    def __init__(s, data=None, header=None, name=None, **k): s.data, s.header = data, Header(header or {}); s.name = name if name is not None else s.header.get('EXTNAME', '')
    @property
    def name(s): return s._n
    @name.setter
    def name(s, n): s._n = n.upper(); s.header['EXTNAME'] = s._n
def table_to_hdu(t): return HDU(value(t), {k: x for k, x in t.meta.items()}, t.meta.get('EXTNAME', ''))
def fits_of(d):
    class HDUList(list):
        def writeto(s, path, overwrite=False, **k):
            d.op('open')
            if path in d.f and not overwrite: raise fail(OSError, 'file exists')
            d.f[path] = 'partial'; d.look()
            for h in s: d.op('write'); d.look()
            d.op('close'); d.f[path] = {h.name: (value(h.data), Header(h.header)) for h in s}; d.look()
    return types.SimpleNamespace(HDUList=HDUList, PrimaryHDU=HDU, ImageHDU=HDU, BinTableHDU=HDU, Header=Header, table_to_hdu=table_to_hdu, convenience=types.SimpleNamespace(table_to_hdu=table_to_hdu))
def tempname(f):
    "contract of desispec.io.util.get_tempfilename: another name in the same directory"
    a, b = posixpath.splitext(f); return a + '_tmp4711' + b
def _file(v, which):
    out = '/data/sub/x.fits'; before = v.c.choose(2) == 1; d = Disk(v, out, before, True)
    if v.c.choose(2): d.dirs.add('/data/sub')
    M = v.mod('external.desi'); o = d.os(); o.environ = {'RR_TEMPLATE_DIR': '/templates'} if before else {}; M.os = o; M.fits = fits_of(d); M.get_tempfilename = tempname; M.annotate_fibermap = lambda h: h
    M.add_dependencies = lambda h, *a: None; M.setdep = lambda h, k, x: h.__setitem__('DEP ' + k, x); M.get_template_dir = lambda: '/templates'
    for p in (out + '.tmp', tempname(out)):
        if v.c.choose(2): d.f[p] = 'partial'            # left over by an earlier, interrupted run
    n = v.size('ntarget', lo=1); T = lambda nm, **k: Table({c: v.array(nm + c, (n,), q) for c, q in k.items()})
    zb = T('zb', TARGETID='i', Z='r', ZWARN='w'); ft = {c: v.frozen(a) for c, a in zb.cols.items()}
    tm = [Rec(full_type='GALAXY', template_type='GALAXY', sub_type='', version='1', filename='/templates/a.fits'), Rec(full_type='STAR:::M', template_type='STAR', sub_type='M', version='2', filename='/templates/b.fits')]
    tm = {('GALAXY', ''): tm[0], ('STAR', 'M'): tm[1]}; head = Header(SURVEY='main', OTHER=3)
    if which == 'zbest':
        fm, ex, ts = T('fm', TARGETID='i'), T('ex', TARGETID='i'), T('ts', TARGETID='i'); d.need = ['REDSHIFTS', 'FIBERMAP', 'EXP_FIBERMAP', 'TSNR2']; tabs = dict(REDSHIFTS=zb, FIBERMAP=fm, EXP_FIBERMAP=ex, TSNR2=ts)
        second = {'FIBERMAP': Header(EXTRA=1, EXTNAME='FIBERMAP'), 'SCORES': Header()} if v.c.choose(2) else None
        go = lambda: ((M.write_zbest, out, zb, fm, ex, ts, tm), dict(spec_header=head, secondary_headers=second))
    else:
        d.need = ['REDSHIFTS', 'B_WAVELENGTH', 'B_MODEL', 'Z_WAVELENGTH', 'Z_MODEL']; tabs = dict(REDSHIFTS=zb); nw = {b: v.size('n_' + b, lo=1) for b in BANDS}
        mo = {b: v.array('model_' + b, (n, nw[b])) for b in BANDS}; wa = {b: v.array('wave_' + b, (nw[b],)) for b in BANDS}
        go = lambda: ((M.write_bestmodel, out, zb, mo, wa, tm), dict(spec_header=head))
    tf = {t: {c: v.frozen(a) for c, a in x.cols.items()} for t, x in tabs.items()}
    if v.c.choose(2): d.fault = lambda what: Stop('interrupted: ' + what)
    def run():
        a = go()
        return v.call_exc(*a[0], **a[1])
    try: r, e = run()
    except Stop as s: v.cover('raise'); e = s
    if e is not None and 'interrupted' not in str(e): v.ensure('no other error: %s' % type(e).__name__, False)
    d.look()
    if e is not None:
        d.faults = False; r, e = run(); v.ensure('a later write is not disturbed by an interrupted one', e is None)
    f = d.f.get(out); v.ensure('a finished write leaves the complete file', d.full(f))
    if not d.full(f): return
    i = v.arb('i', n); v.ensure('keywords of the input', f[''][1].get('SURVEY') == 'main' and 'OTHER' not in f[''][1])
    for q, t in enumerate(tm.values()): v.ensure('templates are named', f[''][1].get('TEMNAM%02d' % q) == t.full_type and f[''][1].get('TEMVER%02d' % q) == t.version and f[''][1].get('TEMFIL%02d' % q) == posixpath.basename(t.filename))
    for t, cols in tf.items():
        x = f[t][0]; v.ensure('columns of the file', isinstance(x, Table) and set(x.cols) == set(cols))
        for c, a in cols.items(): v.ensure('rows of the file', v.and_(x.cols[c].shape[0] == n, v.el(x.cols[c], i) == a(i)))
    if which == 'zbest': v.ensure('keywords of the input table', second is None or f['FIBERMAP'][1].get('EXTRA') == 1)
    else:
        for b in BANDS:
            B = b.upper(); p = v.arb('p', nw[b]); m, w = f[B + '_MODEL'][0], f[B + '_WAVELENGTH'][0]
            v.ensure('models of the file', v.and_(m.shape[0] == n, m.shape[1] == nw[b], v.el(m, i, p) == v.el(mo[b], i, p))); v.ensure('wavelengths of the file', v.and_(w.shape[0] == nw[b], v.el(w, p) == v.el(wa[b], p)))
@proof('C21', ['redrock.external.desi.write_zbest', 'redrock.external.desi._get_header'])
def interrupted_catalogue(v): _file(v, 'zbest')
@proof('C21', ['redrock.external.desi.write_bestmodel', 'redrock.external.desi._get_header'])
def interrupted_model(v): _file(v, 'model')
