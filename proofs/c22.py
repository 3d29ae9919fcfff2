"""C22: a template file is loaded as the template it describes"""
from vc.prove import *
from vc.arr import SArr, as_arr, zi
from vc.core import S, ctx, Unsupported, ufun
from vc.strs import Text, ST, UP, sv
import z3, types, math, numpy as np, os as _os
from proofs.c20 import File, HDU
class G: pass
POW, LOG = ufun('pow', 2), ufun('log10')
def text(v, name): return Text(z3.Const(name, ST))
def same_text(a, b): return S(sv(a) == sv(b)) if isinstance(a, (Text, str)) and isinstance(b, (Text, str)) else False

class Header:
    "a FITS header: which of its keywords are present is arbitrary"
    def __init__(s, v, must, may):
        s.v, s.must, s.may = v, must, may; s.has = {k: v.bool('has ' + k) for k in may}
    def __contains__(s, k):
        if k in s.must: return True
        return bool(s.has[k]) if k in s.may else False
    def __getitem__(s, k):
        if k not in s: raise KeyError(k)
        return s.must[k] if k in s.must else s.may[k]
    def get(s, k, d=None): return s[k] if k in s else d
class Files:
    "fits.open: the template file, with or without redshifts"
    def __init__(s, v, g): s.v, s.g, s.opened = v, g, []
    def open(s, name, *a, **k):
        s.opened.append(name); g = s.g
        h = [HDU('', None), HDU('BASIS_VECTORS', g.flux)]; h[1].header = g.hdr
        if bool(g.hasz): h.append(HDU('REDSHIFTS', g.zgrid))
        g.file = File(h); return g.file

def choice(v, xs): return xs[v.c.choose(len(xs))]
def world(v, free):
    "the keywords in free are arbitrary, the others have one usual value"
    g = G(); g.nb, g.nw, g.nz = v.size('nbasis', lo=1), v.size('nwave', lo=2), v.size('nz', lo=1)
    g.flux, g.zgrid = v.array('basis', (g.nb, g.nw)), v.array('redshifts', (g.nz,)); g.F, g.Z = v.frozen(g.flux), v.frozen(g.zgrid)
    g.crval, g.cdelt, g.loglam = v.real('CRVAL1'), v.real('CDELT1'), v.int('LOGLAM')
    g.type = choice(v, ['GALAXY', 'QSO ', ' star', 'Elg'] if 'kind' in free else ['GALAXY', 'QSO', 'STAR']) if 'type' not in free else text(v, 'RRTYPE')
    g.sub, g.igm = text(v, 'RRSUBTYP'), text(v, 'RRIGM')
    g.method = choice(v, ['PCA', 'nmf', 'NMF', 'ICA']) if 'method' in free else 'PCA'; g.version = choice(v, ['0.1', '1.0', '1.1', '2.6', '2.60', '']) if 'version' in free else '9.9'
    g.hdr = Header(v, dict(CRVAL1=g.crval, CDELT1=g.cdelt, NAXIS1=g.nw, NAXIS2=g.nb, RRTYPE=g.type),
                   dict(LOGLAM=g.loglam, RRSUBTYP=g.sub, RRIGM=g.igm, RRMETHOD=g.method, VERSION=g.version))
    for k, n, usual in (('LOGLAM', 'grid', False), ('RRSUBTYP', 'subtype', True), ('RRIGM', 'igm', True), ('RRMETHOD', 'method', True), ('VERSION', 'version', True)):
        if n not in free: v.require(g.hdr.has[k] == usual)
    g.hasz = v.bool('has redshifts')
    if 'redshifts' not in free: v.require(g.hasz == ('ranges' not in free))
    g.here, g.there = v.bool('file exists'), v.bool('file exists in the template directory')
    if 'path' not in free: v.require(g.here)
    M = v.mod('templates'); g.M = M; g.fits = Files(v, g); M.fits = g.fits
    def exists(p): return g.here if p == 'some/template.fits' else g.there if p == '/templates/some/template.fits' else False
    M.os = types.SimpleNamespace(path=types.SimpleNamespace(exists=exists, join=_os.path.join, basename=_os.path.basename), environ={'RR_TEMPLATE_DIR': '/templates'})
    M.native_endian = lambda a: a      # byte order is not modelled
    return g

def ranges(v, g, which):
    "a requested range for each type; which are given"
    out, g.given = {}, {}
    for t in ('galaxy', 'qso', 'star'):
        if t not in which: out['zscan_' + t] = None; continue
        p = [text(v, '%s_%s' % (t, n)) for n in ('zmin', 'zmax', 'dz')]
        for x in p: v.require(v.not_(S(z3.Contains(x.t, z3.StringVal(',')))))
        lo, hi, dz = [x.number() for x in p]; v.require(dz > 0)
        if t == 'star': v.require(lo < hi)
        else: v.require(v.and_(lo > -1, lo < hi, S(LOG((1 + lo).t)) < S(LOG((1 + hi).t))))
        out['zscan_' + t] = p[0] + ',' + p[1] + ',' + p[2]; g.given[t] = (lo, hi, dz)
    return out
DEFAULT = dict(galaxy=(-0.005, 1.7, 3e-4), qso=(0.05, 6.0, 5e-4), star=(-0.002, 0.00201, 4e-5))
def L10(x): return S(LOG(z3.simplify(convert(*lift(x), 'r'))))
def P10(x): return S(POW(z3.RealVal(10), convert(*lift(x), 'r')))

def check_grid(v, g, t, kind):
    "redshifts of a template whose file records none"
    if isinstance(t.redshifts, np.ndarray):      # default ranges are constants: evaluated
        lo, hi, dz = DEFAULT[kind]; f, inv = (lambda x: x, lambda x: x) if kind == 'star' else (lambda x: math.log10(1 + x), lambda x: 10 ** x - 1)
        n = math.ceil((f(hi) - f(lo)) / dz); z = [inv(f(lo) + k * dz) for k in range(n)]
        v.ensure('default redshifts (%s)' % kind, len(t.redshifts) == n and all(abs(float(x) - y) < 1e-9 for x, y in zip(t.redshifts, z))); return
    lo, hi, dz = g.given.get(kind) or DEFAULT[kind]; a, b = (lo, hi) if kind == 'star' else (L10(1 + lo), L10(1 + hi))
    z = t.redshifts; n = z.shape[0]; i = v.arb('i', n)
    v.ensure('the last redshift lies below the upper limit, the next would not (%s)' % kind, v.and_(n >= 1, a + (n - 1) * dz < b, a + n * dz >= b))
    v.ensure('steps of the redshift grid (%s)' % kind, v.el(z, i) == (a + i * dz if kind == 'star' else P10(a + i * dz) - 1))

_TI = ['redrock.templates.Template.__init__']
def _load(v, free, which=()):
    g = world(v, free); zs = ranges(v, g, which); T = g.M.Template
    t, err = v.call_exc(T, 'some/template.fits', **zs)
    rr = Text(UP(g.type.strip().t)) if isinstance(g.type, Text) else g.type.strip().upper(); is_ = lambda s: same_text(rr, s); ver = lambda *s: v.and_(g.hdr.has['VERSION'], g.version in s)
    found = v.or_(g.here, g.there)
    meth = lambda s: g.method.upper() == s; M_ = g.hdr.has['RRMETHOD']
    okmethod = v.or_(v.not_(M_), meth('PCA'), meth('NMF')); oktype = v.or_(g.hasz, is_('GALAXY'), is_('QSO'), is_('STAR'))
    guess = v.or_(is_('STAR'), v.and_(is_('GALAXY'), ver('2.6')), v.and_(is_('QSO'), ver('0.1', '1.0', '1.1'))); okigm = v.or_(g.hdr.has['RRIGM'], guess)
    if err is not None and not isinstance(err, (OSError, ValueError)): raise err
    if err is not None:
        ok = v.and_(found, okmethod, oktype, okigm)
        v.ensure('refused only if missing or unusable', v.not_(ok))
        v.ensure('a missing file is an IOError, an unusable one a ValueError', v.or_(v.and_(v.not_(found), isinstance(err, OSError)), v.and_(found, isinstance(err, ValueError))))
        v.cover('refused'); return
    v.ensure('missing and unusable files are refused', v.and_(found, okmethod, oktype, okigm))
    v.ensure('the file that was asked for', v.and_(len(g.fits.opened) == 1, v.implies(g.here, g.fits.opened[0] == 'some/template.fits'), t.filename == 'some/template.fits'))
    # wavelengths and vectors
    i, b = v.arb('pixel', g.nw), v.arb('vector', g.nb); lin = g.crval + g.cdelt * i; log = v.and_(g.hdr.has['LOGLAM'], g.loglam != 0)
    v.ensure('one wavelength per pixel', v.and_(len(t.wave.shape) == 1, t.wave.shape[0] == g.nw))
    v.ensure('linear or logarithmic wavelengths', v.el(t.wave, i) == v.ite(log, P10(lin), lin))
    v.ensure('vectors of the file', v.and_(t.flux.shape[0] == g.nb, t.flux.shape[1] == g.nw, v.el(t.flux, b, i) == g.F(b, i)))
    v.ensure('number of vectors and pixels', v.and_(t.nbasis == g.nb, t.nwave == g.nw))
    v.ensure('wavelength limits', v.and_(t.minwave == v.el(t.wave, 0), t.maxwave == v.el(t.wave, g.nw - 1)))
    # identity
    v.ensure('spectral type', same_text(t.template_type, rr))
    v.ensure('subtype', v.implies(g.hdr.has['RRSUBTYP'], same_text(t.sub_type, Text(UP(g.sub.strip().t)))) if not isinstance(t.sub_type, str) else v.and_(v.not_(g.hdr.has['RRSUBTYP']), t.sub_type == ''))
    v.ensure('method', v.and_(v.implies(M_, same_text(t.method, g.method.upper())), v.implies(v.not_(M_), same_text(t.method, 'PCA'))))
    v.ensure('one name for the method', same_text(t.method, t.solve_matrices_algorithm))
    want = lambda c, m: v.implies(c, same_text(t.igm_model, m)); R_ = g.hdr.has['RRIGM']
    v.ensure('absorption model of the file', want(R_, g.igm))
    v.ensure('absorption model of older files', v.implies(v.not_(R_), v.and_(want(is_('STAR'), 'None'), want(is_('GALAXY'), 'Calura12'), want(v.and_(is_('QSO'), ver('0.1', '1.0')), 'Calura12'), want(v.and_(is_('QSO'), ver('1.1')), 'Kamble20'))))
    v.ensure('version', v.and_(v.implies(g.hdr.has['VERSION'], same_text(t.version, g.version)), v.implies(v.not_(g.hdr.has['VERSION']), same_text(t.version, 'unknown'))))
    # redshifts
    if bool(g.hasz):
        q = v.arb('q', g.nz)
        v.ensure('redshifts of the file', v.and_(t.redshifts.shape[0] == g.nz, v.el(t.redshifts, q) == g.Z(q))); v.cover('redshifts in the file')
        return
    for kind in ('galaxy', 'qso', 'star'):
        if bool(is_(kind.upper())): check_grid(v, g, t, kind); v.cover(kind); return
@proof('C22', _TI)
def grid_and_place(v): _load(v, ('grid', 'path'))
@proof('C22', _TI)
def any_type(v): _load(v, ('type', 'subtype', 'grid'))
@proof('C22', _TI)
def methods(v): _load(v, ('kind', 'method', 'redshifts'))
@proof('C22', _TI)
def absorption(v): _load(v, ('kind', 'igm', 'version'))
@proof('C22', _TI)
def default_ranges(v): _load(v, ('kind', 'ranges', 'redshifts', 'igm'))
@proof('C22', _TI)
def given_ranges(v): _load(v, ('redshifts', 'ranges', 'subtype'), ('galaxy', 'qso', 'star'))
@proof('C22', _TI)
def one_given_range(v): _load(v, ('ranges',), (choice(v, ['galaxy', 'qso', 'star']),))

# ---------------------------------------------------------------- sets of templates
class T_:
    def __init__(s, filename=None, zscan_galaxy=None, zscan_qso=None, zscan_star=None, **k):
        s.filename, s.zs = filename, (zscan_galaxy, zscan_qso, zscan_star); s.extra = k; LOADED.append(s)
        s.template_type, s.sub_type = KINDS[int(filename[4:])]
LOADED = []
KINDS = [('GALAXY', ''), ('STAR', 'A'), ('STAR', 'B'), ('QSO', 'A')]
_TL = ['redrock.templates.load_templates']
def some_files(v):
    names = ['file%d' % k for k in range(4)]; n = v.c.choose(4) + 1
    return [names[(k + v.c.choose(2)) % 4] for k in range(1)] if n == 1 else choice(v, [names[:n], names[:n][::-1]])
@proof('C22', _TL)
def list_of_files(v):
    M = v.mod('templates'); M.Template = T_; LOADED.clear(); names = some_files(v); kind = choice(v, [list, tuple]); d = choice(v, [True, False]); found = choice(v, [True, False])
    asked = []
    def find(p=None): asked.append(p); return list(names)
    M.find_templates = find
    r = v.call(M.load_templates, 'directory' if found else kind(names), zscan_galaxy='g', zscan_star='s', zscan_qso='q', asdict=d)
    v.ensure('a place is searched, a list is used as it is', asked == (['directory'] if found else []))
    v.ensure('one template per file, in order', [t.filename for t in LOADED] == names and (list(r.values()) if d else r) == LOADED)
    v.ensure('each type gets its own range', all(t.zs == ('g', 'q', 's') and not t.extra for t in LOADED))
    if d: v.ensure('found under type and subtype', list(r) == [KINDS[int(n[4:])] for n in names])
@proof('C22', _TL)
def usual_files(v):
    M = v.mod('templates'); M.Template = T_; LOADED.clear(); asked = []
    def find(p=None): asked.append(p); return ['file1']
    M.find_templates = find; r = v.call(M.load_templates)
    v.ensure('without a place the usual one is searched', asked == [None] and r == LOADED and len(r) == 1 and r[0].zs == (None,) * 3)

class Comm:
    def __init__(s, rank, size, box): s.rank, s.size, s.box = rank, size, box
    def bcast(s, x, root=0):
        if s.rank == root: s.box.append(x)
        elif x is not None: s.box.append('sent by another process')
        return s.box[0]
    def barrier(s): pass
    def Barrier(s): pass
@proof('C22', ['redrock.templates.load_dist_templates'])
def every_process(v):
    M = v.mod('templates'); n = choice(v, [0, 1, 2, 3]); made = []; box = []; redis = choice(v, [False, True]); dw = {'b': object(), 'r': object()}; ts = {}
    def load(p=None, zscan_galaxy=None, zscan_star=None, zscan_qso=None, asdict=False):
        v.ensure('read from the place asked for, with the ranges asked for', (p, zscan_galaxy, zscan_star, zscan_qso) == ('place', 'g', 's', 'q'))
        v.ensure('read once', not ts)
        for k in range(3): ts[KINDS[k]] = types.SimpleNamespace(k=k, template_type=KINDS[k][0], sub_type=KINDS[k][1], full_type=':::'.join(x for x in KINDS[k] if x))
        return dict(ts) if asdict else list(ts.values())
    def dist(name):
        def make(t, dwave, mp_procs=1, comm=None, use_gpu=False, gpu_mode=False): made[-1].append((name, t, dwave, mp_procs, comm, use_gpu, gpu_mode)); return made[-1][-1]
        return make
    M.load_templates, M.elapsed, M.DistTemplate, M.ReDistTemplate = load, (lambda *a, **k: 0), dist('split'), dist('whole')
    for r in range(max(1, n)):
        comm = Comm(r, n, box) if n else None; made.append([])
        out = v.call(M.load_dist_templates, dw, templates='place', comm=comm, mp_procs=4, zscan_galaxy='g', zscan_qso='q', zscan_star='s', redistribute=redis)
        v.ensure('the same templates in the same order on every process', list(out) == made[-1] and [x[1] for x in out] == list(ts.values()) and len(ts) == 3)
        v.ensure('each rebinned to the wavelengths of the data', all(x[0] == ('whole' if redis else 'split') and x[2] is dw and x[4] is comm and not x[5] and not x[6] for x in out))
