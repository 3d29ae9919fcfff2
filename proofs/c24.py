"""C24: an archetype file is loaded as the archetypes it describes"""
from vc.prove import *
from vc.arr import SArr, as_arr, zi
from vc.core import S, Unsupported, ufun
from vc.strs import Text, TextArr, ST
import z3, types, fnmatch, numpy as np, os as _os
from proofs.c20 import File, HDU
from proofs.c22 import Header, text, same_text, choice, P10
def _s(x): return S(x) if z3.is_expr(x) else x
class G: pass
class Table_:
    "the rows of the ARCHETYPES table"
    def __init__(s, **cols): s.cols = cols; s.names = list(cols)
    def __getitem__(s, k): return s.cols[k]
    def __len__(s): return len(s.cols['SUBTYPE'])
class Raw:
    "a column of characters: bytes until converted to str"
    def __init__(s, xs): s.xs = xs
    def __len__(s): return len(s.xs)
    def astype(s, t):
        if t not in (str, 'str', 'U'): raise Unsupported('characters as other values')
        return TextArr(s.xs)
NARCH = 3
def world(v, nrows=None):
    g = G(); g.na = nrows or v.c.choose(NARCH) + 1; g.nw = v.size('nwave', lo=2)
    g.flux = v.array('archetypes', (g.na, g.nw)); g.F = v.frozen(g.flux)
    g.crval, g.cdelt, g.loglam = v.real('CRVAL1'), v.real('CDELT1'), v.bool('LOGLAM')
    g.type, g.version = text(v, 'RRTYPE'), text(v, 'VERSION'); g.subs = [text(v, 'SUBTYPE%d' % k) for k in range(g.na)]
    for x in g.subs: v.require(v.not_(S(z3.Contains(x.t, z3.StringVal(':')))))
    M = v.mod('archetypes'); g.M = M; g.opened = []
    def fits_open(name, *a, **k):
        g.opened.append(name)
        h = [HDU('', None), HDU('ARCHETYPES', Table_(ARCHETYPE=g.flux, SUBTYPE=Raw(g.subs)))]
        h[1].header = Header(v, dict(CRVAL1=g.crval, CDELT1=g.cdelt, LOGLAM=g.loglam, RRTYPE=g.type, VERSION=g.version), {})
        return File(h)
    M.fits = types.SimpleNamespace(open=fits_open)
    g.interps = []
    def interp1d(x, y, fill_value=None, kind='linear', **kw):
        if kw or kind != 'linear' or fill_value != 'extrapolate': raise Unsupported('another interpolation')
        k = len(g.interps); g.interps.append((as_arr(x), as_arr(y)))
        f = ufun('interpolated%d' % k)
        def at(w):
            a = as_arr(w); af = v.frozen(a)
            return SArr.new(a._shape, lambda i: f(v.raw(af(*[_s(q) for q in i]))), 'r')
        at.k = k; return at
    M.interp1d = interp1d
    return g
def wave(g, i):
    lin = g.crval + g.cdelt * i
    return lin
_TI = ['redrock.archetypes.Archetype.__init__']
@proof('C24', _TI)
def archetype_file(v):
    g = world(v); a = v.call(g.M.Archetype, 'some/rrarchetype.fits')
    v.ensure('the file that was asked for', g.opened == ['some/rrarchetype.fits'] and a.filename == 'some/rrarchetype.fits')
    i = v.arb('pixel', g.nw); lin = g.crval + g.cdelt * i
    v.ensure('one wavelength per pixel', v.and_(len(a.wave.shape) == 1, a.wave.shape[0] == g.nw))
    v.ensure('linear or logarithmic wavelengths', v.el(a.wave, i) == v.ite(g.loglam, P10(lin), lin))
    v.ensure('wavelength limits', v.and_(a.minwave == v.el(a.wave, 0), a.maxwave == v.el(a.wave, g.nw - 1)))
    v.ensure('one archetype per row', v.and_(len(a.flux.shape) == 2, a.flux.shape[0] == g.na, a.flux.shape[1] == g.nw, a._narch == g.na, a._nwave == g.nw))
    for k in range(g.na): v.ensure('the flux of its row', v.el(a.flux, k, i) == g.F(k, i))
    t = g.type.strip(); subs, full = list(a.sub_type), list(a.full_type)
    v.ensure('spectral type', same_text(a.template_type, t)); v.ensure('version', same_text(a.version, g.version))
    v.ensure('one name per archetype', len(subs) == g.na and len(full) == g.na)
    for k in range(g.na):
        v.ensure('subtype of its row, made unique by its number', same_text(subs[k], g.subs[k].strip() + '_%d' % k))
        v.ensure('full name', same_text(full[k], t + ':::' + g.subs[k].strip() + '_%d' % k))
    v.ensure('method', a.method == 'ARCH')
    v.cover('loaded')
_TR = ['redrock.archetypes.Archetype.rebin_template_batch']
def _loaded(v):
    g = G(); M = v.mod('archetypes'); g.M = M; a = g.a = M.Archetype.__new__(M.Archetype)
    g.na, g.nw, g.z = v.size('narch', lo=1), v.size('nwave', lo=2), v.real('z'); v.require(g.z > -1)
    a.flux, a.wave = v.array('flux', (g.na, g.nw)), v.array('wave', (g.nw,)); g.F, g.X = v.frozen(a.flux), v.frozen(a.wave)
    a._narch, a._nwave, a._rrtype, a.igm_model, a.method = g.na, g.nw, 'GALAXY', 'Inoue14', 'ARCH'; a.minwave, a.maxwave = g.X(0), g.X(g.nw - 1)
    g.npx = [v.size('npix%d' % k, lo=2) for k in range(2)]; g.grid = [v.array('grid%d' % k, (n,)) for k, n in enumerate(g.npx)]; g.dwave = dict(zip('br', g.grid))
    g.p = v.arb('template pixel', g.nw); g.G = ufun('binned', 3); g.calls = []
    def rebin(x, y, xnew=None, edges=None, myz=None, use_gpu=False, xmin=None, xmax=None, edge_min=None, edge_max=None):
        "C01: bin averages, row by row: here a function of the grid, the row and the pixel"
        if edges is not None or use_gpu or xnew is None: raise Unsupported('rebinning on given edges')
        k = [q for q in range(2) if g.grid[q] is xnew]
        if not k: raise Unsupported('rebinning to an unknown grid')
        x, y = as_arr(x), as_arr(y); zz = 0 if myz is None else myz
        if isinstance(zz, SArr): raise Unsupported('rebinning at several redshifts')
        v.ensure('at the redshift asked for', v.and_(x.shape[0] == g.nw, v.el(x, g.p) * (1 + zz) == (1 + g.z) * g.X(g.p)))
        v.ensure('the flux belongs to the wavelengths', y.shape[-1] == g.nw); Y = v.frozen(y); g.calls.append(k[0])
        one = lambda i, row: g.G(z3.RealVal(k[0]), v.raw(row), z3.ToReal(i) if z3.is_expr(i) else z3.RealVal(i))
        if len(y._shape) == 1: return SArr.new((zi(g.npx[k[0]]),), lambda i: one(i[0], Y(g.p)), 'r')
        return SArr.new((zi(g.npx[k[0]]), y._shape[0]), lambda i: one(i[0], Y(_s(i[1]), g.p)), 'r')
    v.contract('archetypes', 'trapz_rebin', rebin)
    return g
def want(v, g, k, i, row): return S(g.G(z3.RealVal(k), v.raw(g.F(row, g.p)), z3.ToReal(v.raw(i))), 'r')
@proof('C24', _TR)
def rebinned(v):
    g = _loaded(v); which = choice(v, ['all', 'some']); ix = None; n = g.na
    if which == 'some':
        n = v.size('chosen', lo=1); ix = v.array('indx', (n,), 'i'); I = v.frozen(ix); v.require(v.all(n, lambda j: v.and_(0 <= I(j), I(j) < g.na)))
    r = v.call(g.M.Archetype.rebin_template_batch, g.a, g.z, g.dwave, **({} if ix is None else dict(indx=ix)))
    v.ensure('every grid', set(r) == set(g.dwave))
    for k, b in enumerate('br'):
        i, j = v.arb('pixel %d' % k, g.npx[k]), v.arb('archetype %d' % k, n)
        v.ensure('pixels and archetypes', v.and_(len(r[b].shape) == 2, r[b].shape[0] == g.npx[k], r[b].shape[1] == n))
        v.ensure('each archetype in its column', v.el(r[b], i, j) == want(v, g, k, i, j if ix is None else I(j)))
    v.ensure('the archetypes are not changed', v.and_(v.all((g.na, g.nw), lambda q, p: v.el(g.a.flux, q, p) == g.F(q, p)), v.all(g.nw, lambda p: v.el(g.a.wave, p) == g.X(p))))
    v.cover(which)
@proof('C24', ['redrock.archetypes.Archetype.rebin_template'])
def rebinned_one(v):
    g = _loaded(v); q = v.arb('which', g.na); r = v.call(g.M.Archetype.rebin_template, g.a, q, g.z, g.dwave)
    v.ensure('every grid', set(r) == set(g.dwave))
    for k, b in enumerate('br'):
        i = v.arb('pixel %d' % k, g.npx[k])
        v.ensure('one value per pixel', v.and_(len(r[b].shape) == 1, r[b].shape[0] == g.npx[k]))
        v.ensure('of the archetype asked for', v.el(r[b], i) == want(v, g, k, i, q))
@proof('C24', _TI + _TR + ['redrock.archetypes.Archetype.rebin_template'])
def interpolated(v):
    g = world(v); a = v.call(g.M.Archetype, 'some/rrarchetype.fits'); z = v.real('z'); v.require(z > -1)
    npx = [v.size('npix%d' % k, lo=2) for k in range(2)]; grid = [v.array('grid%d' % k, (n,)) for k, n in enumerate(npx)]; dw = dict(zip('br', grid)); GF = [v.frozen(x) for x in grid]
    p = v.arb('template pixel', g.nw)
    which = choice(v, ['one'] + [None] + ([[0]] if g.na == 1 else [[g.na - 1], [g.na - 1, 0]])); rows = list(range(g.na)) if which is None else [g.na - 1] if which == 'one' else which
    if which == 'one': r = v.call(g.M.Archetype.rebin_template, a, g.na - 1, z, dw, trapz=False)
    else: r = v.call(g.M.Archetype.rebin_template_batch, a, z, dw, trapz=False, **({} if which is None else dict(indx=np.array(which))))
    for k, b in enumerate('br'):
        i = v.arb('pixel %d' % k, npx[k])
        if which != 'one': v.ensure('pixels and archetypes', v.and_(r[b].shape[0] == npx[k], r[b].shape[1] == len(rows)))
        for c, row in enumerate(rows):
            # the interpolation of that row: any of those made from its flux
            got = v.el(r[b], i) if which == 'one' else v.el(r[b], i, c)
            ok = [v.and_(got == S(ufun('interpolated%d' % q)(v.raw(GF[k](i) / (1 + z))), 'r'), v.el(y, p) == g.F(row, p), v.el(x, p) == v.el(a.wave, p), y.shape[0] == g.nw, x.shape[0] == g.nw) for q, (x, y) in enumerate(g.interps)]
            v.ensure('each archetype interpolated at the rest wavelengths', v.or_(*ok))
    v.cover(str(which))
# ---------------------------------------------------------------- sets of archetypes
@proof('C24', ['redrock.archetypes.All_archetypes.__init__'])
def collection(v):
    M = v.mod('archetypes'); made = []; kind = dict(galaxy='GALAXY', qso='Qso', star='wd').get
    class A:
        def __init__(s, f): s.f = s._filename = s.filename = f; s._rrtype = s.template_type = kind(f); s._narch = 3; made.append(s)
    M.Archetype = A; asked = []; names = choice(v, [['galaxy'], ['qso', 'galaxy'], ['galaxy', 'star', 'qso'], []]); given = choice(v, [True, False])
    def find(d=None): asked.append(d); return list(names)
    M.find_archetypes = find
    r = v.call(M.All_archetypes, lstfilename=list(names)) if given else v.call(M.All_archetypes, archetypes_dir='place')
    if not given: v.ensure('the place asked for is searched', asked == ['place'])
    v.ensure('the archetypes of each file under their type', sorted(r.archetypes) == sorted(kind(n) for n in names) and all(a.f == n and r.archetypes[kind(n)] is a for n, a in zip(names, made)) and len(made) == len(names))
@proof('C24', ['redrock.archetypes.find_archetypes'])
def files(v):
    M = v.mod('archetypes'); env = choice(v, [None, '/from/env']); code = choice(v, [True, False]); arg = choice(v, [None, '/some/file.fits', '/dir', '$ROOT/dir'])
    have = ['rrarchetype-%s.fits' % t for t in choice(v, [['star', 'galaxy', 'qso'], ['qso'], []])]; here = '/code/archetypes'; asked = []
    def glob(p):
        d, q = _os.path.split(p); asked.append(d)
        return [_os.path.join(d, n) for n in have + ['notes.txt', 'rrtemplate-qso.fits', 'old-rrarchetype-z.fits'] if fnmatch.fnmatchcase(n, q)]
    P = types.SimpleNamespace(dirname=lambda p: '/code', abspath=lambda p: p, join=_os.path.join, split=_os.path.split, basename=_os.path.basename, isfile=lambda p: p.endswith('.fits'), isdir=lambda p: p in ('/dir', '/root/dir', '/from/env') or p == here and code,
                              exists=lambda p: p in ('/dir', '/root/dir', '/from/env', '/some/file.fits') or p == here and code, expandvars=lambda p: p.replace('$ROOT', '/root'))
    e = {'ROOT': '/root'}; e.update({'RR_ARCHETYPE_DIR': env} if env else {})
    M.os = types.SimpleNamespace(path=P, environ=e, sep='/', getenv=lambda k, d=None: e.get(k, d)); M.glob = glob
    r, err = v.call_exc(M.find_archetypes, *([] if arg is None else [arg]))
    if arg is None and env is None and not code: v.ensure('no place to search is an error', isinstance(err, OSError)); return
    if err is not None: raise err
    if arg == '/some/file.fits': v.ensure('the file asked for', r == [arg]); return
    d = arg or env or here; full = d.replace('$ROOT', '/root')
    v.ensure('the archetype files of that directory, by name', set(asked) == {full} and [x.replace('$ROOT', '/root') for x in r] == sorted(full + '/' + n for n in have))
