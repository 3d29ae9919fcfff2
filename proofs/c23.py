"""C23: BOSS spectra reach the target that owns them"""
from vc.prove import *
from vc.arr import SArr, as_arr, zi, _b, convert
from vc.core import S, ctx, Unsupported, ufun, lift
from vc import npf
from vc.loader import Rec
from .c13 import Disk, fail, Stop, words
from .c21 import Table, Header, HDU, table_to_hdu, fits_of, Comm, value
from vc.sparse import Dia
import numpy as np, types, posixpath, z3
class G: pass
POW = ufun('pow', 2)
def P10(x): return S(POW(z3.RealVal(10), convert(*lift(x), 'r')))

class Im:
    "an image of a file: every read gives it anew"
    def __init__(s, a, hdr=None): s.a, s.hdr = a, hdr
    def read(s): return s.a.copy()
    def read_header(s): return Head(s.hdr)
    def __getitem__(s, k):
        if k == slice(None): return s.a.copy()
        raise Unsupported('part of an image')
class Head(dict):
    "contract of fitsio headers: a missing keyword is a KeyError"
class Tb:
    def __init__(s, **c): s.c = c
    def __getitem__(s, k): return Col(s.c[k])
    def read(s, columns=None): raise Unsupported('whole table')
class Col:
    def __init__(s, a): s.a = a
    def __getitem__(s, k): return np.array(s.a)[k]
    def read(s): return np.array(s.a)
class Fits:
    def __init__(s, hdus): s.h = hdus; s.closed = False
    def __getitem__(s, k):
        if s.closed: raise ValueError('read of a closed file')
        return s.h[k]
    def close(s): s.closed = True
    def __enter__(s): return s
    def __exit__(s, *a): s.close(); return False

LIM = dict(plate=(3500., 10000.), b=(3500., 6000.), r=(5500., 10000.))
def image(v, name, kind, fibers, wide):
    "one file: two fibers (or any number of at least 502), any number of pixels that cover the wavelength limits"
    g = G(); g.kind, g.fibers = kind, fibers; nf = len(fibers) if 499 not in fibers else v.size('nfiber_' + name, lo=502); n = g.n = v.size('npix_' + name, lo=2)
    g.flux, g.ivar, g.wd = [v.array('%s_%s' % (x, name), (nf, n)) for x in ('flux', 'ivar', 'disp')]; g.mask = v.array('mask_' + name, (nf, n), 'i')
    g.F, g.I, g.D, g.M = [v.frozen(x) for x in (g.flux, g.ivar, g.wd, g.mask)]
    if kind == 'plate':
        g.c0, g.c1 = v.real('COEFF0_' + name), v.real('COEFF1_' + name); g.log = lambda r, j: g.c0 + g.c1 * j
    else: g.la = v.array('loglam_' + name, (nf, n)); g.log = v.frozen(g.la)
    g.w = lambda r, j: P10(g.log(r, j))
    # the pixels nearest to the limits (of any fiber) are in order
    w = SArr.new((zi(nf), zi(n)), lambda i: convert(*lift(g.w(S(i[0], "i") if z3.is_expr(i[0]) else i[0], S(i[1], 'i') if z3.is_expr(i[1]) else i[1])), 'r'), 'r')
    g.lo, g.hi = [npf.argmin(npf.min_(abs(w - x), axis=0)) for x in LIM[kind]]; v.require(g.lo + 4 < g.hi)
    v.require(v.all((nf, n), lambda r, j: v.and_(g.D(r, j) <= (2 if wide else 1), g.D(r, j) >= (0 if wide else 1e-5))))
    return g
def hdus(g, **hdr):
    h = dict(hdr)
    if g.kind == 'plate': h.update(COEFF0=g.c0, COEFF1=g.c1)
    else: h.update(CAMERAS=g.kind + '1  ')
    return [Im(g.flux, h), Im(g.ivar), Im(g.mask), Im(g.la if g.kind != 'plate' else g.mask), Im(g.wd), Tb(FIBERID=g.fibers)]
def id_(p, m, f): return (p * 100000 + m) * 10000 + f

def read(v, plates, frames=False, want=None, amask=False, rcsr=False, coadd=False, fiber=None, wide=False, full=True):
    """plates: list of (plate, mjd, thing ids, [(camera, kind, fibers)]); -> checks what read_spectra returns"""
    files, order, names, byname = {}, [], [], {}; many = len(plates) > 1
    for q, (plate, mjd, thing, ims) in enumerate(plates):
        nm = 'dir%d/spPlate-%d-%d.fits' % (q, plate, mjd); names.append(nm); hdr = Head(PLATEID=plate, MJD=mjd)
        files[nm.replace('spPlate', 'photoPosPlate')] = [Im(None), Tb(THING_ID=thing)]
        for k, (cam, kind, fibers) in enumerate(ims):
            g = image(v, '%s%d' % (cam, q), kind, fibers, wide)
            if frames:
                e = '%s-%08d' % (cam, 17 + k); hdr['NEXP_' + cam.upper()] = hdr.get('NEXP_' + cam.upper(), 0) + 1; hdr['EXPID%02d' % (k + 1)] = e + '-more'
                fn = 'dir%d/spCFrame-%s.fits' % (q, e); files[fn] = hdus(g, PLATEID=plate, MJD=mjd)
            else: fn = nm; files[nm] = hdus(g, PLATEID=plate, MJD=mjd)
            order.append((q, fn, g, cam)); byname[fn] = g
        if frames: files[nm] = [Im(None, hdr)]
        files[nm][0].hdr = dict(files[nm][0].hdr, **hdr)
    M = v.mod('external.boss'); opened = []
    class FITS(Fits):
        def __init__(s, n, *a): opened.append(n); Fits.__init__(s, files[n])
    M.fitsio = types.SimpleNamespace(FITS=FITS)
    M.os = types.SimpleNamespace(path=posixpath)
    M.sparse = types.SimpleNamespace(dia_matrix=Dia, dia_array=Dia)
    class Spec:
        def __init__(s, wave, flux, ivar, R, Rcsr=None, band=None): s.wave, s.flux, s.ivar, s.R, s.Rcsr = wave, flux, ivar, R, Rcsr
    class Targ:
        def __init__(s, targetid, spectra, coadd=False, cosmics_nsig=None, meta=None): s.id, s.spectra, s.coadd, s.meta = targetid, list(spectra), coadd, meta
    class Tab(dict):
        def __init__(s, *a, **k): dict.__init__(s); assert not a and not k
    v.contract('external.boss', 'Spectrum', Spec, keep=True); v.contract('external.boss', 'Target', Targ, keep=True); M.Table = Tab
    npf.Facade.overrides = dict(npf.Facade.overrides, ceil=lambda x: ceil_(v, x, byname[opened[-1]], wide), diagonal=diagonal)
    try: ts, meta = v.call(M.read_spectra, list(names), targetids=want, use_frames=frames, coadd=coadd, cache_Rcsr=rcsr, use_andmask=amask, fiberid=fiber)
    finally: npf.Facade.overrides = {k: f for k, f in npf.Facade.overrides.items() if k not in ('ceil', 'diagonal')}
    # whose rows are whose
    own = {}
    for q, fn, g, cam in order:
        for f in g.fibers:
            if fiber is not None and f not in fiber: continue
            t = plates[q][2][f - 1] if many else id_(plates[q][0], plates[q][1], f)
            if want is None or t in want: own.setdefault(t, []).append((g, g.fibers.index(f) if 499 not in g.fibers else f - 1))
    ids = sorted(own)
    v.ensure('the targets asked for, in order of their ids', [int(t.id) for t in ts] == ids)
    v.ensure('the table lists the same targets', [int(t) for t in meta['TARGETID']] == ids)
    ps, ms = {p[0] for p in plates}, {p[1] for p in plates}; brick = '%d-%d' % (ps.pop() if len(ps) == 1 else 0, ms.pop() if len(ms) == 1 else 0)
    v.ensure('plate and date', all(t.meta['BRICKNAME'] == brick for t in ts) and all((b.decode() if isinstance(b, bytes) else b) == brick for b in meta['BRICKNAME']))
    v.ensure('coadded as asked for', all(bool(t.coadd) == coadd for t in ts))
    v.ensure('one spectrum per fiber and file', [len(t.spectra) for t in ts] == [len(own[i]) for i in ids])
    for t, i in zip(ts, ids):
        for s, (g, r) in zip(t.spectra, own[i]): spectrum(v, s, g, r, amask, rcsr, full)
    v.cover('read')

def ceil_(v, x, g, wide):
    "np.ceil of the widest dispersion of the file: the case distinction is made here"
    k = 1 + v.c.choose(2) if wide else 1; v.require(v.and_(x > k - 1, x <= k)); g.half = 2 * k; return float(k)
def diagonal(a, offset=0, axis1=0, axis2=1):
    "contract of np.diagonal of a matrix"
    if (axis1, axis2) != (0, 1) or not isinstance(offset, (int, np.integer)): raise Unsupported('diagonal')
    a = as_arr(a); f, (n, m) = a.frozen(), a._shape; lo = max(0, -offset); co = max(0, offset)
    import z3
    z = lambda d: z3.IntVal(d) if isinstance(d, int) else d
    k = z3.If(z(n) - lo < z(m) - co, z(n) - lo, z(m) - co); k = z3.simplify(z3.If(k > 0, k, 0))
    return SArr.new((k,), lambda i: f((i[0] + lo, i[0] + co)), a.kind)
def spectrum(v, s, g, r, amask, rcsr, full):
    lo, hi = g.lo, g.hi
    n = hi - lo; p = v.arb('pixel', n); half = g.half
    v.ensure('pixels between those nearest to the limits', v.and_(*[v.and_(len(a.shape) == 1, a.shape[0] == n) for a in (s.wave, s.flux, s.ivar)]))
    v.ensure('wavelengths of the fiber', v.el(s.wave, p) == g.w(r, lo + p)); v.ensure('flux of the fiber', v.el(s.flux, p) == g.F(r, lo + p))
    v.ensure('weight of the fiber', v.el(s.ivar, p) == (v.ite(g.M(r, lo + p) == 0, g.I(r, lo + p), 0) if amask else g.I(r, lo + p)))
    # resolution: Gaussians of the dispersion at each pixel, normalised, at most `half` pixels wide
    D = v.ite(g.D(r, lo + p) < 1e-5, 2, g.D(r, lo + p)); offs = [half - k for k in range(2 * half + 1)]
    v.ensure('diagonals of the resolution', v.and_(isinstance(s.R, Dia), [int(o) for o in np.ravel(s.R.offsets if isinstance(s.R.offsets, np.ndarray) else [s.R.offsets[k] for k in range(2 * half + 1)])] == offs, s.R.shape[0] == n, s.R.shape[1] == n))
    gauss = [v.ite(v.and_(p - o >= 0, p - o < n), npf.exp(-(o * o) / 2 / D ** 2), 0) for o in offs]; tot = sum(gauss[1:], gauss[0])
    for k, o in enumerate(offs):
        if not full and k not in (1, half): continue
        v.ensure('resolution from the dispersion of the fiber', v.implies(v.and_(p - o >= 0, p - o < n), v.el(s.R.data, k, p) == gauss[k] / tot))
    v.ensure('both forms of the resolution', (s.Rcsr is not None) == rcsr if not rcsr else v.and_(s.Rcsr is not None))

def pick(v, xs): return xs[v.c.choose(len(xs))]
_F = ['redrock.external.boss.read_spectra']
def one(v, P, Mj, **k): read(v, [(P, Mj, None, [('x', 'plate', [1, 2])])], **k)
@proof('C23', _F)
def one_plate(v): one(v, 4055, 55359, wide=True, amask=pick(v, [True, False]))
@proof('C23', _F)
def selection(v):
    ids = [id_(11675, 58523, f) for f in (1, 2)]; how = v.c.choose(3)
    one(v, 11675, 58523, want=[[ids[1]], [ids[1], ids[0]], None][how], fiber=[2] if how == 2 else None, rcsr=how == 0, coadd=how == 1)
@proof('C23', _F)
def several_plates(v):
    A, B = pick(v, [([70, 50], [50, 70]), ([3, 9], [4, 1]), ([7, 7], [7, 8])]); same = v.c.choose(3)
    read(v, [(4055, 55359, A, [('x', 'plate', [1, 2])]), (4055 + (same != 1), 55359 + (same != 2), B, [('x', 'plate', [1, 2])])], want=pick(v, [None, [B[1]]]), full=False)
@proof('C23', _F)
def large_plate(v): read(v, [(4055, 55359, None, [('x', 'plate', [1, 2, 499, 501, 502])])], fiber=[1, 499, 502], want=pick(v, [None, [id_(4055, 55359, 502)]]), full=False)
@proof('C23', _F)
def frames(v):
    cams = pick(v, [[('b1', 'b', [1, 2]), ('r1', 'r', [1, 2])], [('r1', 'r', [1, 2]), ('b2', 'b', [501, 502])], [('b1', 'b', [1, 2]), ('b1', 'b', [1, 2]), ('r2', 'r', [501, 502])]])
    read(v, [(4055, 55359, None, cams)], frames=True, amask=bool(v.c.choose(2)), full=False)
@proof('C23', _F)
def frames_of_two_plates(v):
    T = [0] * 501; T[0], T[1], T[500] = 9, 4, 9; U = list(T); U[0] = 4
    read(v, [(4055, 55359, T, [('b1', 'b', [1, 2])]), (4056, 55360, U, [('r1', 'r', [1, 2]), ('b2', 'b', [501])])], frames=True, full=False)

# ---------------------------------------------------------------- the program
IDS = [40550553590001, 40550553590007, 40550553590500]
CANDS = [(1, 0, 'GALAXY', ''), (0, 1, 'STAR', 'M'), (0, 0, 'QSO', 'LOZ'), (2, 0, 'STAR', 'CV')]
def boss_world(v):
    g = G(); n = len(CANDS); g.W, g.mc = v.size('width', lo=1), v.size('maxcoeff', lo=1); a = lambda c, sh=(), k='r': v.array(c, (n,) + sh, k)
    ar = lambda xs: npf.array(list(xs))
    g.cols = dict(targetid=ar(IDS[c[0]] for c in CANDS), z=a('z'), zerr=a('zerr'), zwarn=a('zwarn', (), 'w'), chi2=a('chi2'), zz=a('zz', (g.W,)), zzchi2=a('zzchi2', (g.W,)), coeff=a('coeff', (g.mc,)), npixels=a('npixels', (), 'i'),
                  spectype=words(c[2] for c in CANDS), subtype=words(c[3] for c in CANDS), ncoeff=a('ncoeff', (), 'i'), znum=ar(c[1] for c in CANDS), deltachi2=a('deltachi2'), BRICKNAME=words(['4055-55359'] * n))
    g.cf = {c: v.frozen(x) for c, x in g.cols.items()}; g.scan = object()
    tm = [Rec(full_type=f, _version=w, version=w) for f, w in (('GALAXY', '2.6'), ('STAR:::M', '0.1'))]; g.th = [Rec(_template=t, template=t) for t in tm]
    return g
class Comm23(Comm):
    def allgather(s, x): return [x, {'other': s.extra}] if s.rank == 0 else [{'other': s.extra}, x]
def boss_session(v, g, comm, args, mine):
    M = v.mod('external.boss'); out = G(); out.files, out.reads, out.fits = {}, [], []; rank = comm.rank if comm is not None else 0
    v.c.ghost['masks stay symbolic'] = True; v.c.ghost['format forks'] = True
    sel = None if '--targetids' not in args else [int(x) for x in args[args.index('--targetids') + 1].split(',')]
    waves = {i: v.array('wave_%d_%d' % (i, rank), (v.size('n_%d_%d' % (i, rank), lo=1),)) for i in IDS}
    ts = [Rec(id=i, spectra=[types.SimpleNamespace(wave=waves[i], wavehash=i % 100)]) for i in sorted(sel or IDS)]
    def read_spectra(files, targetids=None, use_frames=False, fiberid=None, coadd=False, cache_Rcsr=False, use_andmask=False):
        out.reads.append(dict(files=list(files), want=targetids, frames=use_frames, coadd=coadd, amask=use_andmask, fiber=fiberid)); return list(ts), Table(dict(TARGETID=npf.array([t.id for t in ts])))
    v.contract('external.boss', 'read_spectra', read_spectra, keep=True)
    def dist(targets, n):
        "contract of distribute_targets (C09): every target is given to exactly one process"
        t = [x.id for x in targets]; v.ensure('targets are given to the processes there are', n == (comm.size if comm is not None else 1)); return [t] if n == 1 else [[i for i in t if i in m] for m in mine]
    v.contract('targets', 'distribute_targets', dist, keep=True)
    def load(dwave, templates=None, **k): out.dwave = dwave; return list(g.th)
    v.contract('external.boss', 'load_dist_templates', load, keep=True)
    def zfind(targets, templates, mp_procs=1, **k):
        out.fits.append((k, [t.id for t in targets.local()], list(targets.local_target_ids()), list(targets.all_target_ids), list(templates) == g.th)); out.local = targets.local()
        return (g.scan, Table(g.cols)) if rank == 0 else (None, None)
    v.contract('external.boss', 'zfind', zfind, keep=True); v.contract('external.boss', 'get_mp', lambda n: 1, keep=True); v.contract('external.boss', 'elapsed', lambda *a, **k: 0., keep=True)
    def put(name, **w):
        v.ensure('each output is written once, by one process', name not in out.files and rank == 0); out.files[name] = w
    v.contract('external.boss', 'write_zscan', lambda f, scan, zfit, clobber=False: put(f, scan=scan, table=value(zfit), clobber=clobber), keep=True)
    v.contract('external.boss', 'write_zbest', lambda f, zb, tv, av: put(f, table=value(zb), tv=tv, av=av), keep=True)
    r, e = v.call_exc(M.rrboss, args, comm=comm); v.ensure('no exception%s' % (': %s' % type(e).__name__ if e is not None else ''), e is None); out.ts = ts
    return out
def boss_row(v, g, t, q, r, up, what):
    for c, f in g.cf.items():
        if up and c in ('zz', 'zzchi2', 'znum'): continue
        a = t.cols[c.upper() if up else c]
        if len(a.shape) == 2: d = v.arb('d', g.W if c != 'coeff' else g.mc); v.ensure('%s: %s' % (what, c), v.and_(a.shape[1] == (g.W if c != 'coeff' else g.mc), v.el(a, q, d) == f(r, d)))
        else: v.ensure('%s: %s' % (what, c), S(a.at((q,)), a.kind) == f(r))
def boss_outputs(v, g, w, zb, det):
    v.ensure('the outputs that were asked for', set(w.files) == ({'z.fits'} if zb else set()) | ({'d.h5'} if det else set()))
    if 'z.fits' in w.files:
        f = w.files['z.fits']; t = f['table']; best = [r for r, c in enumerate(CANDS) if c[1] == 0]
        v.ensure('catalogue: columns', set(t.cols) == {c.upper() for c in g.cols if c not in ('zz', 'zzchi2', 'znum')}); v.ensure('catalogue: one row per target', t.nrows() == len(best))
        if t.nrows() == len(best):
            for q, r in enumerate(best): boss_row(v, g, t, q, r, True, 'catalogue')
        v.ensure('catalogue: templates are named', f['tv'] == {x._template.full_type: x._template._version for x in g.th} and f['av'] is None)
    if 'd.h5' in w.files:
        f = w.files['d.h5']; t = f['table']; v.ensure('details: the scan and all candidates', f['scan'] is g.scan and f['clobber'] is True and set(t.cols) == set(g.cols) and t.nrows() == len(CANDS))
        if t.nrows() == len(CANDS):
            for r in range(len(CANDS)): boss_row(v, g, t, r, r, False, 'details')
_R = ['redrock.external.boss.rrboss', 'redrock.targets.DistTargetsCopy.__init__']
@proof('C23', _R)
def boss_program(v):
    g = boss_world(v); zb, det = [(True, True), (True, False), (False, True)][v.c.choose(3)]; how = v.c.choose(6); fr, am, al = [(False, False, True), (True, False, False), (False, True, True)][v.c.choose(3)]
    extra, mine = [([], IDS), (['--targetids', '%d,%d' % (IDS[2], IDS[0])], [IDS[0], IDS[2]]), (['--mintarget', '1'], IDS[1:]), (['-n', '2'], IDS[:2]), (['--mintarget', '1', '--ntargets', '1'], IDS[1:2]), (['-n', '2', '--nminima', '7'], IDS[:2])][how]
    args = ['--spplate', 'a.fits', 'b.fits'] + (['--zbest', 'z.fits'] if zb else []) + (['-o', 'd.h5'] if det else []) + (['--use-frames'] if fr else []) + (['--use-andmask'] if am else []) + (['--allspec'] if al else []) + extra
    w = boss_session(v, g, None, args, None)
    v.ensure('what was asked for is read', w.reads == [dict(files=['a.fits', 'b.fits'], want=[IDS[2], IDS[0]] if how == 1 else None, frames=fr, coadd=not al, amask=am, fiber=None)])
    v.ensure('one fit', len(w.fits) == 1)
    for k, loc, ids, every, th in w.fits:
        v.ensure('the targets selected are fitted, in order', loc == ids == mine and every == mine); v.ensure('with the templates and options asked for', th and k.get('nminima', 3) == (7 if how == 5 else 3) and all(k.get(x) is None for x in ('archetypes', 'priors', 'chi2_scan')))
        v.ensure('with its own spectra', all(t is u for t, u in zip(w.local, [x for x in w.ts if x.id in mine])))
        v.ensure('templates are read for the wavelengths of the targets', set(w.dwave) == {i % 100 for i in mine})
    boss_outputs(v, g, w, zb, det)
@proof('C23', _R)
def boss_processes(v):
    g = boss_world(v); args = ['--spplate', 'a.fits', '--zbest', 'z.fits', '-o', 'd.h5', '--no-mpi-abort']; d = [[], []]
    for i in IDS: d[v.c.choose(2)].append(i)
    root = Comm23(0, 2); root.extra = v.array('wave_o', (v.size('n_o', lo=1),)); w = boss_session(v, g, root, args, d); boss_outputs(v, g, w, True, True)
    other = Comm23(1, 2, box=root.sent); other.extra = root.extra; u = boss_session(v, g, other, args, d)
    v.ensure('only one process writes', not u.files); v.ensure('every process takes part in the same broadcasts', len(other.sent) == len(root.sent))
    for q, x in enumerate((w, u)):
        v.ensure('one fit', len(x.fits) == 1)
        for k, loc, ids, every, th in x.fits:
            v.ensure('every target is fitted on the process it was given to', loc == ids == d[q] and every == IDS and th); v.ensure('with the spectra that the root process read', all(t is [y for y in w.ts if y.id == t.id][0] for t in x.local))
            v.ensure('wavelengths of all processes', set(x.dwave) == {'other'} | {i % 100 for i in d[q]})
@proof('C23', ['redrock.external.boss.write_zbest'])
def interrupted_boss(v):
    out = '/data/sub/x.fits'; before = v.c.choose(2) == 1; d = Disk(v, out, before, True); d.dirs.add('/data/sub'); M = v.mod('external.boss'); M.os = d.os(); M.fits = fits_of(d)
    for p in (out + '.tmp',):
        if v.c.choose(2): d.f[p] = 'partial'            # left over by an earlier, interrupted run
    n = v.size('ntarget', lo=1); zb = Table(dict(TARGETID=v.array('tid', (n,), 'i'), Z=v.array('z', (n,)), ZWARN=v.array('zw', (n,), 'w'))); zf = {c: v.frozen(a) for c, a in zb.cols.items()}
    d.need = ['ZBEST']; tv = {'GALAXY': '2.6', 'STAR:::M': '0.1'}; av = pick(v, [None, {'QSO': '1'}])
    if v.c.choose(2): d.fault = lambda what: Stop('interrupted: ' + what)
    def run(): return v.call_exc(M.write_zbest, out, zb, tv, av)
    try: r, e = run()
    except Stop as s: v.cover('raise'); e = s
    if e is not None and 'interrupted' not in str(e): v.ensure('no other error: %s' % type(e).__name__, False)
    d.look()
    if e is not None:
        d.faults = False; r, e = run(); v.ensure('a later write is not disturbed by an interrupted one', e is None)
    f = d.f.get(out); v.ensure('a finished write leaves the complete file', d.full(f))
    if not d.full(f): return
    h = f[''][1]; i = v.arb('i', n); x = f['ZBEST'][0]
    for pre, w in (('TEM', tv), ('ARC', av or {})):
        for q, (a, b) in enumerate(w.items()): v.ensure('templates are named', h.get('%sNAM%02d' % (pre, q)) == a and h.get('%sVER%02d' % (pre, q)) == b)
    v.ensure('columns of the file', set(x.cols) == set(zf))
    for c, a in zf.items(): v.ensure('rows of the file', v.and_(x.cols[c].shape[0] == n, v.el(x.cols[c], i) == a(i)))
