"""C13: details files"""
import shutil, tempfile
from .base import *
from .survey import *

def gen_results(rng, k, nt=None, small=False):
    nt = nt or int(rng.integers(1, 5)); arch = rng.random() < .4; neg = rng.random() < .3; many = rng.random() < .06
    ids = [int(i) for i in rng.permutation(10 ** 6)[:nt]]
    if rng.random() < .5: ids = [39627000000000000 + i for i in ids]
    if neg: ids[0] = -ids[0] - 1
    fts = [('GALAXY', '')] + [('STAR', s) for s in 'AFKM'[:int(rng.integers(0, 4))]] + ([('QSO', 'HIZ'), ('QSO', 'LOZ')] if rng.random() < .5 else [])
    if rng.random() < .3: fts = fts[::-1]
    scan = {}
    zs = {ft: np.sort(rng.uniform(0, 2, size=int(rng.integers(3, 20)))) for ft in fts}
    ncs = {ft: int(rng.integers(1, 6)) for ft in fts}
    for t in ids:
        scan[t] = {}
        for ft in fts:
            n = len(zs[ft]); pen = np.where(rng.random(n) < .5, 0, rng.uniform(0, 5, size=n))
            scan[t][ft] = dict(redshifts=zs[ft], zchi2=rng.uniform(100, 9999999., size=n), penalty=pen, zcoeff=rng.normal(size=(n, ncs[ft])) * 10 ** rng.uniform(-3, 4))
    mc = int(rng.integers(max(ncs.values()), 9)); rows = []; nleg = [0, 2, 2][k // 4 % 3]
    for t in ids:
        m = int(rng.integers(1, 6)) if not many else int(rng.integers(120, 270))
        for zn in range(m):
            ft = fts[int(rng.integers(0, len(fts)))]; nc = ncs[ft]
            sub = ft[1] if not arch else 'ELG_%d;LRG_%d' % (rng.integers(0, 99), rng.integers(0, 9)) if rng.random() < .5 else 'ELG_%d' % rng.integers(0, 9)
            r = dict(targetid=t, z=rng.uniform(0, 2), zerr=rng.uniform(0, 1e-3), zwarn=int(rng.integers(0, 2 ** 12)), chi2=rng.uniform(1e2, 1e7), zz=rng.uniform(0, 2, size=15), zzchi2=rng.uniform(1, 1e6, size=15),
                     coeff=np.concatenate((rng.normal(size=nc), np.zeros(mc - nc))), fitmethod='ARCH' if arch else ['PCA', 'NMF'][int(rng.integers(0, 2))], npixels=int(rng.integers(0, 10 ** 4)), spectype=ft[0], subtype=sub, ncoeff=nc, znum=zn,
                     deltachi2=rng.uniform(0, 1e6), FIBER=int(rng.integers(0, 5000)), MAG=float(rng.normal()))
            if arch: r.update(legcoeff=rng.normal(size=(3, nleg)), pca_coeff=rng.normal(size=4), pca_spectype=ft[0], pca_subtype=ft[1])
            rows.append(r)
    sel = None
    if k % 3:
        s = [i for i in ids if rng.random() < .6] or [ids[-1]]
        sel = s[0] if (len(s) == 1 and rng.random() < .5) else s if rng.random() < .5 else list(s[::-1])
    return dict(ids=ids, fts=fts, scan=scan, rows=rows, sel=sel, upper=bool(rng.random() < .3), prev=int(rng.integers(0, 4)), clobber=bool(rng.random() < .5), order=bool(rng.random() < .3), sub=bool(rng.random() < .3))

def _build(inp):
    from astropy.table import Table
    from redrock.templates import make_fulltype
    rows = inp['rows']
    t = Table({c: np.array([r[c] for r in rows]) for c in rows[0]})
    ids = inp['ids'][::-1] if inp['order'] else inp['ids']
    return {i: {make_fulltype(*ft): {a: np.array(b) for a, b in inp['scan'][i][ft].items()} for ft in inp['fts']} for i in ids}, t

STR = ('spectype', 'subtype', 'fitmethod', 'pca_spectype', 'pca_subtype')
def _same_table(got, rows, req, upper, what):
    if not req(len(got) == len(rows), what + ': number of candidates', (len(got), len(rows))): return
    want = {c for c in rows[0] if np.size(rows[0][c])}; have = set(got.colnames)
    if not req({(c.upper() if upper else c) for c in want} == have, what + ': columns', (want ^ have)): return
    for c in rows[0]:
        if c not in want: continue                      # no values, no column
        v = got[c.upper() if upper else c]; x = np.array([r[c] for r in rows])
        if c in STR: req(v.dtype.kind == 'U' and [str(a) for a in v] == [str(a) for a in x], what + ': string columns', (c, list(v)[:3], list(x)[:3]))
        elif x.dtype.kind in 'iu': req(same(np.asarray(v).astype('i8'), x.astype('i8')), what + ': integer columns', (c, list(v)[:3]))
        elif c in ('z', 'MAG', 'legcoeff', 'pca_coeff'): req(np.array_equal(np.asarray(v), x) or close(v, x, rtol=2e-7), what + ': columns', c)
        else: req(close(np.asarray(v, float), x, rtol=2e-7, atol=1e-30), what + ': columns to single precision', c)

def _cmp_scan(got, inp, ids, req, what):
    from redrock.templates import make_fulltype
    if not req([int(x) for x in sorted(got)] == sorted(ids), what + ': exactly the selected targets', (sorted(got), sorted(ids))): return
    for i in ids:
        if not req({k for k in got[i]} == {make_fulltype(*f) for f in inp['fts']}, what + ': every template'): continue
        for ft in inp['fts']:
            g, w = got[i][make_fulltype(*ft)], inp['scan'][i][ft]
            req(np.array_equal(np.asarray(g['redshifts']), w['redshifts']), what + ': redshift grid')
            for c in ('zchi2', 'penalty', 'zcoeff'):
                req(np.asarray(g[c]).shape == w[c].shape and close(g[c], w[c], rtol=2e-7, atol=1e-30), what + ': ' + c)

@contract('C13', ['results.write_zscan', 'results.read_zscan', 'results.read_zfit', 'results.read_zscan_redrock', 'utils.encode_column'], gen_results, quick=60, thorough=1500)
def roundtrip(inp, req):
    from redrock.results import write_zscan, read_zscan, read_zfit, read_zscan_redrock
    d = tempfile.mkdtemp(prefix='vc_c13_')
    try:
        fn = os.path.join(d, 'sub', 'x.h5') if inp['sub'] else os.path.join(d, 'details.h5')
        scan, zfit = _build(inp); keep = zfit.copy()
        if inp['prev'] == 1:
            os.makedirs(os.path.dirname(fn), exist_ok=True); open(fn, 'wb').write(b'old')
        if inp['prev'] == 2:
            os.makedirs(os.path.dirname(fn), exist_ok=True); open(fn + '.tmp', 'wb').write(b'left over')
        write_zscan(fn, scan, zfit, clobber=inp['clobber'])
        req(zfit.colnames == keep.colnames and all(np.array_equal(zfit[c], keep[c]) and zfit[c].dtype == keep[c].dtype for c in keep.colnames), 'writing does not change the results in memory')
        bytid = {i: [r for r in inp['rows'] if r['targetid'] == i] for i in inp['ids']}
        s, f = read_zscan(fn)
        _cmp_scan(s, inp, inp['ids'], req, 'all targets')
        order = [r['targetid'] for r in inp['rows'] if r['znum'] == 0]
        _same_table(f, [r for i in order for r in bytid[i]], req, False, 'all targets')
        _percand(s, inp, bytid, inp['ids'], req, False)
        s2 = read_zscan_redrock(fn); _cmp_scan(s2, inp, inp['ids'], req, 'reuse by redrock')
        s3 = read_zscan(fn, nozfit=True); _cmp_scan(s3, inp, inp['ids'], req, 'without candidates')
        sel = inp['sel']
        if sel is not None:
            ids = [sel] if np.isscalar(sel) else list(sel)
            s, f = read_zscan(fn, select_targetids=sel, upper=inp['upper'])
            _cmp_scan(s, inp, ids, req, 'selection')
            got = f.copy(); col = 'TARGETID' if inp['upper'] else 'targetid'
            req(set(got[col]) == set(ids), 'selection: exactly the selected targets')
            for i in ids: _same_table(got[got[col] == i], bytid[i], req, inp['upper'], 'selection')
            _percand(s, inp, bytid, ids, req, inp['upper'])
            z = read_zfit(fn, select_targetids=sel); req(set(z['targetid']) == set(ids), 'selection of candidates: exactly the selected targets')
            for i in ids: _same_table(z[z['targetid'] == i], bytid[i], req, False, 'selection of candidates')
        else: _same_table(read_zfit(fn, upper=inp['upper']), [r for i in order for r in bytid[i]], req, inp['upper'], 'candidates')
    finally: shutil.rmtree(d)

def _percand(s, inp, bytid, ids, req, upper):
    from redrock.templates import make_fulltype
    for i in ids:
        for ft in inp['fts']:
            want = [r for r in bytid[i] if (r.get('pca_spectype', r['spectype']), r.get('pca_subtype', r['subtype'])) == ft]
            g = s[i][make_fulltype(*ft)].get('zfit')
            if want:
                if req(g is not None, 'candidates of a template are attached to it'):
                    _same_table(g[np.argsort(g['ZNUM' if upper else 'znum'])], want, req, upper, 'per template')
            else: req(g is None, 'no candidates are attached to other templates')

class Interrupt(BaseException): pass
def gen_crash(rng, k):
    a = gen_results(rng, k, nt=int(rng.integers(1, 4)))
    a.update(at=float(rng.random()), at2=float(rng.random()), prev=int(rng.integers(0, 3)), exc=int(rng.integers(0, 3)))
    return a

@contract('C13', ['results.write_zscan'], gen_crash, quick=30, thorough=500)
def interrupted(inp, req):
    "the output path at every executed line, and after an exception raised at a line, a file-system call or an HDF5 call"
    from redrock.results import write_zscan, read_zscan_redrock
    import h5py
    d = tempfile.mkdtemp(prefix='vc_c13_')
    root = os.path.join(REPO, 'py') + os.sep
    scan, zfit = _build(inp)
    def complete(fn):
        try: r = read_zscan_redrock(fn)
        except Exception: return False
        q = Req(); _cmp_scan(r, inp, inp['ids'], q, 'x')
        with h5py.File(fn, 'r') as fx: ok = 'zbest' in fx and all('zfit/%d/zfit' % i in fx for i in inp['ids'])
        return ok and not q.failed
    try:
        old = b'previous details file' * 50
        def setup(n):
            fn = os.path.join(d, 'f%d.h5' % n)
            if inp['prev']: open(fn, 'wb').write(old)
            return fn
        def state(fn):
            if not os.path.exists(fn): return 'absent'
            b = open(fn, 'rb').read()
            if inp['prev'] and b == old: return 'previous'
            return 'complete' if complete(fn) else 'partial'
        seen = set(); cnt = [0]; cache = [None, None]
        def run(fn, stop):
            def tr(fr, ev, arg):
                if not fr.f_code.co_filename.startswith(root): return None
                if ev in ('line', 'return'):
                    cnt[0] += 1
                    st = os.stat(fn).st_mtime_ns if os.path.exists(fn) else None
                    sz = os.path.getsize(fn) if st is not None else None
                    if cache != [st, sz]:
                        cache[:] = [st, sz]; sys.settrace(None)
                        try: seen.add(state(fn))
                        finally: sys.settrace(tr)
                    if stop is not None and cnt[0] == stop:
                        raise [Interrupt, KeyboardInterrupt, OSError][inp['exc']]('interrupted')
                return tr
            cnt[0] = 0; cache[:] = ['?', '?']; old_tr = sys.gettrace(); sys.settrace(tr)
            try: write_zscan(fn, scan, zfit.copy(), clobber=inp['clobber'])
            except (Interrupt, KeyboardInterrupt): pass
            except OSError as e:
                if 'interrupted' not in str(e): raise
            finally: sys.settrace(old_tr)
        fn = setup(0); run(fn, None); total = cnt[0]
        req('partial' not in seen, 'no partially written file is ever visible', sorted(seen))
        req(state(fn) == 'complete', 'a finished write leaves the complete file')
        for n, frac in enumerate((inp['at'], inp['at2'], 1 - 1e-9), 1):
            fn = setup(n); seen.clear(); run(fn, 1 + int(frac * total))
            st = state(fn)
            req(st != 'partial', 'an interrupted write leaves no file, the previous one or the complete one', st)
            req('partial' not in seen, 'no partially written file is ever visible', sorted(seen))
            run(fn, None)
            req(state(fn) == 'complete', 'a later write is not disturbed by an interrupted one')
        # an error inside HDF5 (disk full) at the n-th dataset
        fn = setup(9); k = [0]; lim = 1 + int(inp['at'] * (4 + 4 * len(inp['fts'])))
        orig = h5py.Group.__setitem__
        def bad(self, *a):
            k[0] += 1
            if k[0] >= lim: raise OSError('interrupted: no space left on device')
            return orig(self, *a)
        h5py.Group.__setitem__ = bad; seen.clear()
        try: run(fn, None)
        finally: h5py.Group.__setitem__ = orig
        req(state(fn) != 'partial', 'a failed write leaves no file, the previous one or the complete one')
        req('partial' not in seen, 'no partially written file is ever visible', sorted(seen))
        for f in [f for f in os.listdir(d)]: pass
    finally: shutil.rmtree(d)
