"""C10: results do not depend on the number of processes"""
from vc.prove import *
from vc import loader, npf
from vc.loader import Rec
from vc.arr import SArr, as_arr, _b, zi
from vc.core import tb, lift, S, ctx, Unsupported
import itertools, collections
class G: pass

# ---------------------------------------------------------------- contract of multiprocessing
def by_value(x):
    "what another process receives"
    if isinstance(x, SArr): return x.copy()
    if type(x) in (list, tuple): return type(x)(by_value(y) for y in x)
    if type(x) is dict: return {k: by_value(y) for k, y in x.items()}
    return x
class World:
    "processes see their arguments by value; their messages arrive in any order that keeps each sender's own order"
    def __init__(s): s.procs, s.cur, s.queues = [], 0, []
    def Process(s, target=None, args=(), kwargs=None, **k):
        w = s
        class P:
            def start(p):
                if p in w.procs: raise Unsupported('process started twice')
                w.procs.append(p); old, w.cur = w.cur, len(w.procs)
                try: target(*[by_value(a) if not isinstance(a, Queue) else a for a in args], **(kwargs or {}))
                finally: w.cur = old
            def join(p, timeout=None):
                if p not in w.procs: raise Unsupported('join of a process that was not started')
                n = w.procs.index(p) + 1
                ctx().check('a worker is joined after its messages were received', not any(q.box.get(n) for q in w.queues), kind='safety')
            def is_alive(p): raise Unsupported('is_alive')
        return P()
    def Queue(s, *a): q = Queue(s); s.queues.append(q); return q
class Queue:
    def __init__(q, w): q.w, q.box = w, collections.OrderedDict()
    def put(q, x): q.box.setdefault(q.w.cur, []).append(by_value(x))
    def get(q, *a, **k):
        have = [n for n in q.box if q.box[n]]
        if not have:
            ctx().check('the process does not wait for a message that never comes', False, kind='safety', assume=False)
            raise PathEnd('waits for ever')
        n = have[ctx().choose(len(have))] if len(have) > 1 else have[0]
        return q.box[n].pop(0)
def use_workers():
    w = World(); loader.MPROC.Process, loader.MPROC.Queue = w.Process, w.Queue
    return w

# ---------------------------------------------------------------- ring of communicating processes
@proof('C10', ['redrock.templates.DistTemplate.cycle'])
def ring(v):
    """every process runs the same cycle(); relying on the others doing the same, after k rounds
    process r holds piece (r-k) mod P, so all pieces are seen once before the ring reports the end"""
    T = v.mod('templates'); P, r, k = v.size('P', lo=1), v.int('rank', lo=0), v.int('round', lo=0)
    v.require(v.and_(r < P, k < P))
    def holds(q, m):                # piece of process q after m < P+1 rounds
        d = q - m; return S(z3.If(zi(d) >= 0, zi(d), zi(d + P)))
    sent = []
    class Req:
        def wait(s): return None
        def test(s): raise Unsupported('request')
    class Comm:
        rank, size = r, P
        def Get_rank(s): return r
        def Get_size(s): return P
        def isend(s, x, dest=None, tag=0):
            sent.append((x, dest)); return Req()
        def send(s, x, dest=None, tag=0): raise Unsupported('blocking send in a ring')
        def recv(s, source=None, tag=0):
            s.src = source
            v.ensure('there is such a process', v.and_(source >= 0, source < P))
            return piece(holds(source, k), source)
        def __getattr__(s, n): raise Unsupported('communicator.%s' % n)
    def piece(i, owner): return Rec(index=i, _token_=('piece', owner))
    me = T.DistTemplate.__new__(T.DistTemplate); comm = Comm()
    mine = piece(holds(r, k), r)
    me._comm, me._comm_rank, me._comm_size, me._piece, me._template, me._dwave = comm, r, P, mine, None, None
    done = v.call(me.cycle)
    if len(sent) != 1 or not hasattr(comm, 'src'): raise Unsupported('communication pattern')
    (x, dest) = sent[0]
    v.ensure('the held piece is passed on', x is mine)
    v.ensure('to the next process of the ring', dest == S(z3.If(zi(r + 1) == zi(P), z3.IntVal(0), zi(r + 1))))
    v.ensure('receives from the process that sends to it', comm.src == S(z3.If(zi(r) == 0, zi(P - 1), zi(r - 1))))
    v.ensure('holds the next piece of the ring', me._piece.index == holds(r, k + 1))
    v.ensure('ends exactly when all pieces have been seen', v.iff(done, k + 1 == P))
    # over the whole scan: the pieces of rounds 0..P-1 are all different and all pieces are among them
    a, b, p = v.arb('round_a', P), v.arb('round_b', P), v.arb('piece', P)
    v.ensure('no piece is seen twice', v.implies(a != b, holds(r, a) != holds(r, b)))
    at = S(z3.If(zi(r - p) >= 0, zi(r - p), zi(r - p + P)))
    v.ensure('every piece is seen', v.and_(at >= 0, at < P, holds(r, at) == p))
    v.ensure('starts with its own piece', holds(r, 0) == r)
@proof('C10', ['redrock.templates.DistTemplate.cycle'])
def alone(v):
    T = v.mod('templates'); me = T.DistTemplate.__new__(T.DistTemplate); p = Rec(index=0)
    me._comm, me._comm_rank, me._comm_size, me._piece, me._template, me._dwave = None, 0, 1, p, None, None
    v.ensure('a single process is done at once', v.call(me.cycle) is True and me._piece is p)

# ---------------------------------------------------------------- slices of the redshift range
class Pieces:
    "contract of numpy.array_split of a 1-d array: consecutive pieces from the start to the end"
    def __init__(s, v, a, n, first): s.v, s.a, s.n, s.first = v, a, n, first
    def __getitem__(s, k):
        ctx().check('piece number in range', s.v.and_(k >= 0, k < s.n), kind='safety')
        return s.a[s.first(k):s.first(k + 1)]
    def __len__(s): raise Unsupported('number of pieces')
    def __iter__(s): raise Unsupported('iteration over pieces')
def _slices(v, comm, trans):
    T = v.mod('templates')
    nz, P, r = v.size('nz', lo=1), (v.size('P', lo=1) if comm else 1), (v.int('rank', lo=0) if comm else 0)
    if comm: v.require(v.and_(r < P, P <= nz))
    z = v.array('redshifts', (nz,)); Z = v.frozen(z)
    first = v.function('first', ['i'], 'i')
    v.require(v.and_(first(0) == 0, first(P) == nz, v.all((P,), lambda i: v.and_(first(i) >= 0, first(i) < first(i + 1), first(i + 1) <= nz)))) if comm else v.require(v.and_(first(0) == 0, first(1) == nz))
    nw, nb = v.size('nlambda', lo=1), v.size('nbasis', lo=1)
    grids = {'a': v.array('wave_a', (nw,)), 'b': v.array('wave_b', (nw,))}
    F = {k: v.function('rebinned_' + k, ['r', 'i', 'i']) for k in grids}; TR = {k: v.function('transmission_' + k, ['r', 'i']) for k in grids}
    igm = object(); tpl = Rec(redshifts=z, igm_model=igm, wave=None, flux=None, method='PCA', nbasis=nb)
    asked = []
    def rebin_template(template, myz, dwave, use_gpu=False, **k):
        if not isinstance(myz, SArr) or myz.ndim != 1: raise Unsupported('redshifts of the slice')
        v.ensure('the template itself is rebinned', template is tpl); v.ensure('on its wavelength grids', dwave is grids)
        f = v.frozen(myz); asked.append(myz)
        return {q: SArr.new((myz._shape[0], zi(nw), zi(nb)), (lambda q: lambda i: F[q](f(S(i[0], 'i')), S(i[1], 'i'), S(i[2], 'i')).t)(q), 'r') for q in grids}
    def transmission_Lyman(zObj, lObs, use_gpu=False, model=None, always_return_array=True, **k):
        which = [q for q in grids if grids[q] is lObs]
        if not which or not isinstance(zObj, SArr): raise Unsupported('arguments of the transmission')
        v.ensure('transmission of the model of the template', model is igm)
        if trans is False: return None
        f = v.frozen(zObj); q = which[0]
        return SArr.new((zObj._shape[0], zi(nw)), lambda i: TR[q](f(S(i[0], 'i')), S(i[1], 'i')).t, 'r')
    v.contract('templates', 'rebin_template', rebin_template, keep=True); v.contract('templates', 'transmission_Lyman', transmission_Lyman, keep=True)
    npf.facade.array_split = lambda a, n, axis=0: Pieces(v, a, n, first) if v.c.entails(_b(tb(lift(n == P)[0] if isinstance(n == P, S) else n == P))) else (_ for _ in ()).throw(Unsupported('other number of pieces'))
    cm = None
    if comm:
        class Comm:
            rank, size = r, P
            def Get_rank(s): return r
            def Get_size(s): return P
            def __getattr__(s, n): raise Unsupported('communicator.%s' % n)
        cm = Comm()
    d = v.call(T.DistTemplate, tpl, grids, comm=cm)
    p = d.local; n = first(r + 1) - first(r)
    v.ensure('numbered by the process', p.index == r)
    v.ensure('the redshifts of the slice', p.redshifts.shape[0] == n)
    i, w, b = v.arb('i', n), v.arb('w', nw), v.arb('b', nb); zz = Z(first(r) + i)
    v.ensure('in order', v.el(p.redshifts, i) == zz)
    v.ensure('every grid', set(p.data) == set(grids))
    for q in grids:
        D = p.data[q]
        v.ensure('one row for each redshift', v.and_(D.shape[0] == n, D.shape[1] == nw, D.shape[2] == nb))
        v.ensure('template at its redshift, absorbed', v.el(D, i, w, b) == (F[q](zz, w, b) * TR[q](zz, w) if trans else F[q](zz, w, b)))
_FD = ['redrock.templates.DistTemplate.__init__', 'redrock.templates.DistTemplatePiece.__init__']
@proof('C10', _FD)
def slice_of_process(v): _slices(v, True, True)
@proof('C10', _FD)
def slice_without_absorption(v): _slices(v, True, False)
@proof('C10', _FD)
def slice_single(v): _slices(v, False, True)

# ---------------------------------------------------------------- the scan
def _chi(v, ids, ntemp):
    g = G(); g.X, g.C, g.P, g.t = {}, {}, {}, []
    for k in range(ntemp):
        t = G(); t.nz, t.nb = v.size('nz%d' % k, lo=1), v.size('nbasis%d' % k, lo=1); t.z = v.array('redshifts%d' % k, (t.nz,))
        t.template = Rec(full_type='T%d' % k, redshifts=t.z, nbasis=t.nb)
        g.t.append(t)
        for i in ids:
            g.X[k, i] = v.frozen(v.array('chi2_%d_%d' % (k, i), (t.nz,))); g.C[k, i] = v.frozen(v.array('coeff_%d_%d' % (k, i), (t.nz, t.nb))); g.P[k, i] = v.frozen(v.array('penalty_%d_%d' % (k, i), (t.nz,)))
    return g
def rows(fs, n, *more):
    "array with one row per target"
    def el(i):
        j = i[0]; xs = [lift(f(*[S(q, 'i') if z3.is_expr(q) else q for q in i[1:]]))[0] for f in fs]
        if isinstance(j, int): return xs[j]
        t = xs[-1]
        for q in range(len(xs) - 2, -1, -1): t = z3.If(j == q, xs[q], t)
        return t
    return SArr.new((len(fs), zi(n)) + tuple(zi(m) for m in more), el, 'r')
def _check(v, g, res, ids):
    v.ensure('a result for every target', set(res) == set(ids))
    for i in ids:
        v.ensure('for every template', set(res[i]) == {t.template.full_type for t in g.t})
        for k, t in enumerate(g.t):
            r = res[i][t.template.full_type]; p, b = v.arb('p', t.nz), v.arb('b', t.nb)
            v.ensure('on the whole redshift range', v.and_(r['zchi2'].shape[0] == t.nz, r['zcoeff'].shape[0] == t.nz, r['penalty'].shape[0] == t.nz, r['zcoeff'].shape[1] == t.nb))
            v.ensure('chi2 of the target itself', v.el(r['zchi2'], p) == g.X[k, i](p))
            v.ensure('coefficients of the target itself', v.el(r['zcoeff'], p, b) == g.C[k, i](p, b))
            v.ensure('penalty of the target itself', v.el(r['penalty'], p) == g.P[k, i](p))
            v.ensure('on the redshifts of the template', r['redshifts'] is t.z)

def _cycled(v, P, ntarg=2, ntemp=1):
    "communicating processes (P = 0: a single one): any rank; DistTemplate.cycle by its contract (proof ring)"
    Z = v.mod('zscan'); ids = [17 - 4 * j for j in range(ntarg)]; g = _chi(v, ids, ntemp)
    rank = v.c.choose(P) if P else 0
    comm = Rec(rank=rank, size=P) if P else None
    tgs = [Rec(id=i, _token_=('target', i)) for i in ids]
    dts = []
    for k, t in enumerate(g.t):
        cuts = [0] + [v.int('cut%d_%d' % (k, q)) for q in range(1, max(P, 1))] + [t.nz]
        v.require(v.and_(*[a < b for a, b in zip(cuts, cuts[1:])]))
        class DT:
            def __init__(s, k, t, cuts): s.k, s.template, s.cuts, s.comm, s.at, s.n = k, t.template, cuts, comm, rank, 0
            @property
            def local(s): return Rec(index=s.at, redshifts=s.template.redshifts[s.cuts[s.at]:s.cuts[s.at + 1]])
            def cycle(s):
                if not P: return True
                s.n += 1; v.ensure('the ring is not turned further than once', s.n <= P)
                s.at = (s.at - 1) % P; return s.at == rank
        dts.append(DT(k, t, cuts))
    def calc_zchi2(target_ids, target_data, dt, progress=None, use_gpu=False):
        target_ids, target_data = list(target_ids), list(target_data)
        v.ensure('the data of the targets asked for', len(target_ids) == len(target_data) and all(x.id == i for x, i in zip(target_data, target_ids)))
        a, b = dt.cuts[dt.at], dt.cuts[dt.at + 1]; k = dt.k
        sh = lambda f: (lambda p, *c: f(a + p, *c))
        return tuple(rows([sh(F[k, i]) for i in target_ids], b - a, *m) for F, m in ((g.X, ()), (g.C, (dt.template.nbasis,)), (g.P, ())))
    v.contract('zscan', 'calc_zchi2', calc_zchi2); v.contract('zscan', 'elapsed', lambda *a, **k: 0); v.contract('zscan', 'distribute_targets', lambda t, n: [[x.id for x in t]])
    targets = Rec(comm=comm, local=lambda: list(tgs), local_target_ids=lambda: list(ids))
    _check(v, g, v.call(Z.calc_zchi2_targets, targets, dts), ids)
    for d in dts: v.ensure('the ring is turned completely, for the next use of the template', d.at == rank)
_FZ = ['redrock.zscan.calc_zchi2_targets']
@proof('C10', _FZ)
def scan_single(v): _cycled(v, 0, ntemp=2)
@proof('C10', _FZ)
def scan_ring1(v): _cycled(v, 1)
@proof('C10', _FZ)
def scan_ring2(v): _cycled(v, 2)
@proof('C10', _FZ)
def scan_ring3(v): _cycled(v, 3)
@proof('C10', _FZ)
def scan_ring5(v): _cycled(v, 5, ntarg=1)

def any_distribution(v, ids, n):
    "contract of distribute_targets: every target is given to one process"
    out = [[] for _ in range(n)]
    for i in ids: out[v.c.choose(n)].append(i)
    if v.c.choose(2): out = [o[::-1] for o in out]
    return out
def _workers(v, nproc, ntarg, ntemp=1):
    Z = v.mod('zscan'); w = use_workers(); ids = [40 - 9 * j for j in range(ntarg)]; g = _chi(v, ids, ntemp)
    packed = set()
    tgs = [Rec(id=i, _token_=('target', i), sharedmem_pack=(lambda i: lambda: packed.add(i))(i), sharedmem_unpack=lambda: None) for i in ids]
    dist = any_distribution(v, ids, nproc)
    dts = [Rec(k=k, template=t.template, comm=None, local=Rec(index=0, redshifts=t.z), cycle=lambda: True) for k, t in enumerate(g.t)]
    def calc_zchi2(target_ids, target_data, dt, progress=None, use_gpu=False):
        target_ids, target_data = list(target_ids), list(target_data)
        v.ensure('the data of the targets asked for', len(target_ids) == len(target_data) and all(x.id == i for x, i in zip(target_data, target_ids)))
        if progress is not None:
            for _ in target_ids: progress.put(1)
        return tuple(rows([F[dt.k, i] for i in target_ids], g.t[dt.k].nz, *m) for F, m in ((g.X, ()), (g.C, (g.t[dt.k].nb,)), (g.P, ())))
    v.contract('zscan', 'calc_zchi2', calc_zchi2); v.contract('zscan', 'elapsed', lambda *a, **k: 0)
    def distribute_targets(t, n):
        if n != nproc or [x.id for x in t] != ids: raise Unsupported('distribution of other targets')
        return [list(o) for o in dist]
    v.contract('zscan', 'distribute_targets', distribute_targets)
    targets = Rec(comm=None, local=lambda: list(tgs), local_target_ids=lambda: list(ids))
    _check(v, g, v.call(Z.calc_zchi2_targets, targets, dts, mp_procs=nproc), ids)
_FW = ['redrock.zscan.calc_zchi2_targets', 'redrock.zscan._mp_calc_zchi2']
@proof('C10', _FW)
def scan_workers2(v): _workers(v, 2, 3)
@proof('C10', _FW)
def scan_workers3(v): _workers(v, 3, 3)
@proof('C10', _FW)
def scan_workers_more(v): _workers(v, 4, 2)

# ---------------------------------------------------------------- refinement and collection of the results
from .c07 import Table, tvstack, Column
def _refine(v, nproc, ntarg, ntemp=1, comm=None, stored=False):
    """one candidate for each target and template, so that the table has a fixed shape;
    comm: None (this process and nproc-1 workers), 'root' or 'other' of communicating processes; stored: the scan comes from a file of more targets"""
    v.c.ghost['string widths differ'] = True
    M = v.mod('zfind'); w = use_workers(); ids = [40 - 9 * j for j in range(ntarg)]; g = _chi(v, ids, ntemp)
    K = ('z', 'zerr', 'chi2')
    cand = {(k, i): dict(**{c: v.array('%s_%d_%d' % (c, k, i), (1, 1)) for c in K}, zwarn=v.array('zwarn_%d_%d' % (k, i), (1, 1), 'w'), coeff=v.array('coeff_%d_%d' % (k, i), (1, 2)),
                         zz=v.array('zz_%d_%d' % (k, i), (1, 3)), zzchi2=v.array('zzchi2_%d_%d' % (k, i), (1, 3)), npixels=SArr.const((1, 1), z3.IntVal(1000), 'i'), **{'#template': SArr.const((1, 1), z3.IntVal(k), 'i')}) for k in range(ntemp) for i in ids}
    val = {q: {c: v.frozen(a) for c, a in d.items()} for q, d in cand.items()}
    tgs = [Rec(id=i, meta={'NOTE': 1000 + i}, _token_=('target', i), sharedmem_pack=lambda: None, sharedmem_unpack=lambda: None) for i in ids]
    ts = [Rec(template=Rec(full_type='T%d' % k, template_type='T%d' % k, sub_type='', _rrtype='T%d' % k, redshifts=t.z, nbasis=2, method='PCA', _token_=('template', k))) for k, t in enumerate(g.t)]
    own = ids if comm is None else ids[:1] if comm == 'root' else ids[1:]
    def scan(who): return {i: {t.template.full_type: dict(redshifts=t.template.redshifts, zchi2=v_copy(g.X[k, i], g.t[k].nz), penalty=v_copy(g.P[k, i], g.t[k].nz), zcoeff=v_copy(g.C[k, i], g.t[k].nz, g.t[k].nb)) for k, t in enumerate(ts)} for i in who}
    def v_copy(f, *n): return SArr.new(tuple(zi(x) for x in n), lambda i: lift(f(*[S(q, 'i') if z3.is_expr(q) else q for q in i]))[0], 'r')
    def fitz(zchi2, redshifts, target, template, nminima=3, archetype=None, use_gpu=False, deg_legendre=None, zminfit_npoints=15, per_camera=False, n_nearest=None, prior_sigma=None):
        k = [k for k, t in enumerate(ts) if t.template is template][0]; p = v.arb('p', g.t[k].nz); i = target.id
        v.ensure('the curve of this target and template is refined', v.and_(zchi2.shape[0] == g.t[k].nz, v.el(zchi2, p) == g.X[k, i](p) + g.P[k, i](p)))
        v.ensure('on the redshifts of the template', redshifts is ts[k].template.redshifts)
        v.ensure('the settings reach the fit', v.and_(nminima == 7, zminfit_npoints == 9, archetype is None))
        return dict(cand[k, i])
    dist = any_distribution(v, ids, nproc) if nproc > 1 else [list(own)]
    def none_(*a, **k): v.ensure('a stored scan is not computed again', False); return scan(own)
    v.contract('zfind', 'calc_zchi2_targets', none_ if stored else lambda *a, **k: scan(own), keep=stored); v.contract('zfind', 'fitz', fitz)
    if stored:
        def stored_scan(fn):
            v.ensure('the file that was named is read', fn == 'scan.h5'); d = {-5: {'another': 'target'}}
            d.update(scan(ids[::-1])); d[77] = {'another': 'target'}; return d
        v.contract('zfind', 'read_zscan_redrock', stored_scan)
    v.contract('zfind', 'distribute_targets', lambda t, n: [list(o) for o in dist]); v.contract('zfind', 'elapsed', lambda *a, **k: 0)
    v.contract('zfind', 'sort_zfit_dict', lambda d: None)          # any ranking: what is checked here does not depend on it
    v.contract('zfind', 'calc_deltachi2', lambda chi2, z, zwarn, dvlimit=1000.: (v.array('delta', (chi2.shape[0],)), SArr.const((zi(chi2.shape[0]),), z3.BoolVal(False), 'b')))
    M.astropy = Rec(table=Rec(Table=Table, vstack=tvstack, Column=MetaColumn))
    cm, out = None, []
    if comm == 'root':
        # the other process: what its run of zfind sends (proof fits_other)
        theirs = scan(ids[1:])
        for i in ids[1:]:
            for k, t in enumerate(ts): theirs[i][t.template.full_type]['zfit'] = dict(cand[k, i])
            theirs[i]['meta'] = {'NOTE': 1000 + i}
        items = list(theirs.items()); cut = v.c.choose(len(items) + 1)
        box = [2, dict(items[:cut]), dict(items[cut:])] if 0 < cut < len(items) else [1, dict(items)]
        class Comm:
            rank, size = 0, 2
            def recv(s, source=None, tag=0):
                v.ensure('receives from the other process', source == 1)
                if not box: ctx().check('the process does not wait for a message that never comes', False, kind='safety', assume=False); raise PathEnd('waits for ever')
                return box.pop(0)
            def barrier(s): return None
            def __getattr__(s, n): raise Unsupported('communicator.%s' % n)
        cm = Comm()
    elif comm == 'other':
        class Comm:
            rank, size = 1, 2
            def send(s, x, dest=None, tag=0): v.ensure('sends to the first process', dest == 0); out.append(by_value(x))
            def barrier(s): return None
            def __getattr__(s, n): raise Unsupported('communicator.%s' % n)
        cm = Comm()
    targets = Rec(comm=cm, local=lambda: [t for t in tgs if t.id in own], local_target_ids=lambda: list(own), all_target_ids=list(ids))
    r, zf = v.call(M.zfind, targets, ts, nminima=7, zminfit_npoints=9, **(dict(mp_procs=nproc) if comm is None else {}), **(dict(chi2_scan='scan.h5') if stored else {}))
    if comm == 'other':
        v.ensure('only the first process has the table', r is None and zf is None)
        if not out or not isinstance(out[0], (int, S)): raise Unsupported('messages')
        v.ensure('as many messages as announced', len(out) == 1 + int(out[0]))
        got = {}
        for d in out[1:]:
            v.ensure('no target is sent twice', not set(d) & set(got)); got.update(d)
        v.ensure('every target of the process is sent', set(got) == set(own))
        for i in own:
            v.ensure('its metadata', got[i].get('meta') == {'NOTE': 1000 + i})
            for k, t in enumerate(ts):
                f = got[i][t.template.full_type]
                for c in K: v.ensure('its candidates', v.el(f['zfit'][c], 0, 0) == val[k, i][c](0, 0))
                p = v.arb('p', g.t[k].nz); v.ensure('its scan', v.and_(v.el(f['zchi2'], p) == g.X[k, i](p), v.el(f['penalty'], p) == g.P[k, i](p)))
        return
    v.ensure('all rows', zf['z'].shape[0] == ntarg * ntemp)
    n = ntarg * ntemp; T_ = lambda q: v.el(zf['#template'], q); I_ = lambda q: v.el(zf['targetid'], q)
    for q in range(n):
        v.ensure('each row belongs to a target and template', v.or_(*[v.and_(I_(q) == i, T_(q) == k) for i in ids for k in range(ntemp)]))
        for q2 in range(q): v.ensure('rows of different targets or templates', v.or_(I_(q) != I_(q2), T_(q) != T_(q2)))
        for i in ids:
            for k in range(ntemp):
                own_ = v.and_(I_(q) == i, T_(q) == k)
                for c in K: v.ensure('%s of the target and template' % c, v.implies(own_, v.el(zf[c], q) == val[k, i][c](0, 0)))
                v.ensure('coefficients of the target and template', v.implies(own_, v.and_(*[v.el(zf['coeff'], q, b) == val[k, i]['coeff'](0, b) for b in range(2)])))
                v.ensure('metadata of the target', v.implies(own_, v.el(zf['NOTE'], q) == 1000 + i))
    v.ensure('scan of every target', set(r) >= set(ids) if stored else set(r) == set(ids))
    for i in ids:
        for k, t in enumerate(ts):
            p = v.arb('p', g.t[k].nz); s = r[i][t.template.full_type]
            v.ensure('scan of the target itself', v.and_(v.el(s['zchi2'], p) == g.X[k, i](p), v.el(s['penalty'], p) == g.P[k, i](p)))
class MetaColumn:
    def __new__(cls, data=None, name=None, **k): a = as_arr(data); a.name = name; return a
_FF = ['redrock.zfind.zfind', 'redrock.zfind._mp_fitz']
@proof('C10', _FF[:1])
def fits_single(v): _refine(v, 1, 2, 2)
@proof('C10', _FF)
def fits_workers2(v): _refine(v, 2, 3)
@proof('C10', _FF)
def fits_workers3(v): _refine(v, 3, 2, 2)
@proof('C10', _FF[:1])
def fits_root(v): _refine(v, 1, 4, comm='root')
@proof('C10', _FF[:1])
def fits_other(v): _refine(v, 1, 3, 2, comm='other')

@proof('C10', _FF[:1])
def stored_single(v): _refine(v, 1, 2, 2, stored=True)
@proof('C10', _FF)
def stored_workers(v): _refine(v, 2, 2, stored=True)
@proof('C10', _FF[:1])
def stored_root(v): _refine(v, 1, 3, comm='root', stored=True)
@proof('C10', _FF[:1])
def stored_other(v): _refine(v, 1, 3, comm='other', stored=True)

@proof('C10', _FF[:1])
def batches(v):
    "a process with many targets sends them in batches: announced number, nothing lost, nothing twice"
    M = v.mod('zfind'); n = [1, 4999, 5000, 5001, 9999, 10000, 10001, 15001][v.c.choose(8)]
    res = {k * 3 + 1: {} for k in range(n)}; out = []
    v.contract('zfind', 'calc_zchi2_targets', lambda *a, **k: dict(res)); v.contract('zfind', 'elapsed', lambda *a, **k: 0)
    v.contract('zfind', 'distribute_targets', lambda t, n: [[]])
    class Comm:
        rank, size = 1, 2
        def send(s, x, dest=None, tag=0): v.ensure('sends to the first process', dest == 0); out.append(x)
        def barrier(s): return None
        def __getattr__(s, n): raise Unsupported('communicator.%s' % n)
    t = Rec(template=Rec(full_type='T', template_type='T', sub_type='', _rrtype='T', redshifts=v.array('z', (v.size('nz', lo=1),)), nbasis=2, method='PCA'))
    v.call(M.zfind, Rec(comm=Comm(), local=lambda: [], local_target_ids=lambda: list(res), all_target_ids=list(res)), [t])
    if not out or not isinstance(out[0], (int, S)): raise Unsupported('messages')
    v.ensure('as many messages as announced', len(out) == 1 + int(out[0]))
    keys = [k for d in out[1:] for k in d]
    v.ensure('every target is sent exactly once', keys.__len__() == n and set(keys) == set(res))
