"""C10: independence of the number of processes"""
from .base import *
from .build import *
from .survey import *
from .fakecomm import run_ranks
from redrock import zscan, zfind, targets, templates
import time

def gen_mp(rng, k):
    d = gen_survey(rng, k, ntarget=int(rng.integers(1, 7)), masks=False)
    d['templates'] = d['templates'][:2]
    d['mp'] = [2, 3, 4, 1, 8][k % 5]; d['seed'] = int(rng.integers(0, 1000))
    for t in d['targets']: t['spectra'] = t['spectra'][:int(rng.integers(1, len(t['spectra']) + 1))]
    for t in d['targets']:
        if rng.random() < .5:
            for s in t['spectra']: s['flux'] = -np.asarray(s['flux'])      # so that the penalty is not always zero
    return d

def alone(inp):
    "chi2 of every target computed by itself from its own spectra"
    out = {}
    for td in inp['targets']:
        one = dict(inp, targets=[td])
        dt, ts = build_survey(one)
        # the grids of all targets, as in the joint run
        tg = dt.local()[0]
        out[td['id']] = {t.template.full_type: [a[0] for a in zscan.calc_zchi2([tg.id], [tg], t)] for t in ts}
    return out

def compare(req, res, want, ids, label=''):
    req(set(res) == set(ids), label + 'a result for every target', (set(res), ids))
    for i in ids:
        if i not in res: continue
        req(set(res[i]) == set(want[i]), label + 'a result for every template')
        for ft in want[i]:
            for key, w in zip(('zchi2', 'zcoeff', 'penalty'), want[i][ft]):
                req(same(res[i][ft][key], w) or close(res[i][ft][key], w, 1e-9, 1e-9), label + '%s of the target itself' % key, (i, ft))

class Delayed:
    "workers finish in an order of our choosing"
    def __init__(self, f, seed): self.f, self.seed = f, seed
    def __call__(self, ids, *a, **k):
        if len(ids): time.sleep(.02 * (hash((int(ids[0]), self.seed)) % 5))
        return self.f(ids, *a, **k)

def with_limit(f, seconds):
    import signal
    class Never(BaseException): pass
    def h(*a): raise Never()
    old = signal.signal(signal.SIGALRM, h); signal.alarm(seconds)
    try: return f(), True
    except Never: return None, False
    finally: signal.alarm(0); signal.signal(signal.SIGALRM, old)

@contract('C10', ['redrock.zscan.calc_zchi2_targets', 'redrock.zscan._mp_calc_zchi2', 'redrock.targets.DistTargetsCopy'], gen_mp, quick=60, thorough=800, seconds=70)
def workers(inp, req):
    want = alone(inp); dt, ts = build_survey(inp)
    orig = zscan.calc_zchi2
    zscan.calc_zchi2 = Delayed(orig, inp['seed'])
    try: res, ok = with_limit(lambda: zscan.calc_zchi2_targets(dt, ts, mp_procs=inp['mp']), 60)
    finally: zscan.calc_zchi2 = orig
    if not req(ok, 'the scan ends'): return
    compare(req, res, want, [t['id'] for t in inp['targets']])
    for t in ts:
        for i in res: req(same(res[i][t.template.full_type]['redshifts'], t.template.redshifts), 'the redshifts of the template')

def frame_equal(req, a, b, ids, label):
    for i in ids:
        x, y = a[a['targetid'] == i], b[b['targetid'] == i]
        if not req(len(x) == len(y), label + 'same candidates'): continue
        for c in y.colnames:
            u, v = np.asarray(x[c]), np.asarray(y[c])
            req(same(u, v) or (u.dtype.kind == 'f' and close(u, v, 1e-9, 1e-9)), label + 'same column %s' % c, (i, u, v))

@contract('C10', ['redrock.zfind.zfind', 'redrock.zfind._mp_fitz', 'redrock.zscan.calc_zchi2_targets'], gen_mp, quick=18, thorough=250, seconds=70)
def whole_run(inp, req):
    ids = [t['id'] for t in inp['targets']]
    dt, ts = build_survey(inp); r1, z1 = zfind.zfind(dt, ts, nminima=inp['nminima'])
    dt, ts = build_survey(inp)
    r, ok = with_limit(lambda: zfind.zfind(dt, ts, nminima=inp['nminima'], mp_procs=max(2, inp['mp'])), 100)
    if not req(ok, 'the run ends'): return
    r2, z2 = r
    req(set(z2['targetid']) == set(ids), 'every target listed'); frame_equal(req, z2, z1, ids, '')

def gen_mpi(rng, k):
    d = gen_mp(rng, k); d['size'] = [1, 2, 3, 4, 5, 7][k % 6]
    for t in d['templates']:
        n = int(rng.integers(max(d['size'], 5), 18)); zs = np.asarray(t['redshifts']); t['redshifts'] = np.linspace(zs[0], zs[-1], n)
    return d

@contract('C10', ['redrock.templates.DistTemplate.cycle', 'redrock.templates.DistTemplate.__init__', 'redrock.targets.DistTargetsCopy.__init__', 'redrock.zscan.calc_zchi2_targets'], gen_mpi, quick=60, thorough=800, seconds=60)
def ranks(inp, req):
    want = alone(inp); ids = [t['id'] for t in inp['targets']]
    def body(comm):
        from redrock.targets import DistTargetsCopy
        dt = DistTargetsCopy([make_target(d) for d in inp['targets']], comm=comm)
        dw = dt.wavegrids(); ts = [templates.DistTemplate(make_t(t), dw, comm=comm) for t in inp['templates']]
        first = [(np.array(t.local.redshifts), t.local.index) for t in ts]
        return dt.local_target_ids(), dt.all_target_ids, zscan.calc_zchi2_targets(dt, ts), first, [t.local.index for t in ts]
    out, w = run_ranks(inp['size'], body, np.random.default_rng(inp['seed']))
    mine = [i for o in out for i in o[0]]
    req(sorted(mine) == sorted(ids), 'every target on exactly one process', mine)
    res = {}
    for r, o in enumerate(out):
        req(set(o[2]) == set(o[0]), 'results for the local targets'); res.update(o[2])
        req(list(o[1]) == ids, 'every process knows all targets')
        req(o[4] == [r] * len(o[4]), 'every slice is back at its own process in the end', o[4])
    for q, t in enumerate(inp['templates']):
        z = np.concatenate([o[3][q][0] for o in sorted(out, key=lambda o: o[3][q][1])])
        req(same(z, t['redshifts']), 'slices cover the redshifts without gap or overlap', z)
    compare(req, res, want, ids)

def make_t(t):
    from redrock.templates import Template
    return Template(spectype=t['spectype'], redshifts=np.array(t['redshifts'], float), wave=np.array(t['wave'], float), flux=np.array(t['flux'], float),
                    subtype=t['subtype'], method=t['method'], igm_model=t['igm'], version='0')

def gen_cycle(rng, k):
    size = k % 7 + 1
    n = int(rng.integers(size, size * 3 + 2))
    return dict(size=size, zs=np.linspace(.1, .5, n), seed=k)

@contract('C10', ['redrock.templates.DistTemplate.cycle'], gen_cycle, quick=60, thorough=600)
def cycle(inp, req):
    t = template_spec(np.random.default_rng(inp['seed']), zs=inp['zs'], n=60)
    dw = dict(a=np.linspace(4000, 4300, 8))
    whole = quiet(templates.DistTemplate, make_t(t), dw)
    req(whole.cycle() is True or whole.cycle(), 'a single process is done at once')
    def body(comm):
        d = templates.DistTemplate(make_t(t), dw, comm=comm); seen = []
        for _ in range(3 * inp['size'] + 3):
            seen.append((d.local.index, np.array(d.local.redshifts), np.array(d.local.data['a'])))
            if d.cycle(): break
        return seen
    out, _ = run_ranks(inp['size'], body, np.random.default_rng(inp['seed']))
    for s in out:
        req(sorted(x[0] for x in s) == list(range(inp['size'])), 'every slice exactly once', [x[0] for x in s])
        s = sorted(s, key=lambda x: x[0])
        req(same(np.concatenate([x[1] for x in s]), inp['zs']), 'slices in index order give the redshifts')
        req(close(np.concatenate([x[2] for x in s]), whole.local.data['a'], 1e-12, 1e-12), 'and the rebinned template of a single process')

@contract('C10', ['redrock.zfind.zfind'], gen_mpi, quick=20, thorough=250, seconds=60)
def whole_run_ranks(inp, req):
    ids = [t['id'] for t in inp['targets']]
    dt, ts = build_survey(inp); r1, z1 = zfind.zfind(dt, ts, nminima=inp['nminima'])
    def body(comm):
        from redrock.targets import DistTargetsCopy
        dt = DistTargetsCopy([make_target(d) for d in inp['targets']], comm=comm)
        dw = dt.wavegrids(); ts = [templates.DistTemplate(make_t(t), dw, comm=comm) for t in inp['templates']]
        return zfind.zfind(dt, ts, nminima=inp['nminima'])
    out, _ = run_ranks(inp['size'], body)
    req(all(o == (None, None) for o in out[1:]), 'only rank 0 returns results')
    req(set(out[0][0]) == set(ids), 'scan results of every target'); req(list(dict.fromkeys(out[0][1]['targetid'])) == ids, 'targets in the order they were given')
    frame_equal(req, out[0][1], z1, ids, '')
from_model = {}

def gen_stored(rng, k):
    d = gen_mp(rng, k); ids = [t['id'] for t in d['targets']]; d['size'] = [0, 1, 2, 3][k % 4]
    d['keep'] = [int(i) for i in rng.permutation(ids)[:int(rng.integers(max(1, d['size'] if len(ids) >= d['size'] else 1), len(ids) + 1))]]
    return d
@contract('C10', ['redrock.zfind.zfind', 'redrock.results.read_zscan_redrock'], gen_stored, quick=16, thorough=250, seconds=60)
def stored_scan(inp, req):
    "a run that takes its scan from the details file of an earlier run of all targets"
    import os, tempfile, shutil
    from redrock.results import write_zscan
    from redrock.fitz import find_minima
    from redrock.targets import DistTargetsCopy
    d = tempfile.mkdtemp(prefix='vc_c10_')
    try:
        dt, ts = build_survey(inp); r1, z1 = zfind.zfind(dt, ts, nminima=inp['nminima']); f = d + '/scan.h5'; write_zscan(f, r1, z1)
        some = dict(inp, targets=[t for t in inp['targets'] if t['id'] in inp['keep']]); ids = [t['id'] for t in some['targets']]
        if inp['size'] < 2:
            dt, ts = build_survey(some); (r2, z2), ok = with_limit(lambda: zfind.zfind(dt, ts, nminima=inp['nminima'], mp_procs=1 + 2 * inp['size'], chi2_scan=f), 60)
        else:
            def body(comm):
                dt = DistTargetsCopy([make_target(t) for t in some['targets']], comm=comm); ts = [templates.DistTemplate(make_t(t), dt.wavegrids(), comm=comm) for t in inp['templates']]
                return zfind.zfind(dt, ts, nminima=inp['nminima'], chi2_scan=f)
            out, _ = run_ranks(inp['size'], body, np.random.default_rng(inp['seed'])); r2, z2 = out[0]
        req(set(z2['targetid']) == set(ids), 'every target listed'); req(set(ids) <= set(r2), 'details of the targets of this run', (sorted(r2), ids))
        for i in ids:
            for ft in r1[i]:
                for k in ('zchi2', 'zcoeff', 'penalty'): req(same(r2[i][ft][k], np.asarray(r1[i][ft][k]).astype('f4')), 'stored scan: %s of the target itself' % k, (i, ft))
                req(same(r2[i][ft]['redshifts'], r1[i][ft]['redshifts']), 'stored scan: redshifts')
        # the file has single precision: compare with a run whose own scan has just these values
        dt, ts = build_survey(some); stored = {i: {ft: {k: np.asarray(x).astype('f4') if k != 'redshifts' else x for k, x in r1[i][ft].items() if k in ('zchi2', 'zcoeff', 'penalty', 'redshifts')} for ft in sorted(r1[i])} for i in ids}       # in the order of the file, which decides ties
        if hasattr(zfind, 'calc_zchi2_targets'):
            own = zfind.calc_zchi2_targets
            try: zfind.calc_zchi2_targets = lambda *a, **k: stored; _, z3 = zfind.zfind(dt, ts, nminima=inp['nminima'])
            finally: zfind.calc_zchi2_targets = own
            frame_equal(req, z2, z3, ids, 'stored scan: ')
    finally: shutil.rmtree(d, ignore_errors=True)
