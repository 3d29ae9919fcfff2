"""C12: packing spectra into shared memory"""
from .base import *
from .build import *
from .oracle import *
import scipy.sparse

DT = ['f8', 'f4']
def gen_hist(rng, k):
    n = int([0, 1, 2, 5, 5, 17, 40][k % 7]) if k % 3 else int(rng.integers(4, 60))
    n = max(n, 4) if k % 4 else n
    R = resolution(rng, n, ndiag=int(rng.choice([1, 3, 5]))) if n else scipy.sparse.dia_matrix((np.zeros((1, 0)), [0]), shape=(0, 0)) if False else None
    if R is not None:
        if rng.random() < .3: R = scipy.sparse.dia_matrix((R.data.astype(rng.choice(DT)), R.offsets), shape=R.shape)
    dt = [str(rng.choice(DT)) for _ in range(3)]
    ops = [str(o) for o in rng.choice(['pack', 'unpack', 'use', 'look', 'share'], size=int(rng.integers(1, 9)))]
    return dict(n=n, wave=3600. + np.arange(n), flux=rng.normal(size=n) * 10 ** rng.uniform(-5, 5), ivar=np.where(rng.random(n) < .2, 0, rng.uniform(.1, 5, size=n)),
                dt=dt, R=R, csr=bool(rng.random() < .5), ops=ops, band=[None, 'b'][k % 2], target=bool(rng.random() < .5), nan=bool(rng.random() < .2),
                layout=str(rng.choice(['C', 'C', 'F', 'strided', 'reversed'])))

def _child(t, q):
    for s in t.spectra: s.sharedmem_unpack()

@contract('C12', ['targets.Spectrum.sharedmem_pack', 'targets.Spectrum.sharedmem_unpack', 'targets.Spectrum.Rcsr', 'targets.Target.sharedmem_pack',
                  'targets.Target.sharedmem_unpack', 'utils.mp_array'], gen_hist, quick=400, thorough=12000)
def pack_unpack(inp, req):
    from redrock.targets import Spectrum, Target
    from redrock.utils import mp_array
    n = inp['n']
    if n < 4 or inp['R'] is None:
        for dt in DT + ['i8', 'i4']:
            a = np.array(inp['flux']).astype(dt)
            m = mp_array(a)
            req(same(m, a) and m.dtype == a.dtype and m.shape == a.shape, 'a shared array equals the original', (dt, n))
        a2 = np.arange(6 * max(n, 1)).reshape(2, 3, -1)[:, ::-1].astype('f8'); m = mp_array(a2)
        req(same(m, a2) and m.dtype == a2.dtype, 'a shared array equals the original')
        if n < 4: return
    fl = inp['flux'].copy()
    if inp['nan']: fl[0] = np.nan; fl[1] = np.inf
    R = inp['R'].copy()
    w, f, iv = (np.array(a).astype(d) for a, d in zip((inp['wave'], fl, inp['ivar']), inp['dt']))
    def lay(a, how):
        "the same values in another memory layout"
        if how == 'F': return np.asfortranarray(a)
        if how == 'strided': b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), a.dtype); b[..., ::2] = a; return b[..., ::2]
        if how == 'reversed': return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
        return a
    how = inp.get('layout', 'C'); w, f, iv = lay(w, how), lay(f, how), lay(iv, how)
    R = scipy.sparse.dia_matrix((lay(R.data, how), R.offsets), shape=R.shape)
    m = mp_array(lay(inp['flux'][:n // 2 * 2].reshape(2, -1), how)); req(same(m, inp['flux'][:n // 2 * 2].reshape(2, -1)), 'a shared array equals the original', how)
    csr = R.tocsr() if inp['csr'] else None
    if csr is not None and n > 6: csr = csr.tolil()[:, :].tocsr()
    s = Spectrum(w, f, iv, R, Rcsr=csr, band=inp['band'])
    orig = (s.wave.copy(), s.flux.copy(), s.ivar.copy(), s.R.data.copy(), s.R.offsets.copy(), s.R.shape, s.wavehash, dense(s.R).copy())
    oc = None if csr is None else (csr.data.copy(), csr.indices.copy(), csr.indptr.copy(), csr.shape)
    obj = Target(1, [s]) if inp['target'] else s
    packed = False
    def check(where):
        req(same(s.wave, orig[0]) and s.wave.dtype == orig[0].dtype, 'wavelength is preserved', where)
        req(same(s.flux, orig[1]) and s.flux.dtype == orig[1].dtype, 'flux is preserved', where)
        req(same(s.ivar, orig[2]) and s.ivar.dtype == orig[2].dtype, 'weights are preserved', where)
    def check_R(where):
        req(same(np.asarray(s.R.data), orig[3]) and same(np.asarray(s.R.offsets), orig[4]) and s.R.shape == orig[5] and s.R.data.dtype == orig[3].dtype, 'diagonal resolution is preserved', where)
        if oc is not None:
            c = s._Rcsr
            req(c is not None and c.shape == oc[3] and same(c.data, oc[0]) and same(c.indices, oc[1]) and same(c.indptr, oc[2]), 'row-compressed resolution is preserved', where)
    for i, o in enumerate(inp['ops']):
        where = 'after %r' % (inp['ops'][:i + 1],)
        if o == 'pack': obj.sharedmem_pack(); packed = True
        elif o == 'unpack': obj.sharedmem_unpack(); packed = False
        elif o == 'use':
            c = s.Rcsr; packed = False
            req(close(dense(c), orig[7], rtol=0, atol=0), 'the resolution in use equals the original', where)
        elif o == 'share' and packed and inp.get('fork', True):
            # what a worker process sees: an unpickled/forked copy of the packed object
            import copy
            c = copy.copy(s); c.sharedmem_unpack()
            req(same(c.flux, orig[1]) and close(dense(c.R), orig[7], 0, 0), 'a worker unpacking its copy sees the originals', where)
        check(where)
        if not packed: check_R(where)
    obj.sharedmem_unpack(); check('at the end'); check_R('at the end')
    req(close(dense(s.Rcsr), orig[7], 0, 0), 'the resolution in use equals the original', 'end')
    req(s.wavehash == orig[6], 'the grid stays the same group')
