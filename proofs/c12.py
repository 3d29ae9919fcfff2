"""C12: packing spectra into shared memory and back"""
from vc.prove import *
from vc.loader import MPROC
from vc.sparse import Dia, Csr

# ---------------------------------------------------------------- mp_array
def _same_array(v, name, a, shape, F, kind):
    v.ensure(name + ': is an array of the same shape and type', v.and_(isinstance(a, SArr), a.ndim == len(shape), a.kind == kind, *[S(zi(x)) == y for x, y in zip(a._shape, shape)]))
    ix = [v.arb('e', d) for d in shape]
    v.ensure(name + ': equal values', v.el(a, *ix) == F(*ix))
@proof('C12', ['redrock.utils.mp_array'])
def shared_array(v):
    n, m = v.size('n', lo=0), v.size('m', lo=0)
    for tag, sh, kind in (('f1', (n,), 'r'), ('i1', (n,), 'i'), ('f2', (n, m), 'r'), ('i2', (n, m), 'i')):
        a = v.array('a' + tag, sh, kind); F = v.frozen(a)
        r = v.call(v.mod('utils').mp_array, a)
        _same_array(v, 'shared array', r, sh, F, kind)
        ix = [v.arb('e', d) for d in sh]
        v.ensure('the original array is not changed', v.el(a, *ix) == F(*ix))

# ---------------------------------------------------------------- spectra
class G: pass
def _contract(v):
    def mp_array(a): return SArr.new(a._shape, a.frozen(), a.kind)
    v.contract('targets', 'mp_array', mp_array, keep=True)

def _build(v, csr, band):
    g = G(); n = g.n = v.size('n', lo=4); nd, no, nz = v.size('ndiag', lo=1), v.size('noff', lo=0), v.size('nnz', lo=0)
    T = v.mod('targets'); _contract(v)
    # the data matrix of dia_matrix may have any width; redrock's has one column per pixel
    data, off = v.array('rdata', (nd, n)), v.array('roff', (nd,), 'i')
    R = Dia((data, off), (zi(n), zi(n)))
    C = None
    if csr: C = Csr((v.array('cdata', (nz,)), v.array('cind', (nz,), 'i'), v.array('cptr', (n + 1,), 'i')), (zi(n), zi(n)))
    w, f, iv = v.array('wave', (n,)), v.array('flux', (n,)), v.array('ivar', (n,))
    s = v.call(T.Spectrum, w, f, iv, R, Rcsr=C, band=band)
    g.F = {k: v.frozen(getattr(s, k)) for k in ('wave', 'flux', 'ivar')}
    g.R = (v.frozen(data), v.frozen(off), nd)
    g.C = None if C is None else (v.frozen(C.data), v.frozen(C.indices), v.frozen(C.indptr), nz)
    g.hash, g.band, g.s, g.csr = s.wavehash, s.band, s, csr
    return g

def _vec(v, name, a, n, F): v.ensure(name, v.and_(isinstance(a, SArr), a.ndim == 1, S(zi(a._shape[0])) == n)); i = v.arb('i', n); v.ensure(name, v.el(a, i) == F(i))
def _dia(v, g, R, name):
    n = g.n; D, O, nd = g.R
    v.ensure(name, v.and_(isinstance(R, Dia), R.data.ndim == 2, S(zi(R.data._shape[0])) == nd, S(zi(R.data._shape[1])) == n, S(zi(R.offsets._shape[0])) == nd, S(zi(R._sh[0])) == n, S(zi(R._sh[1])) == n))
    i, j = v.arb('i', nd), v.arb('j', n)
    v.ensure(name, v.and_(v.el(R.data, i, j) == D(i, j), v.el(R.offsets, i) == O(i)))
def _csr(v, g, C, name):
    if not g.csr:       # derived from the diagonals
        src = getattr(C, 'source', None)
        if src is None:     # rebuilt from the arrays of one that was
            for d, i, p, s in v.c.ghost.get('csr', []):
                pass
            v.ensure(name, isinstance(C, Csr))
            for d, i, p, s in v.c.ghost.get('csr', [])[:1]:
                _arrays(v, name, C, v.frozen(d), v.frozen(i), v.frozen(p), S(zi(d._shape[0])), g.n); _dia(v, g, s, name)
            return
        _dia(v, g, src, name); return
    D, I_, P, nz = g.C
    v.ensure(name, isinstance(C, Csr)); _arrays(v, name, C, D, I_, P, nz, g.n)
def _arrays(v, name, C, D, I_, P, nz, n):
    v.ensure(name, v.and_(S(zi(C.data._shape[0])) == nz, S(zi(C.indices._shape[0])) == nz, S(zi(C.indptr._shape[0])) == n + 1, S(zi(C._sh[0])) == n, S(zi(C._sh[1])) == n))
    k, q = v.arb('k', nz), v.arb('q', n + 1)
    v.ensure(name, v.and_(v.el(C.data, k) == D(k), v.el(C.indices, k) == I_(k), v.el(C.indptr, q) == P(q)))
def _always(v, g, s):
    "what holds in every state"
    for k, nm in (('wave', 'wavelengths'), ('flux', 'fluxes'), ('ivar', 'weights')): _vec(v, nm + ' equal the originals', getattr(s, k), g.n, g.F[k])
    v.ensure('the spectrum stays in its group', s.wavehash is g.hash and s.band is g.band)
def _unpacked(v, g, s, used=False):
    _always(v, g, s)
    _dia(v, g, s.R, 'the diagonal resolution equals the original')
    if g.csr or used: _csr(v, g, s._Rcsr, 'the row-compressed resolution equals the original')
    else: v.ensure('no row-compressed resolution before its first use', s._Rcsr is None)
def _steps(v, csr, use_first, band='b'):
    """one object through the states.  An unpacked object is characterised by its content; packing any
    unpacked object and unpacking again gives an unpacked object, and the attributes left behind do not
    grow after the second round, so every history stays within the states visited here."""
    g = _build(v, csr, band); s = g.s; T = v.mod('targets'); used = False
    _unpacked(v, g, s)
    def use():
        with program(): r = s.Rcsr
        return r
    for rnd in range(3):
        v.call(s.sharedmem_unpack); _unpacked(v, g, s, used)
        if use_first or rnd == 1:
            _csr(v, g, v.call(use), 'the resolution in use equals the original'); used = True
            _csr(v, g, v.call(use), 'the resolution in use equals the original'); _unpacked(v, g, s, used)
        v.call(s.sharedmem_pack); _always(v, g, s)
        before = dict(s.__dict__); v.call(s.sharedmem_pack)
        v.ensure('packing twice changes nothing', set(before) == set(s.__dict__) and all(before[k] is s.__dict__[k] for k in before))
        if rnd == 2:        # use while packed
            _csr(v, g, v.call(use), 'the resolution in use equals the original'); used = True
        else: v.call(s.sharedmem_unpack)
        _unpacked(v, g, s, used)
        after = dict(s.__dict__); v.call(s.sharedmem_unpack)
        v.ensure('unpacking twice changes nothing', set(after) == set(s.__dict__) and all(after[k] is s.__dict__[k] for k in after))
        if rnd == 1: keys = set(after)
        if rnd == 2: v.ensure('no further attributes after the second round', set(after) == keys)
_F = ['redrock.targets.Spectrum.sharedmem_pack', 'redrock.targets.Spectrum.sharedmem_unpack', 'redrock.targets.Spectrum.Rcsr']
@proof('C12', _F)
def spectrum(v): _steps(v, False, False)
@proof('C12', _F)
def spectrum_used(v): _steps(v, False, True)
@proof('C12', _F)
def spectrum_csr(v): _steps(v, True, False)
@proof('C12', _F)
def spectrum_csr_used(v): _steps(v, True, True)
@proof('C12', _F)
def spectrum_no_camera(v): _steps(v, True, False, None)

@proof('C12', ['redrock.targets.Target.sharedmem_pack', 'redrock.targets.Target.sharedmem_unpack'])
def target(v):
    class Sp:
        wavehash = band = 'b'
        def __init__(s): s.log = []
        def sharedmem_pack(s): s.log.append('p')
        def sharedmem_unpack(s): s.log.append('u')
    for k in range(4):
        sps = [Sp() for _ in range(k)]; t = v.call(v.mod('targets').Target, 7, sps)
        v.call(t.sharedmem_pack); v.ensure('every spectrum is packed once', all(s.log == ['p'] for s in sps))
        v.call(t.sharedmem_unpack); v.ensure('every spectrum is unpacked once', all(s.log == ['p', 'u'] for s in sps) and t.spectra == sps)
