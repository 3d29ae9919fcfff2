"""C16: pixels of untrustworthy resolution rows carry no weight"""
from vc.prove import *
from vc.sparse import SymSparse
from vc.sums import SumOf

def _build(v, n, tag='', **kw):
    w, f, iv = v.array('wave' + tag, (n,)), v.array('flux' + tag, (n,)), v.array('ivar' + tag, (n,))
    return w, f, iv

def _spectrum(v, band, withR):
    n = v.size('n', lo=4)
    w, f, iv = _build(v, n)
    W, F, IV = v.frozen(w), v.frozen(f), v.frozen(iv)
    nd = v.size('ndiag', lo=1)
    R = v.sparse('R', n) if withR else None
    if R is not None: R.data = v.array('Rdata', (nd, n))
    sp = v.call(v.mod('targets').Spectrum, w, f, iv, R, band=band)
    i = v.arb('i', n)
    v.ensure('wavelengths are unchanged', v.and_(len(sp.wave._shape) == 1, sp.wave.shape[0] == n, v.el(sp.wave, i) == W(i)))
    v.ensure('fluxes are unchanged', v.and_(sp.flux.shape[0] == n, v.el(sp.flux, i) == F(i)))
    v.ensure('number of pixels', sp.nwave == n)
    if withR:
        v.ensure('the resolution is kept', sp.R is R)
        j = v.arb('j', n)
        row = v.sum(n, lambda q: R.at(i, q))
        limit = 0.99
        v.ensure('an untrustworthy pixel gets zero weight', v.implies(row < limit, v.el(sp.ivar, i) == 0))
        v.ensure('a trustworthy pixel keeps its weight', v.implies(v.not_(row < limit), v.el(sp.ivar, i) == IV(i)))
    else:
        v.ensure('without resolution every pixel keeps its weight', v.el(sp.ivar, i) == IV(i))
    if band is not None: v.ensure('grouped by camera', sp.wavehash == band)
    return sp, n, W, R, nd

@proof('C16', ['redrock.targets.Spectrum.__init__'])
def spectrum_camera(v): _spectrum(v, 'b', True)
@proof('C16', ['redrock.targets.Spectrum.__init__'])
def spectrum_plain(v): _spectrum(v, None, True)
@proof('C16', ['redrock.targets.Spectrum.__init__'])
def spectrum_no_resolution(v): _spectrum(v, None, False)

@proof('C16', ['redrock.targets.Spectrum.__init__'])
def same_grid_same_group(v):
    n = v.size('n', lo=4); nd = v.size('ndiag', lo=1)
    hs = []
    w = v.array('wave', (n,))
    for k in (0, 1):
        R = v.sparse('R%d' % k, n); R.data = v.array('Rdata%d' % k, (nd, n))
        sp = v.call(v.mod('targets').Spectrum, w.copy(), v.array('flux%d' % k, (n,)), v.array('ivar%d' % k, (n,)), R)
        hs.append(sp.wavehash)
    v.ensure('spectra with the same grid are one group', hs[0] == hs[1])
