"""C16: untrustworthy pixels and grouping"""
from .base import *
from .build import *
from .oracle import *

def gen(rng, k):
    n = int(rng.integers(4, 40)); nd = int(rng.choice([1, 3, 5, 7]))
    A = rng.uniform(0, 1, size=(nd, n)); offs = np.arange(nd // 2, -(nd // 2) - 1, -1)
    import scipy.sparse
    R = scipy.sparse.dia_matrix((A, offs), shape=(n, n)); D = R.toarray(); D /= D.sum(1, keepdims=True)
    tgt = rng.choice([1., .99, .9899999, .9900001, .5, 0., 1.02, .98, .995], size=n); tgt[rng.random(n) < .4] = 1.
    if k % 5 == 0: tgt[:] = 1.
    D *= tgt[:, None]
    if k % 6 == 2: D[int(rng.integers(0, n))] *= -1
    data = np.zeros((nd, n))
    for q, o in enumerate(offs):
        for i in range(n):
            j = i + o
            if 0 <= j < n: data[q, j] = D[i, j]
    R = scipy.sparse.dia_matrix((data, offs), shape=(n, n))
    iv = rng.uniform(.1, 5, size=n); iv[rng.random(n) < .2] = 0
    step = 10 ** rng.uniform(-1, 1)
    return dict(wave=3600 + np.arange(n) * step, flux=rng.normal(size=n) * 10, ivar=iv, R=R, band=[None, 'b', 'r'][k % 3], csr=bool(rng.random() < .3), noR=bool(k % 17 == 3), shift=int(rng.integers(0, 6)), nd=nd)

@contract('C16', ['targets.Spectrum.__init__'], gen, quick=500, thorough=20000)
def build(inp, req):
    from redrock.targets import Spectrum
    w, f, iv = inp['wave'].copy(), inp['flux'].copy(), inp['ivar'].copy(); R = None if inp['noR'] else inp['R'].copy()
    n = len(w)
    s = Spectrum(w, f, iv, R, Rcsr=R.tocsr() if (inp['csr'] and R is not None) else None, band=inp['band'])
    req(same(s.wave, inp['wave']) and same(s.flux, inp['flux']) and same(w, inp['wave']) and same(f, inp['flux']), 'wavelengths and fluxes are unchanged')
    req(s.nwave == n, 'number of pixels')
    if R is None: req(same(s.ivar, inp['ivar']), 'without resolution every pixel keeps its weight')
    else:
        req(close(dense(s.R), dense(inp['R']), 0, 0), 'resolution is unchanged')
        rs = dense(inp['R']).sum(1)
        for j in range(n):
            if rs[j] < .99 - 1e-12: req(s.ivar[j] == 0, 'untrustworthy pixels get zero weight', (j, rs[j], s.ivar[j]))
            elif rs[j] > .99 + 1e-12: req(s.ivar[j] == inp['ivar'][j], 'trustworthy pixels keep their weight', (j, rs[j], s.ivar[j]))
            else: req(s.ivar[j] in (0, inp['ivar'][j]), 'no other weights', j)
    # grouping
    mk = lambda ww, band=None, RR=R: Spectrum(np.array(ww), inp['flux'].copy()[:len(ww)], inp['ivar'].copy()[:len(ww)], RR, band=band).wavehash
    req(mk(inp['wave'], inp['band']) == s.wavehash, 'spectra with the same grid are one group')
    if inp['band'] is not None:
        req(mk(inp['wave'] + 1, inp['band']) == s.wavehash, 'named cameras are one group')
        req(mk(inp['wave'], inp['band'] + 'x') != s.wavehash, 'different cameras are different groups')
    else:
        d = inp['wave'].copy()
        k = inp['shift']
        if k == 0: d = d + .5
        elif k == 1: d[0] -= .01
        elif k == 2: d[-1] += .01
        elif k == 3: d[1] += .01
        elif k == 4: d[-2] -= .01
        else: d = d * 1.001
        req(mk(d) != s.wavehash, 'different grids are different groups', k)
        if R is None and n > 5: req(mk(np.concatenate((d[:2], d[3:]))) != mk(d), 'grids of different length are different groups')

def gen_groups(rng, k):
    n = int(rng.integers(2, 7)); grids = [np.linspace(3600 + 700 * g, 4000 + 700 * g, int(rng.integers(6, 14))) for g in range(3)]
    named = bool(k % 2); sp = []
    for i in range(n):
        g = int(rng.integers(0, 3)); w = grids[g]; d = spectrum_data(rng, w, rng.normal(size=len(w)), band='zbr'[g] if named else None, ndiag=3); d['g'] = g; sp.append(d)
    return dict(sp=sp)
@contract('C16', ['targets.Target.__init__', 'targets.DistTargets.wavegrids', 'targets.Spectrum.__init__'], gen_groups, quick=200, thorough=5000)
def groups(inp, req):
    from redrock.targets import DistTargetsCopy
    tg = make_target(dict(id=1, spectra=inp['sp'])); sp = inp['sp']
    for i, a in enumerate(tg.spectra):
        for j, b in enumerate(tg.spectra): req((a.wavehash == b.wavehash) == (sp[i]['g'] == sp[j]['g']), 'spectra are grouped by grid')
    first = list(dict.fromkeys(d['g'] for d in sp)); band = {d['g']: d['band'] for d in sp}
    req(tg.bands == [band[g] for g in first], 'one band per grid in order of first appearance', tg.bands)
    wg = DistTargetsCopy([tg]).wavegrids()
    req(len(wg) == len(first) and all(same(wg[a.wavehash], d['wave']) for a, d in zip(tg.spectra, sp)), 'wavelength grids of all groups')
