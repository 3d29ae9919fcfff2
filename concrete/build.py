"""Small synthetic templates, spectra and targets"""
import os, io, contextlib
import numpy as np, scipy.sparse

def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)

def resolution(rng, n, ndiag=None, identity=False, bad_rows=()):
    if identity:
        return scipy.sparse.dia_matrix((np.ones((1, n)), [0]), shape=(n, n))
    nd = ndiag or int(rng.integers(1, 3)) * 2 + 1
    half = nd // 2
    offs = np.arange(half, -half - 1, -1)
    data = np.zeros((nd, n))
    A = np.zeros((n, n))
    for k, o in enumerate(offs):
        for i in range(n):
            j = i + o
            if 0 <= j < n: A[i, j] = rng.uniform(.1, 1) * (3 if o == 0 else 1)
    A /= A.sum(axis=1, keepdims=True)
    for r in bad_rows: A[r] *= rng.uniform(0, .98)
    for k, o in enumerate(offs):
        for i in range(n):
            j = i + o
            if 0 <= j < n: data[k, j] = A[i, j]
    return scipy.sparse.dia_matrix((data, offs), shape=(n, n))

def make_template(spec):
    from redrock.templates import Template
    return quiet(Template, spectype=spec['spectype'], redshifts=np.array(spec['redshifts'], float), wave=np.array(spec['wave'], float),
                 flux=np.array(spec['flux'], float), subtype=spec.get('subtype', ''), method=spec.get('method', 'PCA'),
                 igm_model=spec.get('igm', 'Inoue14'), version='0')

def make_spectrum(sd):
    from redrock.targets import Spectrum
    R = sd['R']
    return Spectrum(np.array(sd['wave'], float), np.array(sd['flux'], float), np.array(sd['ivar'], float),
                    None if R is None else R.copy(), Rcsr=(R.tocsr() if sd.get('csr') else None), band=sd.get('band'))

def make_target(td, **k):
    from redrock.targets import Target
    return Target(td['id'], [make_spectrum(s) for s in td['spectra']], meta=dict(td.get('meta', {})), **k)

def spectrum_data(rng, wave, flux, noise=1., mask=.1, identity=False, band=None, ndiag=None):
    n = len(wave)
    R = resolution(rng, n, ndiag=ndiag, identity=identity)
    iv = rng.uniform(.5, 2, size=n) / noise ** 2
    iv[rng.random(n) < mask] = 0
    return dict(wave=np.array(wave), flux=flux + rng.normal(size=n) * noise, ivar=iv, R=R, band=band, csr=bool(rng.random() < .5))

def template_spec(rng, spectype='GALAXY', subtype='', nbasis=None, lo=1500., hi=9000., n=None, zs=None, method='PCA', igm='Inoue14', positive=False):
    n = n or int(rng.integers(60, 120))
    wave = np.linspace(lo, hi, n)
    if spectype == 'GALAXY' and lo < 3728 < hi: wave = wave + (3728. - wave[np.argmin(np.abs(wave - 3728))])     # a sample on [OII]
    nb = nbasis or int(rng.integers(1, 4))
    x = np.linspace(0, 1, n)
    flux = []
    for b in range(nb):
        f = 1 + rng.normal() * .3 * x
        for _ in range(6):
            f = f + rng.normal() * 2 * np.exp(-.5 * ((wave - rng.uniform(lo, hi)) / rng.uniform(1, 3) / (wave[1] - wave[0])) ** 2)
        f = f + .15 * rng.normal(size=n)
        flux.append(np.abs(f) if positive else f)
    return dict(spectype=spectype, subtype=subtype, wave=wave, flux=np.array(flux), redshifts=zs, method=method, igm=igm)
