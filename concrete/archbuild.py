"""Archetype fits: small archetype files and targets with several cameras"""
import os, tempfile, shutil
import numpy as np
from numpy.polynomial import legendre as L
from .build import *
from .oracle import *

def archetype_spec(rng, spectype='GALAXY', narch=None, loglam=None, positive=True, lo=1300., hi=9500., n=300):
    narch = narch or int(rng.integers(1, 6)); log = bool(rng.random() < .5) if loglam is None else loglam
    x = np.linspace(0, 1, n); fl = []
    for a in range(narch):
        f = 2 + rng.normal() * .5 * x
        for _ in range(8): f = f + np.abs(rng.normal()) * 3 * np.exp(-.5 * ((x - rng.uniform()) / rng.uniform(.01, .03)) ** 2)
        fl.append(np.abs(f + .1 * rng.normal(size=n)))
    return dict(spectype=spectype, sub=[str(rng.choice(['ELG', 'LRG', 'SFG'])) for _ in range(narch)], flux=np.array(fl), log=log,
                crval=np.log10(lo) if log else lo, cdelt=(np.log10(hi / lo) if log else hi - lo) / (n - 1))

def arch_wave(a):
    w = a['crval'] + a['cdelt'] * np.arange(a['flux'].shape[1])
    return 10 ** w if a['log'] else w

def write_arch(a, path):
    from astropy.io import fits
    n = a['flux'].shape[1]
    h = fits.BinTableHDU.from_columns([fits.Column('ARCHETYPE', '%dD' % n, array=a['flux']), fits.Column('SUBTYPE', '20A', array=np.array(a['sub']))], name='ARCHETYPES')
    h.header['RRTYPE'] = a['spectype']; h.header['VERSION'] = '0.1'; h.header['CRVAL1'] = a['crval']; h.header['CDELT1'] = a['cdelt']; h.header['LOGLAM'] = a['log']
    fits.HDUList([fits.PrimaryHDU(), h]).writeto(path, overwrite=True)

def make_arch(a):
    from redrock.archetypes import Archetype
    d = tempfile.mkdtemp(prefix='vc_arch_')
    try:
        p = os.path.join(d, 'rrarchetype-x.fits'); write_arch(a, p)
        return Archetype(p)
    finally: shutil.rmtree(d)

def legpoly(w, nleg):
    x = 2 * (w - w.min()) / (w.max() - w.min()) - 1
    return np.array([L.legval(x, np.eye(nleg)[i]) for i in range(nleg)]).reshape(nleg, len(w))

def cameras(rng, k, a, zlo=.1, zhi=.6, named=True, multi=True):
    "spectra of one target: several cameras in any order, possibly several exposures of a camera"
    nc = int(rng.integers(1, 4)); z = float(rng.uniform(zlo, zhi)); out = []
    aw = arch_wave(a)
    grids = [np.linspace(3600 + 1000 * g, 4400 + 1000 * g, int(rng.integers(14, 30))) for g in range(3)]
    names = [str(x) for x in (rng.permutation(['b', 'r', 'z'])[:nc] if rng.random() < .7 else rng.permutation(['a1', 'Z', 'm', 'b'])[:nc])]
    c = rng.uniform(.5, 3); i = int(rng.integers(0, len(a['flux'])))
    for g in range(nc):
        w = grids[g]; p = legpoly(w, 3); lc = rng.normal(size=3) * .5
        for e in range(1 if not multi or rng.random() < .7 else 2):
            truth = c * binavg(aw * (1 + z), a['flux'][i], edges_of(w)) + lc @ p
            s = spectrum_data(rng, w, truth, noise=float(10 ** rng.uniform(-2, 0)), band=names[g] if named else None, mask=.1)
            out.append(s)
    p = rng.permutation(len(out)); return [out[j] for j in p], z, i
