"""Small surveys: several templates and targets, for the contracts on whole runs"""
import numpy as np
from .build import *
from .oracle import *

def gen_survey(rng, k, ntarget=None, nsub=None, masks=True):
    kinds = [('GALAXY', '')] if rng.random() < .8 else []
    for s in range(int(rng.integers(1, 4)) if nsub is None else nsub): kinds.append(('STAR', 'ABCF'[s]))
    if rng.random() < .6: kinds += [('QSO', 'HIZ')] + ([('QSO', 'LOZ')] if rng.random() < .5 else [])
    if rng.random() < .3: kinds = kinds[::-1]
    ts = []
    for sp, sub in kinds:
        n = int(rng.integers(6, 20))
        zs = np.linspace(-.002, .002, n) if sp == 'STAR' else np.linspace(.05, .6, n) if sp == 'GALAXY' else np.linspace(.4, 1.2, n)
        ts.append(template_spec(rng, sp, sub, nbasis=int(rng.integers(1, 4)), zs=zs, lo=1400., hi=9500., n=250, method='PCA' if rng.random() < .8 else 'NMF'))
        if ts[-1]['method'] == 'NMF': ts[-1]['flux'] = np.abs(ts[-1]['flux'])
    tg = []
    ids = rng.permutation(1000)[:(ntarget or int(rng.integers(1, 4)))]
    for i in ids:
        t = ts[int(rng.integers(0, len(ts)))]; z = float(rng.choice(t['redshifts'])); c = rng.uniform(.5, 2, size=len(t['flux']))
        sps = []
        for g in range(2):
            w = np.linspace(3700 + 900 * g, 4300 + 900 * g, 24)
            for e in range(int(rng.integers(1, 3)) if g == 0 else int(rng.integers(0, 2))):
                truth = rebin_all(t['wave'], t['flux'], [z], w)[0] @ c
                s = spectrum_data(rng, w, truth, noise=float(10 ** rng.uniform(-1.5, .3)), band='br'[g], mask=.1); sps.append(s)
        if masks and rng.random() < .5:      # number of good pixels around the coverage limits
            want = int(rng.choice([0, 9, 10, 11, 19, 20, 21, 29, 30, 31, 5]))
            left = want
            for s in sps:
                idx = rng.permutation(24)[:min(left, 24)]; iv = np.zeros(24); iv[idx] = rng.uniform(.5, 2, size=len(idx)); s['ivar'] = iv; left -= len(idx)
        tg.append(dict(id=int(i) + 10**12 * int(k % 2), spectra=sps, meta=dict(FIBER=int(i), mag=float(i) / 7)))
    return dict(templates=ts, targets=tg, nminima=int(rng.integers(1, 5)))

def build_survey(inp, comm=None):
    from redrock.targets import DistTargetsCopy
    from redrock.templates import DistTemplate
    tgs = [make_target(d) for d in inp['targets']]
    dt = DistTargetsCopy(tgs, comm=comm)
    dw = dt.wavegrids()
    return dt, [quiet(DistTemplate, make_template(t), dw, comm=comm) for t in inp['templates']]
