"""Reference definitions, written from the property statements (no redrock code)"""
import numpy as np

def edges_of(c):
    c = np.asarray(c, float)
    e = np.empty(len(c) + 1)
    e[1:-1] = .5 * (c[:-1] + c[1:])
    e[0] = c[0] - (e[1] - c[0]); e[-1] = c[-1] + (c[-1] - e[-2])
    return e

def binavg(x, y, edges):
    "average over each bin of the straight-line interpolation of (x, y)"
    x, y, edges = (np.asarray(a, float) for a in (x, y, edges))
    out = np.empty(len(edges) - 1)
    for i in range(len(out)):
        a, b = edges[i], edges[i + 1]
        p = np.concatenate(([a], x[(x > a) & (x < b)], [b]))
        v = np.interp(p, x, y)
        out[i] = np.sum(.5 * (v[1:] + v[:-1]) * np.diff(p)) / (b - a)
    return out

def rebin_all(wave, flux, zs, centers):
    "-> (nz, nwave, nbasis)"
    e = edges_of(centers)
    return np.array([[binavg(wave * (1 + z), f, e) for f in flux] for z in zs]).transpose(0, 2, 1)

def dense(R):
    return np.asarray(R.toarray() if hasattr(R, 'toarray') else R, float)

def chi2_of(models, fluxes, ivars):
    return sum(float(np.sum(iv * (f - m) ** 2)) for m, f, iv in zip(models, fluxes, ivars))

C_KMS = 299792.458
def dv(z, zref): return C_KMS * (z - zref) / (1 + zref)
