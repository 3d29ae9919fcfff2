"""C01: rebinning"""
from .base import *
from .oracle import *
from .build import make_template
from redrock import rebin

def gen_c2e(rng, k):
    n = k % 12 + 2
    c = np.cumsum(rng.uniform(.1, 3, size=n)) + rng.uniform(-5, 5000)
    if k % 5 == 0: c = np.arange(n) * 1.0
    return dict(c=c, aslist=bool(k % 7 == 0), integer=bool(k % 5 == 0))

@contract('C01', ['redrock.rebin.centers2edges'], gen_c2e, quick=400, thorough=20000)
def centers2edges(inp, req):
    c = np.asarray(inp['c'], float); n = len(c)
    a = c.astype(int) if inp['integer'] else c
    e = np.asarray(rebin.centers2edges(list(a) if inp['aslist'] else a))
    req(e.shape == (n + 1,), 'one more edge than centres', e.shape)
    req(close(e[1:-1], (c[1:] + c[:-1]) / 2), 'edges midway between neighbouring centres', e)
    req(close(c[0] - e[0], e[1] - c[0], 1e-9, 1e-9), 'first bin symmetric', e)
    req(close(c[-1] - e[-2], e[-1] - c[-1], 1e-9, 1e-9), 'last bin symmetric', e)

def grid(rng, k, nmax=40):
    n = int(rng.integers(2, nmax))
    if k % 3 == 0: x = np.arange(n) * 1.0 + rng.integers(0, 5)
    else: x = np.cumsum(rng.uniform(.05, 2, size=n)) + rng.uniform(1, 3000)
    return x

def edges_in(rng, k, lo, hi, x=None):
    m = int(rng.integers(1, 25))
    e = rng.uniform(lo, hi, size=m + 1)
    if x is not None and k % 4 == 0: e[: len(e) // 2] = rng.choice(x[(x >= lo) & (x <= hi)], size=len(e) // 2) if np.any((x >= lo) & (x <= hi)) else e[: len(e) // 2]
    if k % 5 == 0: e[0] = lo
    if k % 5 in (0, 1): e[-1] = hi
    e = np.unique(e)
    if len(e) < 2: e = np.array([lo, hi])
    return e

def gen_one(rng, k):
    x = grid(rng, k)
    y = rng.normal(size=len(x)) * 10 ** rng.uniform(-3, 3)
    e = edges_in(rng, k, x[0], x[-1], x)
    return dict(x=x, y=y, e=e, mode=int(k % 4))

@contract('C01', ['redrock.rebin.trapz_rebin', 'redrock.rebin._trapz_rebin_1d'], gen_one, quick=1500, thorough=40000)
def rebin_one(inp, req):
    x, y, e = inp['x'], inp['y'], inp['e']
    if np.any(np.diff(e) < 1e-6): raise Skip
    kx, ky, ke = x.copy(), y.copy(), e.copy()
    want = binavg(x, y, e)
    tol = 1e-9 * np.abs(y).max() * max(1, abs(x).max() / np.diff(e).min() * 1e-3)
    if inp['mode'] == 1:
        y2 = np.array([y, y[::-1] * 2]); r = rebin.trapz_rebin(x, y2, edges=e)
        req(r.shape == (len(e) - 1, 2), 'shape (bins, bases)', r.shape)
        req(close(r[:, 0], want, 0, tol), 'bin averages'); req(close(r[:, 1], binavg(x, y2[1], e), 0, 2 * tol), 'bin averages of the second basis')
    elif inp['mode'] == 2:
        r = rebin.trapz_rebin(x, y, edges=list(e), xmin=x[0], xmax=x[-1], edge_min=e[0], edge_max=e[-1])
        req(close(r, want, 0, tol), 'bin averages')
    else:
        r = rebin.trapz_rebin(x, y, edges=e)
        req(r.shape == (len(e) - 1,), 'shape', r.shape); req(close(r, want, 0, tol), 'bin averages')
    req(same(x, kx) and same(y, ky) and same(e, ke), 'inputs unchanged')

def gen_batch(rng, k):
    x = grid(rng, k, 30); nb = int(rng.integers(1, 4))
    y = rng.normal(size=(nb, len(x)))
    nz = int(rng.integers(1, 6))
    span = .4 * (x[-1] / x[0] - 1) if x[0] > 0 else .1
    z = rng.uniform(0, max(span, 1e-3), size=nz) - (.02 if k % 3 else 0)
    if k % 6 == 0: z = np.sort(z)
    if k % 6 == 1: z = np.sort(z)[::-1].copy()
    lo, hi = x[0] * (1 + z.max()), x[-1] * (1 + z.min())
    ok = hi - lo > 1e-3 * (x[-1] - x[0])
    e = edges_in(rng, k, lo, hi) if ok else edges_in(rng, k, x[0] * (1 + z.min()), x[-1] * (1 + z.max()))
    bad = None
    if k % 4 == 3:
        bad = ['low', 'high'][int(rng.integers(0, 2))]
        if bad == 'low': e = np.concatenate(([lo - (x[1] - x[0]) * rng.uniform(1e-3, 1)], e))
        else: e = np.concatenate((e, [hi + (x[1] - x[0]) * rng.uniform(1e-3, 1)]))
    return dict(x=x, y=y, z=z, e=np.unique(e), one=bool(k % 5 == 2), ndim1=bool(k % 7 == 3), given=bool(k % 2))

@contract('C01', ['redrock.rebin.trapz_rebin', 'redrock.rebin._trapz_rebin_batch'], gen_batch, quick=1200, thorough=40000)
def rebin_batch(inp, req):
    x, y, z, e = inp['x'], inp['y'], inp['z'], inp['e']
    if len(e) < 2 or np.any(np.diff(e) < 1e-6): raise Skip
    lo, hi = x[0] * (1 + z.max()), x[-1] * (1 + z.min())
    yy = y[0] if inp['ndim1'] else y
    args = dict(edges=e, myz=z)
    if inp['one']: args['myz'] = float(z[0]); lo, hi = x[0] * (1 + z[0]), x[-1] * (1 + z[0])
    if inp['given']: args.update(xmin=lo, xmax=hi)
    eps = 1e-9 * hi
    outside = e[0] < lo - eps or e[-1] > hi + eps
    inside = e[0] >= lo and e[-1] <= hi
    if not outside and not inside: raise Skip
    try: r = rebin.trapz_rebin(x, yy, **args)
    except ValueError:
        req(outside, 'rejects only bins outside the range'); return
    if not req(not outside, 'bins outside the range are rejected', (lo, hi, e[0], e[-1])): return
    zs = z[:1] if inp['one'] else z
    tol = 1e-9 * max(1, np.abs(y).max()) * max(1, abs(x).max() / np.diff(e).min() * 1e-3)
    want = np.array([[binavg(x * (1 + q), b, e) for b in y] for q in zs]).transpose(0, 2, 1)
    if inp['ndim1']: want = want[:, :, 0]
    if inp['one']: want = want[0]
    req(r.shape == want.shape, 'one axis per redshift, bin and basis', (r.shape, want.shape))
    req(r.shape == want.shape and close(r, want, 1e-7, tol), 'each entry is the bin average for its redshift and basis')

def gen_tmpl(rng, k):
    n = int(rng.integers(10, 60)); wave = np.linspace(1000, 2000, n) if k % 2 else np.cumsum(rng.uniform(5, 40, size=n)) + 1000
    nb = int(rng.integers(1, 4)); flux = rng.normal(size=(nb, n))
    z = rng.uniform(0, .3, size=int(rng.integers(1, 5)))
    lo, hi = wave[0] * (1 + z.max()), wave[-1] * (1 + z.min())
    dw = {}
    for g in range(int(rng.integers(1, 4))):
        a, b = np.sort(rng.uniform(lo, hi, size=2))
        m = int(rng.integers(3, 30)); step = (b - a) / (m + 1)
        dw['g%d' % g] = a + step * (1 + np.arange(m))
    outside = None
    if k % 4 == 1:
        g = list(dw)[int(rng.integers(0, len(dw)))]; outside = g
        if rng.random() < .5: dw[g] = dw[g] - dw[g][0] + lo - (dw[g][1] - dw[g][0])
        else: dw[g] = dw[g] - dw[g][-1] + hi + (dw[g][1] - dw[g][0])
    return dict(wave=wave, flux=flux, z=z, dw=dw, mode=int(rng.integers(0, 4)), outside=outside)

@contract('C01', ['redrock.rebin.rebin_template'], gen_tmpl, quick=500, thorough=15000)
def rebin_template(inp, req):
    t = make_template(dict(spectype='QSO', redshifts=inp['z'], wave=inp['wave'], flux=inp['flux']))
    dw, z = inp['dw'], inp['z']
    lo, hi = inp['wave'][0] * (1 + z.max()), inp['wave'][-1] * (1 + z.min())
    if any(np.diff(w).min() <= 1e-3 for w in dw.values()): raise Skip
    es = {g: edges_of(w) for g, w in dw.items()}
    outside = any(e[0] < lo - 1e-7 or e[-1] > hi + 1e-7 for e in es.values())
    inside = all(e[0] >= lo and e[-1] <= hi for e in es.values())
    if not outside and not inside: raise Skip
    args = dict(xmin=lo, xmax=hi) if inp['mode'] % 2 else {}
    try:
        if inp['mode'] < 2: r = rebin.rebin_template(t, z, dw, **args)
        else:
            # edges given directly; some with their end points alongside
            de = {g: ((e, e[0], e[-1]) if (i + inp['mode']) % 2 else e) for i, (g, e) in enumerate(es.items())}
            r = rebin.rebin_template(t, z, dedges=de, **args)
    except ValueError:
        req(outside, 'rejects only bins outside the range'); return
    if not req(not outside, 'bins outside the range are rejected'): return
    req(set(r) == set(dw), 'one result per wavelength grid')
    for g, w in dw.items():
        want = rebin_all(inp['wave'], inp['flux'], z, w)
        req(r[g].shape == want.shape, 'shape (redshifts, wavelengths, bases)')
        req(r[g].shape == want.shape and close(r[g], want, 1e-7, 1e-8), 'each entry is the bin average for its redshift and basis')

def _batch(d):
    y = np.array(d['y'], float); z = np.atleast_1d(np.array(d['z'], float))
    return dict(x=np.array(d['x'], float), y=np.atleast_2d(y), z=z, e=np.array(d['edges'], float), one=np.ndim(d['z']) == 0, ndim1=y.ndim == 1, given=False)
from_model = {
    'rebin_batch': _batch,
    'rebin_one': lambda d: dict(x=np.array(d['x'], float), y=np.array(d['y'], float), e=np.array(d['edges'], float), mode=0),
    'centers2edges': lambda d: dict(c=np.array(d['centers'], float), aslist=False, integer=False)}
