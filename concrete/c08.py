"""C08: redshift priors"""
from .base import *
from .build import quiet
from redrock.priors import Priors
from redrock import fitz

def prior_of(func, z, z0, s0):
    x = (np.asarray(z) - z0) / s0
    return x ** 2 if func == 'gaussian' else 2 * np.log(1 + x ** 2)

def gen_shape(rng, k):
    n = int(rng.integers(1, 40)); z0 = float(rng.uniform(-.01, 4)); s0 = float(10 ** rng.uniform(-3, 1))
    z = np.sort(rng.uniform(0, 5, size=n))
    if k % 3 == 0: z = z0 + np.arange(-5, 6) * s0 * .5
    if k % 3 == 1: z[int(rng.integers(0, n))] = z0
    return dict(z=z, z0=z0, s0=s0, func=['gaussian', 'lorentzien'][k % 2])

@contract('C08', ['redrock.priors.Priors.gaussian', 'redrock.priors.Priors.lorentzien'], gen_shape, quick=1500, thorough=30000)
def shapes(inp, req):
    z, z0, s0 = inp['z'], inp['z0'], inp['s0']; kz = z.copy()
    p = getattr(Priors, inp['func'])(z, z0, s0)
    req(same(z, kz), 'grid unchanged'); req(np.shape(p) == z.shape, 'one value per redshift')
    req(close(p, prior_of(inp['func'], z, z0, s0), 1e-9, 1e-12), 'declared value', p)
    req(np.all(p >= 0), 'not negative'); req(np.all(p[z == z0] == 0), 'zero at the mean')
    far = np.abs(z - z0) > 1e-7 * s0
    req(np.all(p[far] > 0), 'zero only at the mean')
    d = np.abs(z - z0); o = np.argsort(d)
    req(np.all(np.diff(p[o]) >= -1e-12 * (1 + np.abs(p[o][1:]))), 'not decreasing with distance')
    q = getattr(Priors, inp['func'])(2 * z0 - z, z0, s0)
    req(close(p, q, 1e-6, 1e-9), 'symmetric')

def gen_hat(rng, k):
    n = int(rng.integers(3, 30))
    z = np.sort(rng.uniform(0, 3, size=n)) if k % 2 else np.linspace(0, float(rng.uniform(.5, 3)), n)
    z = np.unique(z)
    if k % 4 == 1: z0, s0 = float(rng.choice(z)), float(rng.uniform(0, 1) + 1e-3)
    elif k % 4 == 2: z0, s0 = float(rng.choice([z[0], z[-1]])), float(rng.uniform(.01, 2))
    else: z0, s0 = float(rng.uniform(-.5, 3.5)), float(rng.uniform(.01, 4))
    kind = k % 3
    m = len(z)
    chi2 = rng.uniform(1, 100, size=m) if kind else rng.integers(1, 4, size=m).astype(float)
    if k % 5 == 0: chi2 = np.linspace(100, 1, m)
    if k % 5 == 1: chi2 = np.linspace(1, 100, m)
    return dict(z=z, z0=z0, s0=s0, chi2=chi2)

@contract('C08', ['redrock.priors.Priors.tophat', 'redrock.fitz.find_minima'], gen_hat, quick=3000, thorough=60000)
def tophat(inp, req):
    z, z0, s0 = inp['z'], inp['z0'], inp['s0']
    if len(z) < 3: raise Skip
    kz = z.copy(); p = Priors.tophat(z, z0, s0)
    req(same(z, kz), 'grid unchanged'); req(p.shape == z.shape, 'one value per redshift')
    d = np.abs(z - z0)
    if np.any(np.abs(d - s0 / 2) < 1e-9): raise Skip
    inside = d < s0 / 2
    m = fitz.find_minima(inp['chi2'] + p)
    if not inside.any():
        req(np.all(np.isnan(p)), 'all undefined when the window is empty'); req(len(m) == 0, 'no minimum when the window is empty'); return
    i, j = np.where(inside)[0][[0, -1]]
    want = np.where(inside, 0., np.nan)
    want[max(i - 1, 0)] = np.inf; want[min(j + 1, len(z) - 1)] = np.inf
    req(same(p, want), 'zero inside, one infinite bound at each end, undefined outside', (p, want))
    req(all(inside[q] for q in m), 'every selected minimum lies inside the window', (m, inside))
    fin = inside & ~np.isinf(want)
    if fin.any():
        best = np.where(fin)[0][np.argmin(inp['chi2'][fin])]
        req(len(m) and inp['chi2'][m[0]] == inp['chi2'][best], 'the deepest point of the window is selected first', (m, best))

def gen_file(rng, k):
    n = int(rng.integers(1, 6)); ids = rng.permutation(10**6)[:n] + 39627 * 10**9 * (k % 2)
    rows = [(int(i), float(rng.uniform(0, 2)), float(rng.uniform(.01, 1))) for i in ids]
    return dict(rows=rows, func=['gaussian', 'lorentzien', 'tophat'][k % 3], z=np.linspace(0, 3, 17), other=int(ids.max() + 5))

@contract('C08', ['redrock.priors.Priors.__init__', 'redrock.priors.Priors.eval'], gen_file, quick=120, thorough=2000)
def from_file(inp, req):
    import tempfile
    from .c07 import write_priors
    with tempfile.TemporaryDirectory() as d:
        write_priors(d + '/p.fits', inp['rows'], inp['func']); P = Priors(d + '/p.fits')
    z = inp['z']
    for t, z0, s0 in inp['rows']:
        p = P.eval(t, z)
        want = Priors.tophat(z, z0, s0) if inp['func'] == 'tophat' else prior_of(inp['func'], z, z0, s0)
        req(close(p, want, 1e-9, 1e-12) or same(p, want), 'the prior of its own entry', t)
    chi2 = np.arange(17.)
    req(same(chi2 + P.eval(inp['other'], z), chi2), 'a target without an entry gets no prior')
from_model = {
 'shapes': lambda d: dict(z=np.atleast_1d(np.array(d['z'], float)), z0=float(d['z0']), s0=float(d['s0']), func=d.get('func', 'gaussian')),
 'tophat': lambda d: dict(z=np.array(d['z'], float), z0=float(d['z0']), s0=float(d['s0']), chi2=np.array(d['chi2'], float))}
