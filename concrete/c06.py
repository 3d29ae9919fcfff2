"""C06: ranking and delta chi2"""
from .base import *
from .oracle import dv
from redrock import zfind
BAD = 2**3 + 2**4 + 2**5 + 2**6 + 2**10

def gen(rng, k):
    n = [1, 2, 3][k % 3] if k % 5 == 0 else int(rng.integers(1, 16))
    bits = 2 ** rng.integers(0, 24, size=(n, 3)); keep = rng.random((n, 3)) < .35
    zw = (bits * keep).sum(axis=1) if k % 4 else np.bitwise_or.reduce(bits * keep, axis=1)
    zw = np.bitwise_or.reduce(bits * keep, axis=1).astype(int)
    if k % 6 == 0: zw = np.zeros(n, int)
    chi2 = rng.integers(0, 40, size=n).astype(float) if k % 2 else rng.uniform(50, 120, size=n)
    if k % 7 == 1: chi2 = rng.choice([9999999.0, 50., 59., 59.0000001], size=n)
    z = rng.choice(rng.uniform(0, 3, size=3), size=n) + rng.choice([0, 1e-4, 3.3e-3, 4e-3, .01, -2e-3], size=n)
    lim = rng.choice([1000., 100.], size=n)
    ncoef = int(rng.integers(1, 5))
    return dict(zw=zw, chi2=chi2, z=z, lim=lim, coeff=rng.normal(size=(n, ncoef)), scalar=float(rng.choice([1000., 100., 0., 3000.])), mode=int(k % 4))

def cols(inp):
    n = len(inp['z'])
    d = dict(zwarn=inp['zw'].copy(), chi2=inp['chi2'].copy(), z=inp['z'].copy(), coeff=inp['coeff'].copy(), row=np.arange(n), spectype=np.array(['T%d' % i for i in range(n)]))
    return d

@contract('C06', ['redrock.zfind.sort_zfit', 'redrock.zfind.sort_zfit_dict', 'redrock.zfind.sort_dict_by_cols'], gen, quick=1200, thorough=20000)
def ranking(inp, req):
    import astropy.table
    src = cols(inp); n = len(src['z'])
    def verify(g, label):
        row = np.asarray(g['row'])
        req(sorted(row) == list(range(n)), label + 'every row once', row)
        if sorted(row) != list(range(n)): return
        for c in src: req(same(np.asarray(g[c]), src[c][row]), label + 'rows stay intact', c)
        bad = (np.asarray(g['zwarn']) & BAD) != 0
        req(np.all(np.diff(bad.astype(int)) >= 0), label + 'good fits first', bad)
        for b in (False, True): req(np.all(np.diff(np.asarray(g['chi2'])[bad == b]) >= 0), label + 'increasing chi2 within each group')
    d = cols(inp); zfind.sort_zfit_dict(d); req(set(d) == set(src), 'columns kept'); verify(d, '')
    t = astropy.table.Table(cols(inp)); zfind.sort_zfit(t); req(set(t.colnames) == set(src), 'columns kept'); verify(t, '')

@contract('C06', ['redrock.zfind.sort_dict_by_cols', 'redrock.zfind.sort_dict_by_col'], gen, quick=600, thorough=10000)
def sort_columns(inp, req):
    src = cols(inp); n = len(src['z'])
    order = [('zwarn', 'chi2'), ('chi2', 'zwarn'), ('chi2',), ('z', 'chi2', 'zwarn')][inp['mode']]
    for first in (True, False):
        d = cols(inp); zfind.sort_dict_by_cols(d, order, sort_first_column_first=first)
        row = d['row']; req(sorted(row) == list(range(n)), 'every row once')
        for c in src: req(same(d[c], src[c][row]), 'rows stay intact')
        o = order if first else order[::-1]
        keys = [tuple(src[c][i] for c in o) for i in row]
        req(all(keys[i] <= keys[i + 1] for i in range(n - 1)), 'sorted by the columns in turn')
    d = cols(inp); zfind.sort_dict_by_col(d, order[0]); row = d['row']
    req(sorted(row) == list(range(n)) and all(same(d[c], src[c][row]) for c in src), 'rows stay intact')
    req(np.all(np.diff(d[order[0]]) >= 0), 'sorted by the column')
    for f, a in ((zfind.sort_dict_by_col, 'nope'), (zfind.sort_dict_by_cols, ('chi2', 'nope'))):
        try: f(cols(inp), a); req(False, 'unknown column rejected')
        except KeyError: req(True, 'unknown column rejected')

@contract('C06', ['redrock.zfind.calc_deltachi2'], gen, quick=2500, thorough=60000)
def deltachi2(inp, req):
    o = np.argsort(inp['chi2'] + 1e9 * ((inp['zw'] & BAD) != 0), kind='stable') if inp['mode'] != 3 else np.arange(len(inp['z']))
    chi2, z, zw, lim = (inp[c][o].copy() for c in ('chi2', 'z', 'zw', 'lim'))
    arg = lim
    if inp['mode'] == 1: arg = inp['scalar']; lim = np.full(len(z), arg)
    keep = [a.copy() for a in (chi2, z, zw, lim)]
    if inp['mode'] == 2: d, s = zfind.calc_deltachi2(chi2, z, zw); lim = np.full(len(z), 1000.)
    else: d, s = zfind.calc_deltachi2(chi2, z, zw, dvlimit=arg)
    req(all(same(a, b) for a, b in zip((chi2, z, zw), keep)), 'inputs unchanged')
    n = len(z); good = (zw & BAD) == 0
    req(len(d) == n and len(s) == n, 'one value per candidate')
    for i in range(n):
        v = np.abs(dv(z, z[i])); l = np.minimum(lim, lim[i])
        vague = (np.abs(v - l) < 1e-6 * (1 + l)) & ~((v == 0) & (l == 0))
        later = np.arange(n) > i
        c = (chi2 - chi2[i])[later & good & (v > l)]
        if not np.any(vague[later]):
            want = c.min() if len(c) else 0.
            req(abs(d[i] - want) <= 1e-9 * (1 + abs(want)), 'smallest increase to a later distinct good fit', (i, d[i], want))
        other = np.arange(n) != i
        if not np.any(vague[other]):
            near = other & good & (v >= l) & (np.abs(chi2 - chi2[i]) < 9)
            req(bool(s[i]) == bool(near.any()), 'small-delta flag exactly when another distinct good fit is within 9', (i, s[i], near))

def from_dc(d):
    n = len(d['chi2']); lim = d.get('dvlimit', 1000.)
    return dict(zw=np.array(d['zwarn'], int), chi2=np.array(d['chi2'], float), z=np.array(d['z'], float), lim=np.array(lim, float) if np.ndim(lim) else np.full(n, float(lim)),
                coeff=np.zeros((n, 1)), scalar=1000., mode=3)
def from_rank(d):
    n = len(d['chi2'])
    return dict(zw=np.array(d['zwarn'], int), chi2=np.array(d['chi2'], float), z=np.array(d['z'], float), lim=np.zeros(n), coeff=np.array(d['coeff'], float).reshape(n, -1), scalar=1., mode=0)
from_model = {'deltachi2': from_dc, 'ranking': from_rank}
