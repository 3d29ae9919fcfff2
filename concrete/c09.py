"""C09: distribution of work"""
from .base import *
from redrock import utils, targets

def gen(rng, k):
    n = int(rng.integers(0, 14)); p = int(rng.integers(1, 7))
    ids = [int(i) for i in rng.permutation(100)[:n]]
    if k % 5 == 4: ids = ['t%d' % i for i in ids]
    w = None
    if k % 4: w = {i: (int(rng.integers(1, 6)) if k % 2 else float(rng.uniform(.1, 9))) for i in ids}
    cap = None
    if k % 3 == 1: cap = [int(c) for c in rng.integers(1, 12, size=p)]
    if k % 3 == 2 and k % 2: cap = [float(c) for c in rng.uniform(.5, 4, size=p)]
    return dict(p=p, ids=ids, w=w, cap=cap)

@contract('C09', ['redrock.utils.distribute_work'], gen, quick=4000, thorough=100000)
def distribute(inp, req):
    ids, p, w, cap = list(inp['ids']), inp['p'], inp['w'], inp['cap']
    d = utils.distribute_work(p, list(ids), weights=None if w is None else dict(w), capacities=None if cap is None else list(cap))
    req(len(d) == p, 'one list per process', len(d))
    flat = [x for l in d for x in l]
    req(sorted(map(str, flat)) == sorted(map(str, ids)) and len(set(map(str, flat))) == len(flat), 'every unit exactly once', (flat, ids))
    W = {i: 1 for i in ids} if w is None else w; C = [1] * p if cap is None else cap
    # replay: the order of placement is recovered from the decreasing weights
    for l in d: req(all(W[a] >= W[b] for a, b in zip(l, l[1:])), 'decreasing weight')
    where = {x: i for i, l in enumerate(d) for x in l}
    exact = all(isinstance(x, int) for x in list(W.values()) + list(C))
    if len(set(W[i] for i in ids)) == len(ids):     # distinct weights: the order is known
        load = [0] * p
        for x in sorted(ids, key=lambda i: -W[i]):
            if x not in where: continue
            best = min((load[i] + W[x]) / C[i] for i in range(p)); mine = (load[where[x]] + W[x]) / C[where[x]]
            req(mine <= best * (1 + 1e-12), 'placed where the normalised load is smallest', (x, mine, best))
            load[where[x]] += W[x]
    elif len(set(C)) == 1:      # ties: with equal capacities order among equal weights does not matter
        load = [0] * p; n = [0] * p
        for v in sorted(set(W[i] for i in ids), reverse=True):
            todo = [sum(1 for x in l if W[x] == v) for l in d]
            for _ in range(sum(todo)):
                c = [i for i in range(p) if todo[i] > 0]
                i = min(c, key=lambda i: load[i])
                req(load[i] <= min(load) + 1e-9 * (1 + max(load)), 'placed where the normalised load is smallest', (v, load)); load[i] += v; todo[i] -= 1
    if cap is None or len(set(C)) == 1:
        L = [sum(W[x] for x in l) for l in d]
        if ids: req(max(L) - min(L) <= max(W[i] for i in ids) + 1e-9, 'equal capacities: loads differ by at most the largest weight', L)

def gen_t(rng, k):
    n = int(rng.integers(0, 10))
    return dict(n=[(int(i), int(rng.integers(1, 7))) for i in rng.permutation(50)[:n]], p=int(rng.integers(1, 6)))

@contract('C09', ['redrock.targets.distribute_targets'], gen_t, quick=1000, thorough=20000)
def by_spectra(inp, req):
    from types import SimpleNamespace as N
    tg = [N(id=i, spectra=[None] * m) for i, m in inp['n']]
    d = targets.distribute_targets(tg, inp['p'])
    req(len(d) == inp['p'], 'one list per process')
    flat = [x for l in d for x in l]
    req(sorted(flat) == sorted(i for i, _ in inp['n']), 'every target exactly once')
    W = dict(inp['n'])
    for l in d: req(all(W[a] >= W[b] for a, b in zip(l, l[1:])), 'decreasing number of spectra')
    L = [sum(W[x] for x in l) for l in d]
    if W: req(max(L) - min(L) <= max(W.values()), 'loads differ by at most the largest number of spectra', L)

def from_d(d):
    ids = list(range(len(d['w']))) if 'ids' not in d else [int(i) for i in d['ids']]
    w = d['w']
    return dict(p=int(d['nproc']), ids=ids, w={i: float(w[i]) for i in ids} if not isinstance(w, dict) else {int(k): float(v) for k, v in w.items()}, cap=None if d.get('cap') is None else [float(c) for c in d['cap']])
from_model = {'distribute': from_d}
