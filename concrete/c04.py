"""C04: find_minima, minfit"""
from .base import *
from redrock import fitz
from redrock.zwarning import ZWarningMask as ZW

def gen_curve(rng, k):
    n = int(rng.integers(1, 40)) if k > 30 else k % 9 + 1
    kind = rng.integers(0, 6)
    if kind == 0: x = rng.normal(size=n)
    elif kind == 1: x = rng.integers(0, 3, size=n).astype(float)
    elif kind == 2: x = np.zeros(n)
    elif kind == 3: x = np.sort(rng.normal(size=n))[:: (1 if rng.random() < .5 else -1)].copy()
    elif kind == 4: x = rng.integers(0, 2, size=n) * 1e9 + rng.integers(0, 3, size=n) * 1e-3
    else: x = np.repeat(rng.integers(0, 4, size=n), rng.integers(1, 3))[:n].astype(float)
    return dict(x=x, aslist=bool(rng.random() < .2))

@contract('C04', ['redrock.fitz.find_minima'], gen_curve, quick=1500, thorough=60000)
def find_minima(inp, req):
    x = np.asarray(inp['x'], float); n = len(x)
    keep = x.copy()
    r = np.asarray(fitz.find_minima(list(x) if inp['aslist'] else x))
    want = {i for i in range(n) if (i == 0 or x[i] <= x[i-1]) and (i == n-1 or x[i] <= x[i+1])}
    req(r.ndim == 1, 'one-dimensional list of indices')
    req(len(set(r.tolist())) == len(r), 'each minimum exactly once', r)
    req(set(r.tolist()) == want, 'exactly the local minima', (r, sorted(want)))
    if set(r.tolist()) <= set(range(n)):
        req(all(x[a] <= x[b] for a, b in zip(r[:-1], r[1:])), 'ordered from the deepest', r)
    req(np.array_equal(x, keep), 'input unchanged')

def gen_fit(rng, k):
    kind = k % 8
    z = np.cumsum(rng.uniform(1e-4, 1.0, size=3)) + rng.uniform(-1, 3)
    if kind == 0: y = rng.normal(size=3) * 10 ** rng.uniform(-2, 5)
    elif kind == 1: y = np.array([1., 1., 1.]) * rng.integers(-2, 3)
    elif kind == 2: y = rng.integers(-3, 4, size=3).astype(float); z = np.array([0., 1., 2.]) + rng.integers(0, 3)
    elif kind == 3:      # vertex exactly on an end point (exactly representable)
        z = np.array([0., 1., 2.]); e = rng.choice([0., 2.]); a = float(rng.integers(1, 4)) * rng.choice([-1, 1]); y = a * (z - e) ** 2 + float(rng.integers(0, 5))
    elif kind == 4:      # height exactly zero
        z = np.array([-1., 0., 1.]); a = float(rng.integers(1, 4)) * rng.choice([-1, 1]); y = a * z ** 2
    elif kind == 5: y = np.array([2., 1., 2.]) + rng.normal(size=3) * .1
    elif kind == 6: n = int(rng.integers(0, 3)); z = z[:n]; y = rng.normal(size=n)
    else: y = np.abs(rng.normal(size=3)) * 1e4; y[1] = y.min() - 1; 
    if rng.random() < .1: z, y = z[::-1].copy(), y[::-1].copy()
    return dict(x=z, y=y)

@contract('C04', ['redrock.fitz.minfit'], gen_fit, quick=2500, thorough=60000)
def minfit(inp, req):
    x, y = np.asarray(inp['x'], float), np.asarray(inp['y'], float)
    x0, xerr, y0, zw = fitz.minfit(x, y)
    BAD = ZW.BAD_MINFIT
    if len(x) < 3:
        req(zw == BAD, 'fewer than three points is bad'); req((x0, xerr, y0) == (-1, -1, -1), 'placeholder values'); return
    if len(set(x.tolist())) < 3: raise Skip
    req(zw in (0, BAD), 'only the bad-minimum flag')
    from fractions import Fraction as F
    X, Y = [F(v) for v in x.tolist()], [F(v) for v in y.tolist()]
    a = ((Y[2]-Y[0])/(X[2]-X[0]) - (Y[1]-Y[0])/(X[1]-X[0])) / (X[2]-X[1])
    b = (Y[1]-Y[0])/(X[1]-X[0]) - a*(X[0]+X[1])
    c = Y[0] - a*X[0]**2 - b*X[0]
    scale = max(abs(v) for v in Y) or F(1)
    # conditioning of the least-squares solve of numpy.polyfit
    span = max(X) - min(X); off = max(abs(v) for v in X)
    cond = float(max(F(1), off / min(abs(X[i]-X[j]) for i in range(3) for j in range(i)))) ** 2
    eps = 1e-13 * cond
    if abs(float(a)) * float(span) ** 2 <= 1e-9 * max(1, cond) * float(scale) * 10:
        if a == 0 and all(v == Y[0] for v in Y):
            pass
        if zw != BAD:
            # numerically flat curve: anything but a far away vertex would be wrong
            req(min(X) <= F(x0) <= max(X), 'unflagged vertex inside the points')
        return
    v = -b / (2*a); h = c - b*b/(4*a)
    tolx = max(1e-7 * float(span), eps * float(span) * float(scale) / (abs(float(a)) * float(span) ** 2) * 100)
    tolh = max(1e-7, 1e-12 * cond) * float(scale) * (1 + (float(abs(v - X[1])) / float(span)) ** 2) * 10
    near = lambda p, q, t: abs(float(p) - float(q)) <= t
    if a > 0 or zw == BAD:
        req(near(x0, v, tolx * (1 + abs(float(v - X[1])) / float(span)) ** 2), 'vertex abscissa', (x0, float(v)))
        req(near(y0, h, tolh), 'vertex height', (y0, float(h)))
        req(near(xerr * xerr * abs(float(a)), 1, 1e-5 + 1e-10 * cond * float(scale) / (abs(float(a)) * float(span) ** 2)), 'width', (xerr, float(a)))
    # flag (skip inputs whose classification is within rounding)
    lo, hi = min(X), max(X)
    exact = all(float(t).is_integer() and abs(t) < 100 for t in x.tolist() + y.tolist())
    edge = min(abs(float(v - lo)), abs(float(v - hi))) <= tolx * 10
    zero = abs(float(h)) <= tolh
    bad = a < 0 or v <= lo or v >= hi or h <= 0
    if a < 0: req(zw == BAD, 'opens downward is bad', zw)
    elif not edge and not zero: req((zw == BAD) == bad, 'bad exactly for a wrong parabola', (zw, bad))

from_model = {'find_minima': lambda d: dict(x=np.array(d['x'], float), aslist=False),
              'minfit': lambda d: dict(x=np.array(d['x'], float), y=np.array(d['y'], float))}
