"""Run-time contracts on the real functions (CPython): the replay target of the verifier's
counter-models and the bounded stand-in for what is not (yet) proved."""
import sys, os, time, json, pickle, base64, traceback, random, io, contextlib, warnings
REPO = os.environ.get('VC_REPO', '/repo')
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMBA_NUM_THREADS'):
    os.environ.setdefault(k, '1')
os.environ.setdefault('NUMBA_CACHE_DIR', '/tmp/numba_cache_vc_%d' % os.getuid())
sys.dont_write_bytecode = True
if os.path.join(REPO, 'py') not in sys.path: sys.path.insert(0, os.path.join(REPO, 'py'))
import numpy as np
warnings.simplefilter('ignore')

class Contract:
    def __init__(self, prop, name, functions, gen, check, quick, thorough, seconds):
        self.prop, self.name, self.functions, self.gen, self.check = prop, name, functions, gen, check
        self.quick, self.thorough, self.seconds = quick, thorough, seconds
REG = {}
def contract(prop, functions, gen, quick=300, thorough=5000, seconds=40, name=None):
    """check(inp, req): call the real code on the generated input and state each clause
    with req(condition, clause)"""
    def d(fn):
        c = Contract(prop, name or fn.__name__, functions, gen, fn, quick, thorough, seconds)
        REG.setdefault(prop, []).append(c)
        return fn
    return d

class Req:
    def __init__(self): self.failed = []; self.n = 0; self.clauses = {}
    def __call__(self, cond, clause, detail=''):
        self.n += 1
        self.clauses[clause] = self.clauses.get(clause, 0) + 1
        if not bool(cond): self.failed.append((clause, str(detail)[:400]))
        return bool(cond)
class Skip(Exception):
    "input outside the precondition"

def from_code(tb):
    "does the traceback pass through the code under test?"
    root = os.path.join(REPO, 'py') + os.sep
    return any(f.filename.startswith(root) for f in traceback.extract_tb(tb))

def run_one(c, inp):
    """-> (status, failed clauses, clause counts) ; status ok / fail / skip / error"""
    r = Req()
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            c.check(inp, r)
    except Skip: return 'skip', [], r
    except (KeyboardInterrupt, MemoryError): raise
    except Exception as e:
        et, ev, tb = sys.exc_info()
        txt = '%s: %s' % (et.__name__, str(ev)[:200])
        last = traceback.extract_tb(tb)[-1]
        where = '%s:%d' % (os.path.basename(last.filename), last.lineno)
        if from_code(tb):
            r.failed.append(('no unexpected exception', txt + ' at ' + where))
            return 'fail', r.failed, r
        if r.failed: return 'fail', r.failed, r          # clauses that failed before it still count
        return 'error', [('harness', txt + ' at ' + where)], r
    return ('fail' if r.failed else 'ok'), r.failed, r

def save_replay(c, inp, failed, path, extra=None):
    d = dict(property=c.prop, contract=c.name, functions=c.functions, failed=[list(f) for f in failed],
             input_repr=_short(inp), input_pickle=base64.b64encode(pickle.dumps(inp)).decode(),
             how_to_run='python /verif/replay.py ' + path)
    if extra: d.update(extra)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    json.dump(d, open(path, 'w'), indent=1, default=str)

def _short(x):
    with np.printoptions(threshold=60, precision=17):
        s = repr(x)
    return s if len(s) < 4000 else s[:4000] + '...'

def close(a, b, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape: return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape: return False
    if a.dtype.kind == 'f' or b.dtype.kind == 'f': return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))
