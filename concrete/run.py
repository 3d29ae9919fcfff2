"""python -m concrete.run PROP TIER SEED OUTDIR  -> JSON on stdout"""
import sys, os, json, time, importlib, hashlib, pickle, multiprocessing as mp, signal
from . import base
import numpy as np

class Slow(BaseException): pass

def limits(c, tier):
    "inputs and seconds: VC_EFFORT > 1 (the source differs from the one the proofs were made for) looks harder"
    e = float(os.environ.get('VC_EFFORT', '1'))
    if tier != 'quick': return c.thorough, c.seconds * 12
    if e <= 1: return c.quick, c.seconds
    return max(c.thorough, int(c.quick * e)), max(c.seconds * 1.5, 10 * e)

def work(c, tier, seed, outdir, q):
    import random
    devnull = os.open(os.devnull, os.O_WRONLY); os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, 'w')
    n, budget = limits(c, tier)
    t0 = time.time(); runs = skips = 0; fails = []; errs = []; clauses = {}; distinct = set(); sample = None
    for k in range(n):
        if time.time() - t0 > (budget if not fails else min(budget, 15)): break
        rng = np.random.default_rng([seed, k, sum(map(ord, c.name))])
        try: inp = c.gen(rng, k)
        except StopIteration: break
        except Exception as e:
            et, ev, tb = sys.exc_info()
            errs.append('generator: %s: %s%s' % (et.__name__, ev, ' (in code under test)' if base.from_code(tb) else '')); 
            if len(errs) > 3: break
            continue
        st, failed, r = base.run_one(c, inp)
        runs += 1
        for a, b in r.clauses.items(): clauses[a] = clauses.get(a, 0) + b
        if st != 'skip' and r.n:
            try: distinct.add(hashlib.sha1(pickle.dumps(inp)).digest())
            except Exception: distinct.add(k)
            if sample is None: sample = dict(contract=c.name, index=k, input=base._short(inp)[:700], clauses={a: b for a, b in r.clauses.items()})
        if st == 'skip': skips += 1
        elif st == 'error':
            errs.append(failed[0][1])
            if len(errs) > 5: break
        elif st == 'fail':
            key = tuple(sorted({f[0] for f in failed}))
            if key not in [x['key'] for x in fails]:
                path = os.path.join(outdir, '%s_%s_%d.json' % (c.prop, c.name, len(fails)))
                base.save_replay(c, inp, failed, path, dict(seed=seed, index=k))
                fails.append(dict(key=key, contract=c.name, failed=failed[:5], path=path, index=k))
            if len(fails) >= 4: break
    q.put(dict(contract=c.name, functions=c.functions, runs=runs, skipped=skips, fails=fails, errors=errs[:5],
               clauses=clauses, distinct=len(distinct), sample=sample, seconds=round(time.time() - t0, 2)))

def main(prop, tier, seed, outdir, only=None):
    importlib.import_module('concrete.' + prop.lower())
    cs = [c for c in base.REG.get(prop, []) if not only or c.name in only]
    q = mp.Queue(); todo = list(cs); running = {}; out = []
    import queue as Q
    J = int(os.environ.get('VC_CJOBS', '6'))
    while todo or running:
        while todo and len(running) < J:
            c = todo.pop(0); p = mp.Process(target=work, args=(c, tier, seed, outdir, q)); p.start(); running[c.name] = (p, time.time(), c)
        try:
            r = q.get(timeout=0.2); out.append(r); running.pop(r['contract'])[0].join(2)
        except Q.Empty: pass
        for n, (p, t, c) in list(running.items()):
            over = time.time() - t > limits(c, tier)[1] * 1.5 + 120
            if over or (not p.is_alive() and q.empty()):
                time.sleep(0.3)
                try:
                    r = q.get(timeout=0.2); out.append(r); running.pop(r['contract']); continue
                except Q.Empty: pass
                if p.is_alive(): p.kill()
                p.join(); running.pop(n)
                out.append(dict(contract=n, functions=c.functions, runs=0, skipped=0, fails=[], errors=['ended without a result (%s)' % ('time' if over else 'exit %s' % p.exitcode)], clauses={}, seconds=round(time.time() - t, 1)))
    return out

if __name__ == '__main__':
    prop, tier, seed, outdir = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    r = main(prop, tier, seed, outdir, sys.argv[5:])
    if os.environ.get('VC_SHOW'):
        for x in r:
            print(x['contract'], 'runs', x['runs'], 'skip', x['skipped'], x['seconds'], 's', 'errors', x['errors'])
            if os.environ['VC_SHOW'] > '1': print('    ', x['clauses'])
            for f in x['fails']: print('   FAIL', f['index'], f['failed'][:3])
    else: json.dump(r, sys.stdout)
