#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

1. proof: the verifier (vc/, python3-vt) generates the obligations of the property from
   the current source of /repo and discharges them (z3, cvc5).
2. run-time contracts (concrete/, CPython of the repository): the same contracts on the
   real code, which replays the verifier's counter-models and stands in, bounded, for
   what is not proved.
Exit 0: held on everything explored.  Exit 1 with a VIOLATION line otherwise."""
import sys, os, json, subprocess, time, hashlib, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
VENV, VT = '/opt/venv/bin/python', 'python3-vt'
REPO = os.environ.get('VC_REPO', '/repo')

def env():
    e = dict(os.environ)
    e.update(OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1',
             PYTHONPATH=HERE, VC_REPO=REPO, MPLBACKEND='Agg')
    e.setdefault('NUMBA_CACHE_DIR', '/tmp/numba_cache_vc_%d' % os.getuid())
    return e

def tree_ast():
    "hash of the syntax tree of every source file (comments and layout do not count)"
    import ast
    d = {}
    for top, _, fs in os.walk(os.path.join(REPO, 'py', 'redrock')):
        if '/test' in top: continue
        for f in fs:
            if not f.endswith('.py') or f == '_version.py': continue
            p = os.path.join(top, f)
            try: t = ast.dump(ast.parse(open(p).read()))
            except SyntaxError: t = 'syntax error'
            d[os.path.relpath(p, REPO)] = hashlib.sha256(t.encode()).hexdigest()[:20]
    return d

def run(cmd, timeout, inp=None, extra=None):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=HERE, env=dict(env(), **(extra or {})), input=inp)
        i = p.stdout.find('[')
        if p.returncode != 0 or i < 0:
            return None, 'exit %s: %s' % (p.returncode, (p.stderr or p.stdout)[-600:])
        # the document is the last line
        line = p.stdout.strip().split('\n')[-1]
        return json.loads(line), ''
    except subprocess.TimeoutExpired: return None, 'timeout'
    except ValueError as e: return None, 'bad output: %s' % e

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ev_dir = os.environ.get('VC_EVIDENCE') or os.path.join(HERE, 'evidence'); out = os.path.join(ev_dir, 'replay')
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(out):
        if f.startswith(prop + '_'): os.unlink(os.path.join(out, f))
    t0 = time.time()
    lim = 640 if tier == 'quick' else 6 * 3600
    # effort follows the change: the tree the proofs were made for is recorded in baseline.json
    base = json.load(open(os.path.join(HERE, 'baseline.json'))) if os.path.exists(os.path.join(HERE, 'baseline.json')) else {}
    now = tree_ast()
    changed = {f for f in set(base) | set(now) if base.get(f) != now.get(f)}
    effort = {'VC_EFFORT': '4' if changed else '1'}
    has_proof = os.path.exists(os.path.join(HERE, 'proofs', prop.lower() + '.py'))
    has_conc = os.path.exists(os.path.join(HERE, 'concrete', prop.lower() + '.py'))
    with cf.ThreadPoolExecutor(2) as ex:
        fp = ex.submit(run, [VT, '-m', 'vc.prove', prop, tier], lim) if has_proof else None
        fc = ex.submit(run, [VENV, '-m', 'concrete.run', prop, tier, str(seed), out], lim, None, effort) if has_conc else None
        proofs, perr = fp.result() if fp else ([], '')
        conc, cerr = fc.result() if fc else ([], '')
    known = [k for k in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings'] if k['property'] == prop] \
        if os.path.exists(os.path.join(HERE, 'known_findings.json')) else []
    known = [k for k in known if k.get('status') == 'known']
    violations, notes = [], []
    # --- run-time contracts
    for c in conc or []:
        for f in c['fails']:
            cl = [x[0] for x in f['failed']]
            kf = [k for k in known if k['contract'] == c['contract'] and set(cl) <= set(k['clauses'])]
            if kf: continue
            violations.append((f['path'], False, '%s: %s' % (c['contract'], '; '.join('%s (%s)' % tuple(x) for x in f['failed'][:3]))))
        for e in c['errors']: notes.append('contract %s could not be evaluated: %s' % (c['contract'], e))
    if conc is None: notes.append('run-time contracts did not finish: ' + cerr)
    if proofs is None: notes.append('proof did not finish: ' + perr)
    # --- counter-models of refuted obligations, replayed on the real code
    ces = [dict(ce, proof=p['proof']) for p in proofs or [] for ce in p['counterexamples']]
    replayed = []
    if ces:
        replayed, e = run([VENV, '-m', 'concrete.replay_ce', prop, out], 300, json.dumps(ces, default=str))
        replayed = replayed or []
        for ce, r in zip(ces, replayed):
            if r.get('path'): violations.append((r['path'], False, 'obligation "%s" of %s, counter-model replayed' % (ce['obligation'], ce['proof'])))
    weak = []
    def definite_(p, bad, ce):
        loose = p.get('loose') or []
        return (ce and not loose) or (bad and not p['loops'] and not loose and not p['bounded'].get('sizes'))
    for p in proofs or []:
        bad = [o for o in p['obligations'] if o['status'] == 'refuted' and o['kind'] != 'invariant' and '(abstract' not in o['why']]
        # a counter-model counts when it is definite: either found quantifier-free in the
        # bounded reading of the function or reported by the solver for the obligation itself
        ce = [c for c in p['counterexamples'] if c['kind'] not in ('invariant',) and not c.get('abstract')]
        failed = [o for o in p['obligations'] if o['status'] != 'valid']
        mine = changed & {os.path.relpath(x, REPO) for x in p.get('sources', [])}
        moved = p.get('reshaped')
        if failed and not p['unsupported'] and mine and moved and not definite_(p, bad, ce):
            # the invariants were written for other loops: that they fail says nothing about the function
            notes.append('undecided by proof: %s (the loop(s) %s were removed or restructured and the invariants no longer apply)' % (p['proof'], ', '.join(moved)))
            continue
        if failed and not p['unsupported'] and mine and not definite_(p, bad, ce):
            # the verifier no longer accepts a function it accepted: try once more with more time, then report
            left = (880 if tier == 'quick' else 3600) - (time.time() - t0)
            if not weak and not violations and all(o['status'] == 'unknown' for o in failed) and left > 120:   # (once there is something to report, more effort cannot change the answer)
                again, _ = run([VT, '-m', 'vc.prove', prop, tier, p['proof']], min(left - 60, 300), None, {'VC_SCALE': '3'})
                if again:
                    failed = [o for o in again[0]['obligations'] if o['status'] != 'valid'] if not again[0]['unsupported'] else failed
                    if again[0]['status'] == 'proved': p.update(again[0]); continue
            path = os.path.join(out, '%s_obligation_%s.json' % (prop, p['proof']))
            json.dump(dict(property=prop, proof=p['proof'], functions=p['functions'], changed_files=sorted(mine),
                           failed_obligations=[dict(name=o['name'], kind=o['kind'], status=o['status'], solver=o['backend'], reason=o['why']) for o in failed],
                           note='the verifier does not accept these obligations generated from the current source; no failing input was found'),
                      open(path, 'w'), indent=1, default=str)
            weak.append((path, True, 'obligation(s) not discharged in %s: %s' % (p['proof'], ', '.join('%s [%s]' % (o['name'], o['status']) for o in failed)[:400])))
            continue
        definite = definite_(p, bad, ce)
        if definite and p['status'] != 'proved':
            path = os.path.join(out, '%s_obligation_%s.json' % (prop, p['proof']))
            json.dump(dict(property=prop, proof=p['proof'], functions=p['functions'],
                           failed_obligations=[dict(name=o['name'], kind=o['kind'], solver=o['backend'], reason=o['why']) for o in bad],
                           counter_models=ce, unsupported=p['unsupported'],
                           note='the verifier refuted these obligations generated from the current source; replay: %s' % json.dumps([r.get('status') for r in replayed])),
                      open(path, 'w'), indent=1, default=str)
            if not any(not nf for _, nf, _ in violations):
                violations.append((path, True, 'obligation(s) refuted: ' + ', '.join(sorted({o['name'] for o in bad} | {c['obligation'] for c in ce}))))
        elif p['status'] != 'proved':
            notes.append('undecided by proof: %s (%s)' % (p['proof'], p['unsupported'] or ', '.join('%s: %s' % (o['name'], o['status']) for o in p['obligations'] if o['status'] != 'valid')[:300]))
    notes += ['not accepted by the verifier: ' + w for _, _, w in weak]
    if not violations: violations = weak
    answered = any(c['runs'] > c['skipped'] and not (c['errors'] and not c['clauses']) for c in conc or []) or \
        (proofs and all(p['status'] == 'proved' for p in proofs))
    # --- evidence
    obs = [o for p in proofs or [] for o in p['obligations']]
    disc = [o for o in obs if o['status'] == 'valid']
    import importlib.util
    meta = json.load(open(os.path.join(HERE, 'trusted.json')))
    try:
        commit = subprocess.run(['git', '-C', REPO, 'rev-parse', 'HEAD'], capture_output=True, text=True).stdout.strip()
    except Exception: commit = ''
    src = {}
    for p in proofs or []:
        for s in p.get('sources', []):
            if os.path.exists(s): src[os.path.relpath(s, REPO)] = hashlib.sha256(open(s, 'rb').read()).hexdigest()[:16]
    runs = sum(c['runs'] for c in conc or [])
    man = [c for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks'] if c['property'] == prop] if os.path.exists(os.path.join(HERE, 'MANIFEST.json')) else []
    level = man[0]['level'] if man else 'proof'
    ev = dict(property=prop, tier=tier, seed=seed, level=level, result='violation' if violations else 'held' if answered else 'no answer',
              wall_s=round(time.time() - t0, 1), tree=commit, assumptions=meta['engine'] + meta['properties'].get(prop, []),
              coverage=dict(
                  obligations=len(obs), discharged=len(disc),
                  checker_cmd='python3-vt -m vc.prove %s %s (run by: python /verif/check.py %s %s)' % (prop, tier, prop, tier),
                  trusted_base=meta['engine'] + meta['properties'].get(prop, []),
                  evaluations=runs, distinct_nontrivial=sum(c.get('distinct', 0) for c in conc or []),
                  rule='inputs come from the generator of each run-time contract (seeded); one counts when it lies inside the precondition and at least one clause of the postcondition was evaluated on the real code; inputs are told apart by their pickled value',
                  samples=[c['sample'] for c in conc or [] if c.get('sample')][:4],
                  bound='; '.join('%s: %d generated inputs' % (c['contract'], c['runs']) for c in conc or []) or 'none',
                  functions_under_contract=sorted({f for p in proofs or [] for f in p['functions']}),
                  proofs=[dict(proof=p['proof'], functions=p['functions'], status=p['status'], undecided_because=p['unsupported'],
                               obligations=len(p['obligations']), discharged=sum(o['status'] == 'valid' for o in p['obligations']),
                               obligation_instances=sum(o['instances'] for o in p['obligations']),
                               backends=sorted({b for o in p['obligations'] for b in o['backend'].split('+') if b}),
                               solver_seconds=round(sum(o['seconds'] for o in p['obligations']), 2),
                               loops_cut_at_invariants=p['loops'], paths=p['paths'], reachability_covers=p.get('covers', {}),
                               bounded_counterexample_search=p['bounded'],
                               names=[o['name'] + (' [%s]' % o['status'] if o['status'] != 'valid' else '') for o in p['obligations']])
                          for p in proofs or []],
                  bounded_runtime_contracts=[dict(contract=c['contract'], functions=c['functions'], inputs=c['runs'], outside_precondition=c['skipped'],
                                                  clauses=c['clauses'], seconds=c['seconds'], label='bounded: never counted as proved') for c in conc or []],
                  source_hashes=src, notes=notes),
              violations=len(violations), violation_details=[dict(replay=p, no_failing_input=nf, what=w) for p, nf, w in violations],
              known_findings=[k['what'] for k in known])
    json.dump(ev, open(os.path.join(ev_dir, prop + '.json'), 'w'), indent=1, default=str)
    for k in known: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    print('%s: %d/%d obligations discharged in %d proofs; %d run-time contract evaluations; %.1f s' % (prop, len(disc), len(obs), len(proofs or []), runs, time.time() - t0))
    for n in notes: print('note:', n)
    if violations:
        for p, nf, w in violations[:6]: print('failed:', w)
        p, nf, w = violations[0]
        print('VIOLATION property=%s replay=%s%s' % (prop, p, ' no-failing-input-found' if nf else ''))
        sys.exit(1)
    if not answered:
        print('no answer: neither the proof nor any run-time contract could be evaluated'); sys.exit(2)
    sys.exit(0)
if sys.argv[1] == '--baseline':
    # record the syntax trees of the current source (after the proofs have been accepted on it)
    json.dump(tree_ast(), open(os.path.join(HERE, 'baseline.json'), 'w'), indent=1, sort_keys=True)
    sys.path.insert(0, HERE)
    from vc import loops
    loops.record(os.path.join(REPO, 'py', 'redrock'), REPO)
else: main()
