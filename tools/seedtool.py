"""Make planted bugs: for each entry of a Python file of seeds (list SEEDS of dicts id, property, file,
edits [(old, new)…], needs, breaks, demo) apply it in a scratch copy of /repo, check that the tests still
pass, that demo passes without and fails with it, and store it under /verif/seeded/<id>/.
Usage: seedtool.py FILE [id…]"""
import sys, os, json, subprocess, shutil, tempfile, textwrap, concurrent.futures as cf
PY = '/opt/venv/bin/python'
BASE = json.load(open('/opt/vp/BASELINE.json'))
SH = '#!/bin/bash\nexport PYTHONPATH=py OMP_NUM_THREADS=1\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
HEAD = '''import sys, os
import numpy as np
import warnings; warnings.simplefilter('ignore')
def check(c, msg):
    if not c: print('FAIL', msg); sys.exit(1)
'''
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)

def one(s):
    d = tempfile.mkdtemp(prefix='seed_'); r = d + '/repo'
    try:
        shutil.copytree('/repo', r, symlinks=True)
        sh('git checkout -q -- . && git clean -fdq', r)
        t = d + '/seed'; os.makedirs(t)
        open(t + '/demo.sh', 'w').write(SH); os.chmod(t + '/demo.sh', 0o755)
        open(t + '/demo.py', 'w').write(HEAD + textwrap.dedent(s['demo']))
        a = sh('bash %s/demo.sh' % t, r)
        if a.returncode: return s['id'], 'demo FAILS on clean: ' + a.stdout[-400:] + a.stderr[-800:]
        for f, old, new in [(e[0], e[1], e[2]) if len(e) == 3 else (s['file'],) + tuple(e) for e in s['edits']]:
            p = r + '/py/redrock/' + f; x = open(p).read()
            if x.count(old) != 1: return s['id'], 'old text found %d times: %s' % (x.count(old), old[:60])
            open(p, 'w').write(x.replace(old, new))
        diff = sh('git diff', r).stdout
        # touched original lines?
        b = sh('bash %s/demo.sh' % t, r)
        if b.returncode == 0: return s['id'], 'demo PASSES with the bug'
        if 'FAIL' not in b.stdout: print('  note', s['id'], 'demo crashed:', b.stderr[-300:])
        te = sh('export PYTHONPATH=$PWD/py; /opt/venv/bin/python -m pytest -q -p no:cacheprovider 2>&1 | tail -15', r)
        fails = [l.split('::')[-1].split(' ')[0] for l in te.stdout.splitlines() if l.startswith('FAILED')]
        summ = te.stdout.strip().splitlines()[-1] if te.stdout.strip() else te.stderr[-300:]
        if not summ.startswith('3 failed, 37 passed'): return s['id'], 'tests: ' + summ + ' ' + ' '.join(fails)
        o = '/verif/seeded/' + s['id']
        shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
        for f in ('demo.sh', 'demo.py'): shutil.copy(t + '/' + f, o + '/' + f)
        open(o + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(o + '/meta.json', 'w'), indent=1)
        return s['id'], 'ok (%s)' % b.stdout.strip()[-100:]
    finally: shutil.rmtree(d, ignore_errors=True)

if __name__ == '__main__':
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    S = [s for s in ns['SEEDS'] if not sys.argv[2:] or s['id'] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(6) as ex:
        for i, r in ex.map(one, S): print(i, r, flush=True)
