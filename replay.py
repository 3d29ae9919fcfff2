#!/usr/bin/env python3
"""replay.py FILE: run the recorded input against the real code and show which contract
clauses fail.  Exit 1 when the failure shows again, 0 when it does not."""
import sys, os, json
if sys.executable != '/opt/venv/bin/python' and os.path.exists('/opt/venv/bin/python'):
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv)
here = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, here)
d = json.load(open(sys.argv[1]))
if 'input_pickle' not in d:
    print(json.dumps(d, indent=1)); sys.exit(0)
from concrete import base
import importlib, pickle, base64
importlib.import_module('concrete.' + d['property'].lower())
c = [c for c in base.REG[d['property']] if c.name == d['contract']][0]
st, failed, r = base.run_one(c, pickle.loads(base64.b64decode(d['input_pickle'])))
print(st)
for f in failed: print('  failed clause: %s   %s' % tuple(f))
sys.exit(1 if st == 'fail' else 0)
