"""python -m concrete.replay_ce PROP OUTDIR < counter-models.json : run the verifier's
counter-models against the real code"""
import sys, json, importlib, os
from . import base
prop, outdir = sys.argv[1], sys.argv[2]
m = importlib.import_module('concrete.' + prop.lower())
out = []
for k, ce in enumerate(json.load(sys.stdin)):
    cs = [c for c in base.REG[prop] if c.name == ce.get('replay')]
    conv = getattr(m, 'from_model', {}).get(ce.get('replay'))
    if not cs or conv is None: out.append(dict(status='no replay', path=None)); continue
    try: inp = conv(ce['inputs'])
    except Exception as e: out.append(dict(status='not convertible: %s' % e, path=None)); continue
    st, failed, r = base.run_one(cs[0], inp)
    path = None
    if st == 'fail':
        path = os.path.join(outdir, '%s_model_%d.json' % (prop, k))
        base.save_replay(cs[0], inp, failed, path, dict(obligation=ce['obligation'], counter_model=ce['inputs']))
    out.append(dict(status=st, failed=failed[:4], path=path))
sys.stdout = sys.__stdout__
json.dump(out, sys.stdout)
