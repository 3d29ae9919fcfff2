"""Nothing to build: the machinery is Python and re-reads /repo's current source on every run.
Only checks that the tools it needs are there."""
import subprocess, sys
for cmd in (['/opt/venv/bin/python', '-c', 'import numpy, scipy, numba, astropy'],
            ['python3-vt', '-c', 'import z3, numpy, scipy']):
    r = subprocess.run(cmd)
    if r.returncode: sys.exit('missing tool: %s' % cmd)
print('ok')
