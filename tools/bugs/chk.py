"""run the checks of the planted bugs' properties, each against a copy of /repo's sources with the bug applied:
chk.py [id ...]   P=C01,C02 overrides the property"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
for i in ids:
    d = '/verif/seeded/' + i
    props = os.environ.get('P') or json.load(open(d + '/meta.json'))['property']
    t = tempfile.mkdtemp(prefix='chk.')
    try:
        shutil.copytree('/repo/src', t + '/src')
        if subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + t, d + '/patch.diff'], cwd='/').returncode:
            print(i, 'APPLY FAILED')
            continue
        for p in props.split(','):
            s = time.time()
            r = subprocess.run(['python3-vt', 'check.py', p], cwd='/verif', capture_output=True, text=True, timeout=1500,
                               env=dict(os.environ, EREGEX_REPO=t, VERIF_SEED='1', VERIF_TIER='quick'))
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print(i, p, 'rc', r.returncode, '%.0fs' % (time.time() - s), v[:1] or (r.stdout + r.stderr)[-300:], flush=True)
    finally:
        shutil.rmtree(t)
