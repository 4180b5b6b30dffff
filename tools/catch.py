"""tools/catch.py [ID...]: runs the check of its property against each planted
bug in seeded/ (in a scratch copy of the sources) and prints which are caught."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
names = sys.argv[1:] or sorted(os.listdir(VERIF + '/seeded'))
for name in names:
  d = f'{VERIF}/seeded/{name}'
  prop = json.load(open(d + '/meta.json'))['property']
  tmp = tempfile.mkdtemp(prefix='mccatch.', dir='/tmp')
  try:
    shutil.copytree('/repo/jax_sgmc', tmp + '/repo/jax_sgmc')
    subprocess.run(['git', 'apply', '--directory=repo', d + '/patch.diff'],
                   cwd=tmp, check=True)
    r = subprocess.run([VERIF + '/check', prop], capture_output=True, text=True,
                       env=dict(os.environ, MC_REPO=tmp + '/repo',
                                MC_NO_EVIDENCE='1'))
    out = r.stdout.splitlines()
    hit = any(l.startswith(f'VIOLATION property={prop} ') for l in out)
    state = ('CAUGHT' if r.returncode == 1 and hit else
             'missed' if r.returncode == 0 else
             f'ERROR {r.returncode} {r.stderr[-300:]}')
    msg = [l for l in out if '"msg"' in l]
    wall = [l for l in out if 'wall=' in l]
    print(name, prop, state, msg[0].strip()[:200] if msg else '',
          wall[-1][-60:] if wall else '', flush=True)
  finally:
    shutil.rmtree(tmp)
