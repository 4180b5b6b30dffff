"""tools/mut.py FILE OLD NEW CHECK... : runs checks on a copy of /repo in which
the text OLD of jax_sgmc/FILE is replaced by NEW (N-th occurrence: OLD@@N)."""
import os
import shutil
import subprocess
import sys
import tempfile

file, old, new, checks = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
nth = 0
if '@@' in old:
  old, nth = old.rsplit('@@', 1)
  nth = int(nth)
old, new = old.replace('\\n', '\n'), new.replace('\\n', '\n')
tmp = tempfile.mkdtemp(prefix='mcmut.', dir='/tmp')
try:
  shutil.copytree('/repo/jax_sgmc', tmp + '/repo/jax_sgmc')
  path = f'{tmp}/repo/jax_sgmc/{file}'
  s = open(path).read()
  parts = s.split(old)
  assert len(parts) > nth + 1, f'text not found: {old!r}'
  s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
  open(path, 'w').write(s)
  here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
  for c in checks:
    env = dict(os.environ, MC_REPO=tmp + '/repo', MC_NO_EVIDENCE='1')
    r = subprocess.run([here + '/check', c], env=env, capture_output=True,
                       text=True)
    msg = [l for l in r.stdout.splitlines() if '"msg"' in l]
    print(c, 'CAUGHT' if r.returncode == 1 else 'missed' if r.returncode == 0
          else f'ERROR {r.returncode} {r.stderr[-300:]}',
          [l for l in r.stdout.splitlines() if 'wall=' in l][-1:],
          msg[0].strip()[:300] if msg else '')
finally:
  shutil.rmtree(tmp)
