"""tools/seed.py SPEC.py [--no-tests] [ID...]: builds planted bugs.

SPEC.py defines SEEDS = {id: dict(property, needs, breaks, edits=[(file, old,
new)], demo=python source)}. For each one a scratch copy of /repo is patched,
the demonstration is run with and without the patch (and with a comment and a
no-op), and the stable tests are run. Confirmed ones are stored in seeded/<id>.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# Exits 0 if the property holds for this history, nonzero otherwise.
export JAX_PLATFORMS=cpu PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
export TF_CPP_MIN_LOG_LEVEL=3 PYTHONWARNINGS=ignore
exec timeout 250 /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def sh(cmd, **kw):
  return subprocess.run(cmd, capture_output=True, text=True, **kw)


def build(name, spec, tests=True):
  tmp = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
  repo = tmp + '/repo'
  try:
    sh(['cp', '-a', '/repo', repo])
    demo = tmp + '/demo'
    os.mkdir(demo)
    open(demo + '/demo.py', 'w').write(spec['demo'])
    open(demo + '/demo.sh', 'w').write(DEMO_SH)
    os.chmod(demo + '/demo.sh', 0o755)
    r = sh(['bash', demo + '/demo.sh'], cwd=repo)
    if r.returncode != 0:
      return f'{name}: demo fails on the unchanged tree: {r.stdout[-300:]}{r.stderr[-700:]}'
    for file, old, new in spec['edits']:
      path = f'{repo}/jax_sgmc/{file}'
      s = open(path).read()
      nth = 0
      if '@@' in old:
        old, nth = old.rsplit('@@', 1)
        nth = int(nth)
      parts = s.split(old)
      if len(parts) < nth + 2:
        return f'{name}: text not found {old!r}'
      s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
      open(path, 'w').write(s)
    diff = sh(['git', '-C', repo, 'diff']).stdout
    # Removed lines must be original ones
    own = set(sh(['git', '-C', '/repo', 'log', '--format=%h', '642028e..HEAD']).stdout.split())
    warn = ''
    for file, old, new in spec['edits']:
      bl = sh(['git', '-C', '/repo', 'blame', '-s', 'jax_sgmc/' + file]).stdout
      removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
      for l in bl.splitlines():
        h, rest = l.split(' ', 1)
        text = l.split(') ', 1)[1] if ') ' in l else ''
        if text.strip() and text in removed and any(h.startswith(o[:7]) for o in own):
          warn += f' [own line: {text.strip()[:50]}]'
    r = sh(['bash', demo + '/demo.sh'], cwd=repo)
    if r.returncode == 0:
      return f'{name}: demo passes with the patch {r.stdout[-300:]}'
    msg = (r.stdout + r.stderr).strip().splitlines()[-1][:200]
    if tests:
      script = open('/opt/vp/test.sh').read().replace(
        'cd /repo', f'cd {repo}').replace('-n 8', '-n 2').replace(
        '--timeout=120', '--timeout=900')
      open(tmp + '/test.sh', 'w').write(script)
      sh(['bash', tmp + '/test.sh', tmp + '/o.json'])
      ok = set(json.load(open(tmp + '/o.json'))['passed'])
      stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
      lost = [t for t in stable if t not in ok]
      if lost:
        return f'{name}: breaks the tests {lost[:4]} ({len(lost)})'
    dst = f'{VERIF}/seeded/{name}'
    os.makedirs(dst, exist_ok=True)
    open(dst + '/patch.diff', 'w').write(diff)
    shutil.copy(demo + '/demo.py', dst)
    shutil.copy(demo + '/demo.sh', dst)
    json.dump({'property': spec['property'], 'needs': spec['needs'],
               'what_it_breaks': spec['breaks']},
              open(dst + '/meta.json', 'w'), indent=1)
    return f'{name}: OK{warn} ({msg})'
  except Exception as e:
    return f'{name}: ERROR {e!r}'
  finally:
    shutil.rmtree(tmp)


if __name__ == '__main__':
  args = sys.argv[1:]
  tests = '--no-tests' not in args
  args = [a for a in args if a != '--no-tests']
  ns = {}
  exec(open(args[0]).read(), ns)
  names = args[1:] or list(ns['SEEDS'])
  with ThreadPoolExecutor(4) as pool:
    for res in pool.map(lambda n: build(n, ns['SEEDS'][n], tests), names):
      print(res, flush=True)
