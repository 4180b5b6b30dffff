"""Worker process: runs cases of one check, one JSON line per case."""
import faulthandler
import gc
import importlib
import json
import os
import sys
import threading
import time

_real_lock = threading.Lock


def main():
  prop, tier = sys.argv[1], sys.argv[2]
  # keep the protocol channel separate from everything the code prints
  proto_out = os.fdopen(os.dup(1), 'w', buffering=1)
  proto_in = os.fdopen(os.dup(0), 'r')
  devnull = os.open(os.devnull, os.O_RDWR)
  os.dup2(devnull, 0)
  os.dup2(devnull, 1)
  faulthandler.enable()
  import warnings
  warnings.simplefilter('ignore')
  from mc import core
  module = importlib.import_module(f'mc.checks.{prop.lower()}')
  setup = getattr(module, 'setup', None)
  if setup is not None:
    setup()
  import jax_sgmc
  repo = os.environ.get('MC_REPO', '/repo')
  if not os.path.abspath(jax_sgmc.__file__).startswith(repo + '/'):
    raise SystemExit(f"wrong jax_sgmc: {jax_sgmc.__file__}")
  proto_out.write(json.dumps({'ready': True}) + '\n')
  out_lock = _real_lock()

  def beat():
    # tells apart a slow exploration from one that hangs
    last = None
    while True:
      time.sleep(5)
      now = core.progress()
      if now != last:
        last = now
        with out_lock:
          proto_out.write(json.dumps({'beat': True}) + '\n')
  threading.Thread(target=beat, daemon=True).start()
  n = 0
  for line in proto_in:
    task = json.loads(line)
    t0 = time.time()
    result = core.run_case(module, task['case'], tier, task['known'])
    result['wall'] = time.time() - t0
    result['index'] = task['index']
    with out_lock:
      proto_out.write(json.dumps(result) + '\n')
    n += 1
    if n % 200 == 0:
      gc.collect()


if __name__ == '__main__':
  main()
