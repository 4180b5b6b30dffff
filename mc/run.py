"""Runs one check: python3 -m mc.run C01 [--tier quick|thorough] [--replay F].

Distributes the cases of the check over worker processes, merges the coverage,
writes evidence/<id>.json, and prints VIOLATION / KNOWN-FINDING lines.
"""
import argparse
import importlib
import json
import os
import queue
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = '/opt/venv/bin/python'
REPO = os.environ.get('MC_REPO', '/repo')


def worker_env(module):
  env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH',)}
  env.update({
    'PYTHONPATH': f"{VERIF}:{REPO}", 'PYTHONDONTWRITEBYTECODE': '1',
    'JAX_PLATFORMS': 'cpu', 'TF_CPP_MIN_LOG_LEVEL': '3',
    'PYTHONHASHSEED': '0', 'PYTHONWARNINGS': 'ignore', 'MC_REPO': REPO,
    'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
    'CUDA_VISIBLE_DEVICES': '', 'MC_WORKER': '1', 'PYTHONUNBUFFERED': '1'})
  flags = '--xla_cpu_multi_thread_eigen=false'
  extra = dict(getattr(module, 'ENV', {}))
  env['XLA_FLAGS'] = (flags + ' ' + extra.pop('XLA_FLAGS', '')).strip()
  env.update(extra)
  return env


class Worker:

  def __init__(self, prop, tier, env):
    self.proc = subprocess.Popen(
      [PYTHON, '-m', 'mc.worker', prop, tier], cwd=VERIF, env=env,
      stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
      text=True, start_new_session=True)
    self.lines = queue.Queue()
    self.err = []
    threading.Thread(target=self._read, daemon=True).start()
    threading.Thread(target=self._read_err, daemon=True).start()

  def _read(self):
    for line in self.proc.stdout:
      self.lines.put(line)
    self.lines.put(None)

  def _read_err(self):
    for line in self.proc.stderr:
      self.err.append(line)
      del self.err[:-60]

  def get(self, timeout):
    """Result, 'timeout' or 'dead'."""
    try:
      line = self.lines.get(timeout=timeout)
    except queue.Empty:
      return 'timeout'
    if line is None:
      return 'dead'
    return json.loads(line)

  def send(self, task):
    try:
      self.proc.stdin.write(json.dumps(task) + '\n')
      self.proc.stdin.flush()
      return True
    except (BrokenPipeError, OSError):
      return False

  def close(self):
    try:
      self.proc.kill()
    except OSError:
      pass
    self.proc.wait()


class Run:

  def __init__(self, prop, tier, cases, module, known, jobs, budget):
    self.prop, self.tier, self.cases, self.module = prop, tier, cases, module
    self.known, self.jobs, self.budget = known, jobs, budget
    self.env = worker_env(module)
    self.timeout = getattr(module, 'CASE_TIMEOUT', 240)
    self.lock = threading.Lock()
    self.next = 0
    self.results = {}
    self.violations = {}
    self.errors = []
    self.start = time.time()
    self.capped = False

  def take(self):
    with self.lock:
      if self.violations or self.errors:
        return None
      if time.time() - self.start > self.budget:
        if self.next < len(self.cases):
          self.capped = True
        return None
      if self.next >= len(self.cases):
        return None
      self.next += 1
      return self.next - 1

  def loop(self):
    worker = None
    try:
      while True:
        idx = self.take()
        if idx is None:
          return
        failures = []
        for _attempt in range(2):
          if worker is None:
            worker = Worker(self.prop, self.tier, self.env)
            ready = worker.get(300)
            if not isinstance(ready, dict):
              failures.append(('start', ready, ''.join(worker.err[-30:])))
              worker.close()
              worker = None
              continue
          worker.send({'index': idx, 'case': self.cases[idx],
                       'known': self.known})
          res = worker.get(self.timeout)
          while isinstance(res, dict) and 'beat' in res:
            if time.time() - self.start > self.budget + 60:
              res = 'slow'
              break
            res = worker.get(self.timeout)
          if res == 'slow':
            # The exploration proceeds, but there is no time left to finish it
            self.capped = True
            failures = []
            worker.close()
            worker = None
            break
          if isinstance(res, dict):
            with self.lock:
              self.results[idx] = res
              if res['violation']:
                self.violations[idx] = res['violation']
            failures = []
            break
          failures.append(('case', res, ''.join(worker.err[-30:])))
          worker.close()
          worker = None
        if failures:
          with self.lock:
            where, kind, err = failures[-1]
            what = ('does not terminate' if kind == 'timeout'
                    else 'ends the process')
            if where == 'start':
              what = 'cannot be imported / started'
            self.violations[idx] = {
              'msg': f"exploration of the case {what} ({kind})",
              'key': f"{where}:{kind}", 'detail': {'stderr': err[-3000:]}}
    finally:
      if worker is not None:
        worker.close()

  def run(self):
    threads = [threading.Thread(target=self.loop)
               for _ in range(min(self.jobs, max(1, len(self.cases))))]
    for t in threads:
      t.start()
    for t in threads:
      t.join()


def load_known(prop):
  keys, path = {}, os.path.join(VERIF, 'known_findings.jsonl')
  if os.path.exists(path):
    with open(path) as f:
      for line in f:
        line = line.strip()
        if not line or line.startswith('#') or line.startswith('fixed:'):
          continue
        entry = json.loads(line)
        if entry['property'] == prop:
          keys[entry['key']] = entry['what']
  return keys


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                  choices=['quick', 'thorough'])
  ap.add_argument('--replay')
  ap.add_argument('--jobs', type=int, default=int(os.environ.get('MC_JOBS', 8)))
  ap.add_argument('--only', help='index of a single case or mode of the cases')
  ap.add_argument('--budget', type=float)
  ap.add_argument('--profile', type=int, default=0)
  args = ap.parse_args()
  prop, tier = args.prop, args.tier
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  sys.path.insert(0, VERIF)
  module = importlib.import_module(f'mc.checks.{prop.lower()}')
  known = load_known(prop)
  t0 = time.time()
  if args.replay:
    with open(args.replay) as f:
      rep = json.load(f)
    tier = rep.get('tier', tier)
    cases = [rep['case']]
  else:
    cases = module.cases(tier)
    if args.only is not None:
      cases = [cases[int(args.only)]] if args.only.isdigit() else [
        c for c in cases if c.get('mode') == args.only]
  # in the quick tier, stay below the limit of 900 s in any environment
  budget = args.budget or (getattr(module, 'BUDGET', 660) if tier == 'quick'
                           else 4 * 3600)
  r = Run(prop, tier, cases, module, list(known), args.jobs, budget)
  r.run()
  wall = time.time() - t0

  states, outcomes, notes, seen_known, samples = set(), set(), {}, {}, []
  transitions = traces = schedules = 0
  for idx in sorted(r.results):
    res = r.results[idx]
    states.update(res['states'])
    outcomes.update(res['outcomes'])
    transitions += res['transitions']
    traces += res['traces']
    schedules += res['schedules']
    seen_known.update(res['known'])
    for k, v in res['notes'].items():
      notes[k] = notes.get(k, 0) + v
    if len(samples) < 6 and idx % max(1, len(cases) // 6) == 0:
      samples.append({'case': cases[idx], 'histories': res['samples'][:2]})
  info = getattr(module, 'INFO', {})
  level = getattr(module, 'LEVEL', 'model_checking')
  coverage = {
    'states': len(states), 'transitions': transitions,
    'traces_validated_against_impl': traces,
    'evaluations': len(r.results),
    'samples': samples or [{'case': c} for c in cases[:1]],
    'cases_total': len(cases), 'cases_completed': len(r.results),
    'exhaustive': bool(not r.capped and not r.violations and
                       len(r.results) == len(cases)),
    'distinct_outcomes': len(outcomes),
    'rule': info.get('rule', ''), 'bounds': info.get('bounds', {}).get(tier, '')
    if isinstance(info.get('bounds'), dict) else info.get('bounds', '')}
  if schedules:
    coverage['schedules'] = schedules
  if r.capped:
    coverage['cap'] = (f"time cap of {budget:.0f} s reached: "
                       f"{len(r.results)} of {len(cases)} cases completed")
  if notes:
    coverage['counts'] = notes
  evidence = {
    'property': prop, 'tier': tier, 'seed': seed, 'level': level,
    'coverage': coverage, 'assumptions': info.get('assumptions', []),
    'wall_s': round(wall, 2), 'violations': len(r.violations)}
  if (not args.replay and args.only is None
      and not os.environ.get('MC_NO_EVIDENCE')):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
      json.dump(evidence, f, indent=1)
  for key in sorted(seen_known):
    print(f"KNOWN-FINDING: property={prop} {known.get(key, key)}")
  print(f"{prop} tier={tier} cases={len(r.results)}/{len(cases)} "
        f"states={len(states)} transitions={transitions} traces={traces} "
        f"schedules={schedules} outcomes={len(outcomes)} wall={wall:.1f}s"
        f"{' CAPPED' if r.capped else ''}")
  if args.profile:
    for idx in sorted(r.results, key=lambda i: -r.results[i]['wall'])[:args.profile]:
      print(f"{r.results[idx]['wall']:7.1f}s {cases[idx]}")
  if r.violations:
    idx = min(r.violations)
    v = r.violations[idx]
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(
      rdir, f"{prop}{'.mut' if os.environ.get('MC_NO_EVIDENCE') else ''}.json")
    with open(path, 'w') as f:
      json.dump({'property': prop, 'tier': tier, 'case': cases[idx],
                 'violation': v,
                 'command': f"python3 -m mc.run {prop} --replay {path}"},
                f, indent=1)
    print(json.dumps({'case': cases[idx], 'violation': v}, indent=1)[:6000])
    print(f"VIOLATION property={prop} replay={path}")
    return 1
  return 0


if __name__ == '__main__':
  sys.exit(main())
