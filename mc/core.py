"""Common parts of all checks: context, violations, comparison helpers.

A check module (mc/checks/cXX.py) defines

  PROPERTY   id of the property
  cases(tier)      list of JSON-serialisable case descriptions; each case is one
                   bounded sub-space that `run` explores exhaustively
  run(case, ctx)   explores the sub-space on the real code; calls ctx.fail (or
                   lets an exception of the code under test escape)
  INFO       dict(rule=..., bounds=..., assumptions=[...])
  ENV        optional environment variables of the worker processes
"""
import hashlib
import json
import os
import traceback

import numpy as onp


class Violation(Exception):
  def __init__(self, msg, key=None, detail=None):
    super().__init__(msg)
    self.msg = msg
    self.key = key
    self.detail = detail


def _digest(obj):
  return int.from_bytes(hashlib.blake2b(
    repr(obj).encode(), digest_size=8).digest(), 'big')


CURRENT = []
RUNS = [0]


def progress():
  """Changes while the exploration of the current case proceeds."""
  if not CURRENT:
    return None
  ctx = CURRENT[0]
  return (id(ctx), RUNS[0], ctx.transitions, ctx.traces, ctx.schedules, len(ctx.states),
          len(ctx.outcomes))


class Ctx:
  """Counts what has been explored while a case is running."""

  def __init__(self, case, tier):
    self.case = case
    self.tier = tier
    self.transitions = 0
    self.traces = 0
    self.schedules = 0
    self.states = set()
    self.outcomes = set()
    self.samples = []
    self.known = {}
    self.notes = {}
    self.history = None
    self.known_keys = set()
    # limit of the tolerances (C24)
    self.precision = None

  # -- coverage -----------------------------------------------------------
  def step(self, n=1):
    self.transitions += n

  def state(self, *obs):
    """Registers a distinct (observed) state of the explored system."""
    self.states.add(_digest(obs))

  def outcome(self, obs):
    self.outcomes.add(_digest(obs))

  def trace(self, history=None, steps=None):
    """One complete history has been executed and compared."""
    self.traces += 1
    if steps:
      self.transitions += steps
    if history is not None and len(self.samples) < 2:
      self.samples.append(short(history, 300))

  def note(self, name, n=1):
    self.notes[name] = self.notes.get(name, 0) + n

  # -- verdicts -----------------------------------------------------------
  def fail(self, msg, key=None, **detail):
    """Reports a violation.

    With a key, the violation is identified as a specific failure. If this
    failure is listed as known finding, the exploration continues.
    """
    if key is not None and key in self.known_keys:
      self.known[key] = short(msg, 500)
      return
    if self.history is not None:
      detail.setdefault('history', self.history)
    raise Violation(msg, key, detail)

  def check(self, cond, msg, key=None, **detail):
    if not cond:
      self.fail(msg() if callable(msg) else msg, key, **detail)

  def equal(self, got, want, what, **detail):
    """Exact comparison of pytrees of arrays (value, shape)."""
    why = tree_diff(got, want)
    if why is not None:
      self.fail(f"{what}: {why}", got=short(got), want=short(want), **detail)

  def close(self, got, want, what, rtol=2e-4, atol=2e-5, **detail):
    if self.precision is not None:
      rtol, atol = min(rtol, self.precision), min(atol, self.precision / 10)
    why = tree_diff(got, want, rtol=rtol, atol=atol)
    if why is not None:
      self.fail(f"{what}: {why}", got=short(got), want=short(want), **detail)


def short(obj, n=400):
  s = obj if isinstance(obj, str) else repr(obj)
  return s if len(s) <= n else s[:n] + '...'


def tree_diff(got, want, rtol=None, atol=None, dtype=False):
  """None if the trees are equal, otherwise a description of the difference."""
  from jax import tree_util
  gl, gt = tree_util.tree_flatten(got)
  wl, wt = tree_util.tree_flatten(want)
  if gt != wt:
    return f"tree structure {gt} instead of {wt}"
  for i, (g, w) in enumerate(zip(gl, wl)):
    g, w = onp.asarray(g), onp.asarray(w)
    if g.shape != w.shape:
      return f"leaf {i}: shape {g.shape} instead of {w.shape}"
    if dtype and g.dtype != w.dtype:
      return f"leaf {i}: dtype {g.dtype} instead of {w.dtype}"
    if g.dtype == object or w.dtype == object:
      if not (g == w).all():
        return f"leaf {i}: {g} instead of {w}"
    elif rtol is None:
      if g.dtype.name == 'bfloat16':
        g, w = g.astype(onp.float32), w.astype(onp.float32)
      if not onp.array_equal(g, w, equal_nan=g.dtype.kind in 'fc' and
                             w.dtype.kind in 'fc'):
        return f"leaf {i}: {short(g)} instead of {short(w)}"
    else:
      if not onp.allclose(onp.asarray(g, dtype=onp.float64),
                          onp.asarray(w, dtype=onp.float64),
                          rtol=rtol, atol=atol, equal_nan=True):
        return f"leaf {i}: {short(g)} instead of {short(w)}"
  return None


def in_repo(filename):
  return '/jax_sgmc/' in filename


def run_case(module, case, tier, known_keys):
  """Runs one case, returns a JSON-serialisable result."""
  ctx = Ctx(case, tier)
  ctx.known_keys = set(known_keys)
  CURRENT[:] = [ctx]
  violation = None
  try:
    module.run(case, ctx)
  except Violation as v:
    violation = {'msg': v.msg, 'key': v.key,
                 'detail': {k: short(x, 2000) for k, x in (v.detail or {}).items()}}
  except BaseException as err:  # pylint: disable=broad-except
    if isinstance(err, (KeyboardInterrupt, MemoryError)):
      raise
    key = f"exception:{type(err).__name__}"
    violation = {
      'msg': f"unexpected {type(err).__name__}: {short(str(err), 800)}",
      'key': key,
      'detail': {'traceback': short(traceback.format_exc()[-3000:], 3000),
                 'history': short(ctx.history)}}
  return {'violation': violation, 'known': ctx.known,
          'transitions': ctx.transitions, 'traces': ctx.traces,
          'schedules': ctx.schedules, 'states': sorted(ctx.states),
          'outcomes': sorted(ctx.outcomes), 'samples': ctx.samples,
          'notes': ctx.notes}


def product_dicts(**axes):
  import itertools
  names = list(axes)
  return [dict(zip(names, vals)) for vals in itertools.product(*axes.values())]


def explore(run, max_runs=None):
  """Executes run(choose) for all sequences of choices (depth first).

  choose(n) returns one of the n alternatives. Returns the number of executed
  histories (the exploration is complete unless max_runs is given and reached).
  """
  prefix, runs = [], 0
  while True:
    taken = []

    def choose(n):
      pos = len(taken)
      # clamp: only relevant if the code under test is not deterministic
      val = min(prefix[pos], n - 1) if pos < len(prefix) else 0
      taken.append([val, n])
      return val
    run(choose)
    runs += 1
    RUNS[0] += 1
    while taken and taken[-1][0] + 1 >= taken[-1][1]:
      taken.pop()
    if not taken or (max_runs is not None and runs >= max_runs):
      return runs
    taken[-1][0] += 1
    prefix = [val for val, _ in taken]
