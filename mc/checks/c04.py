"""C04: refreshes of replicated and outdated data states."""
import gc
import math
import warnings
import weakref

if __import__('os').environ.get('MC_WORKER'):
  from mc import sched
  sched.install()
from mc.lib import *

PROPERTY = 'C04'
ENV = {'XLA_FLAGS': '--xla_force_host_platform_device_count=8'}
INFO = {
  'rule': ('explicit-state exploration: all orders of draws of up to four '
           'replicas including returns to outdated states are executed on the '
           'real batch functions and compared with a model of the request '
           'protocol (block of batches, error, warning and number of calls of '
           'the data loader); and all schedules of concurrently drawing '
           'threads up to a preemption bound under a controlled scheduler '
           '(preemption before each source line of jax_sgmc executed by the '
           'host callbacks)'),
  'bounds': {'quick': 'replicas<=4, cache<=3, orders of <=6 draws (2 replicas)'
                      ' / 5 (3) / 4 (4), 4-8 replicas: sequences of 2 '
                      'rounds of parts of the replicas, rewinds to 3 older states; 2-3 '
                      'threads, <=2 preemptions (1 for 3 threads)',
             'thorough': 'orders of 8 / 7 / 5 draws; 2-3 threads, <=3 / 2 '
                         'preemptions'},
  'assumptions': ['host callbacks run in the calling thread (CPU backend)',
                  'preemption within a single source line is not explored']}


def cases(tier):
  quick = tier == 'quick'
  out = []
  lengths = {1: 5, 2: 6, 3: 5, 4: 4} if quick else {1: 7, 2: 8, 3: 7, 4: 5}
  for d in (1, 2, 3, 4):
    for cache in (1, 2, 3):
      for strict in (False, True):
        for mask in ('none', 'some'):
          if mask == 'some' and cache == 2:
            continue
          out.append(dict(mode='orders', d=d, cache=cache, strict=strict,
                          mask=mask, length=lengths[d]))
  for d in (4, 5, 6, 7, 8) if quick else range(2, 9):
    for cache in (1, 2):
      for strict in (False, True):
        out.append(dict(mode='orders', d=d, cache=cache, strict=strict,
                        mask='some', length=None, depth=2 if quick else 3))
  for d in (1, 2, 3):
    for cache in (1, 2):
      for strict in (False, True):
        for first in range(4):
          out.append(dict(mode='stale', d=d, cache=cache, strict=strict,
                          first=first, length={1: 5, 2: 4, 3: 3}[d] if quick
                          else (6 if d < 3 else 5)))
  for d in (2, 3, 4, 5, 8):
    for cache in (1, 2):
      out.append(dict(mode='pmap', d=d, cache=cache))
      out.append(dict(mode='memory', d=d, cache=cache))
  out.append(dict(mode='reject'))
  out.append(dict(mode='full', d=2))
  out.append(dict(mode='full', d=3))
  for strict in (False, True):
    for cache in (1, 2):
      for d, bound in ([(2, 2), (3, 1)] if quick else [(2, 3), (3, 2)]):
        out.append(dict(mode='threads', d=d, cache=cache, strict=strict,
                        bound=bound, draws=2))
    out.append(dict(mode='threads', d=2, cache=1, strict=strict, draws=3,
                    bound=1 if quick else 2))
    out.append(dict(mode='others', strict=strict, bound=2 if quick else 3))
    out.append(dict(mode='race', strict=strict, bound=2 if quick else 3))
  return out


class System:
  """Data loader with one cache, and the compiled batch functions."""

  def __init__(self, cache, strict, mask='none', mb=2):
    self.cache, self.mb, self.strict = cache, mb, strict
    self.loader = ToyHostLoader(4096, 3, mask)
    self.loader.yield_fn = None
    self.twin = ToyHostLoader(4096, 3, mask)
    self.init, self.get, self.release = data.random_reference_data(
      self.loader, cache, mb, verify_calls=strict)
    self.fns = {}

  def fn(self, d):
    if d not in self.fns:
      with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        f = jax.jit(lambda s: self.get(s, information=True, device_count=d))
        # compile, with an own chain
        state = self.start()[1]
        f(state)
      self.fns[d] = f
    return self.fns[d]

  def start(self):
    chain = len(self.loader.chains)
    self.twin.register_random_pipeline(self.cache, self.mb)
    return chain, self.init()

  def calls(self, chain):
    # the first block has been requested by init
    return self.loader.calls.count(chain) - 1

  def verify(self, ctx, chain, t, out, what):
    batch, info = out
    want, mask = self.twin.batch(chain, t, self.mb)
    ctx.equal(np_tree(batch), want, f'{what}: batch {t} of chain {chain}')
    ctx.equal(onp.asarray(info.mask), mask, f'{what}: mask of batch {t}')
    ctx.step()

  def draw(self, d, state):
    """(new state, output, error, warnings)."""
    with warnings.catch_warnings(record=True) as caught:
      warnings.simplefilter('always')
      try:
        new, out = self.fn(d)(state)
        np_tree(out)
      except Exception as err:  # pylint: disable=broad-except
        return None, None, err, caught
    return new, out, None, caught


def run(case, ctx):
  globals()['run_' + case['mode']](case, ctx)


def many_orders(d, depth):
  """All sequences of rounds, in each of which the first k replicas (in
  ascending or descending order) draw c times."""
  rounds = [(k, c) for k in {1, d // 2, d - 1, d} for c in (1, 2)]
  for descend in (False, True):
    for seq in sequences(rounds, depth):
      out = []
      for i, (k, c) in enumerate(seq):
        reps = list(range(k))
        if descend and i > 0:
          reps = [d - 1 - r for r in reps]
        out += [r for r in reps for _ in range(c)]
      yield tuple(out)


def run_orders(case, ctx):
  """Replicas in all orders, some of them running ahead."""
  d, cache = case['d'], case['cache']
  system = System(cache, case['strict'], case['mask'])
  system.fn(d), system.fn(1)
  if case['length'] is None:
    orders = many_orders(d, case['depth'])
  else:
    orders = sequences(range(d), case['length'] +
                       (cache - 1 if d <= 2 else 0))
  for seq in orders:
    if seq[0] != 0:
      continue                    # replicas are symmetric
    ctx.history = seq
    chain, s0 = system.start()
    other, so = system.start()
    states, pos, t_other = [s0] * d, [0] * d, 0
    for k, r in enumerate(list(seq) + [r for r in range(d)
                                       for _ in range(cache + 1)]):
      what = f'{case} order {seq} step {k}'
      states[r], out, err, warned = system.draw(d, states[r])
      ctx.check(err is None, f'{what}: a valid request fails: {err}')
      ctx.check(not warned, f'{what}: a valid request is reported as invalid: '
                            f'{[str(w.message) for w in warned]}')
      system.verify(ctx, chain, pos[r], out, what)
      pos[r] += 1
      want = max(max(0, math.ceil(p / cache) - 1) for p in pos)
      ctx.check(system.calls(chain) == want,
                f'{what}: {system.calls(chain)} blocks have been requested '
                f'instead of {want} (positions {pos})')
      if k % 3 == 2:
        so, out, err, warned = system.draw(1, so)
        ctx.check(err is None and not warned, f'{what}: other chain: {err}')
        system.verify(ctx, other, t_other, out, what + ' (other chain)')
        t_other += 1
      ctx.state('orders', d, cache, case['strict'], tuple(sorted(pos)))
    ctx.trace(seq)
  system.release()


class Model:
  """The request protocol of a single chain."""

  def __init__(self, cache, strict):
    self.cache, self.strict = cache, strict
    self.next_block, self.current, self.tokens = 1, None, 0
    self.cached = {}

  def draw(self, state, d):
    """state = (token, block, line) -> (new state, t, invalid)."""
    token, block, line = state
    invalid = False
    if line == self.cache:
      if token in self.cached:
        left, block, new = self.cached[token]
        if left == 1:
          del self.cached[token]
        else:
          self.cached[token] = (left - 1, block, new)
      else:
        invalid = self.current is not None and token != self.current
        if invalid and self.strict:
          return state, None, True
        self.tokens += 1
        block, new = self.next_block, self.tokens
        self.next_block += 1
        self.current = new
        if d != 1:
          self.cached[token] = (d - 1, block, new)
      token, line = new, 0
    return (token, block, line + 1), block * self.cache + line, invalid


def run_stale(case, ctx):
  """Draws, and returns to older states, in all orders."""
  d, cache, strict = case['d'], case['cache'], case['strict']
  system = System(cache, strict)
  system.fn(d), system.fn(1)
  ops = [('draw', r) for r in range(d)] + [('initial', r) for r in range(d)]
  ops += [('previous', 0), ('before', d - 1)]
  for seq in sequences(ops, case['length']):
    # the first operations distribute the histories on the cases
    if ops.index(seq[0]) % 4 != case['first']:
      continue
    if all(o[0] == 'draw' for o in seq):
      continue
    ctx.history = seq
    chain, s0 = system.start()
    other, so = system.start()
    model = Model(cache, strict)
    m0 = ('initial', 0, 0)
    real, mod = [s0] * d, [m0] * d
    older = [[(s0, m0)] for _ in range(d)]
    tail = [('draw', r) for r in range(d) for _ in range(cache + 1)]
    for k, (op, r) in enumerate(list(seq) + tail):
      what = f'{case} {seq} step {k}'
      if op == 'initial':
        real[r], mod[r] = s0, m0
        continue
      if op in ('previous', 'before'):
        # the state before the latest draw / the latest two draws
        n = 1 if op == 'previous' else 2
        real[r], mod[r] = older[r][-n] if len(older[r]) >= n else (s0, m0)
        continue
      older[r].append((real[r], mod[r]))
      mod[r], t, invalid = model.draw(mod[r], d)
      new, out, err, warned = system.draw(d, real[r])
      if t is None:
        ctx.check(err is not None, f'{what}: an outdated data state is not '
                                   f'rejected')
        ctx.check('alid request' in str(err) or 'RuntimeError' in str(err),
                  f'{what}: unexpected error {err}')
      else:
        ctx.check(err is None, f'{what}: request fails: {err}')
        real[r] = new
        system.verify(ctx, chain, t, out, what)
        ctx.check(bool(warned) == invalid,
                  f'{what}: warnings {[str(w.message) for w in warned]} for '
                  f'{"an invalid" if invalid else "a valid"} request')
      ctx.check(system.calls(chain) == model.next_block - 1,
                f'{what}: {system.calls(chain)} blocks have been requested '
                f'instead of {model.next_block - 1}')
      ctx.state('stale', d, cache, strict, tuple(mod), model.next_block)
    # other chains are not affected
    for t in range(cache + 1):
      so, out, err, warned = system.draw(1, so)
      ctx.check(err is None and not warned,
                f'{case} {seq}: other chain is affected: {err}')
      system.verify(ctx, other, t, out, f'{case} {seq}: other chain')
    ctx.trace(seq)
  system.release()


class Tracked(onp.ndarray):
  """Array with weak references."""


def run_memory(case, ctx):
  """The data of served refreshes is released."""
  d, cache = case['d'], case['cache']
  for strict in (False, True):
    system = System(cache, strict)
    fn = system.fn(d)
    refs = []
    real = system.loader.get_batches

    def tracked(chain_id):
      b, m = real(chain_id)
      b = {k: v.view(Tracked) for k, v in b.items()}
      refs.extend(weakref.ref(v) for v in b.values())
      return b, m
    chain, s0 = system.start()
    system.loader.get_batches = tracked
    for order in ('round', 'blocks'):
      states = [s0] * d
      chain, s0 = system.start()
      states = [s0] * d
      del refs[:]
      rounds = 12
      if order == 'round':
        seq = [r for _ in range(rounds * cache) for r in range(d)]
      else:
        seq = [r for r in range(d) for _ in range(rounds * cache)]
      for r in seq:
        states[r], out = fn(states[r])
      gc.collect()
      alive = sum(ref() is not None for ref in refs)
      ctx.check(len(refs) >= 2 * (rounds - 1), 'no refreshes observed')
      # the loader and jax may keep the latest responses alive
      ctx.check(alive <= 4, f'{case} {order}: data of {alive // 2} of '
                            f'{len(refs) // 2} served refreshes is still in '
                            f'memory')
      ctx.trace((case, order), steps=len(seq))
      ctx.state('memory', d, cache, order)
    system.release()


def run_pmap(case, ctx):
  d, cache = case['d'], case['cache']
  for strict in (False, True):
    system = System(cache, strict)
    with warnings.catch_warnings():
      warnings.simplefilter('ignore')
      fn = jax.pmap(lambda s: lax.scan(
        lambda s, _: system.get(s, information=True, device_count=d), s, None,
        length=2), devices=jax.devices()[:d])
      for _ in range(6):
        chain, s0 = system.start()
        stack = tree_util.tree_map(lambda x: jnp.stack([x] * d), s0)
        for rep in range(4):
          stack, (b, i) = fn(stack)
          for r in range(d):
            for j in range(2):
              system.verify(ctx, chain, 2 * rep + j, tree_util.tree_map(
                lambda v: v[r, j], (np_tree(b), np_tree(i))),
                            f'{case} replica {r}')
        want = math.ceil(8 / cache) - 1
        ctx.check(system.calls(chain) == want,
                  f'{case}: {system.calls(chain)} blocks instead of {want}')
        ctx.trace(case)
    system.release()


def run_reject(case, ctx):
  system = System(2, True)
  _, s0 = system.start()
  for count in (9, 10, 100):
    for fn in (system.get, jax.jit(system.get, static_argnums=(1, 2))):
      try:
        fn(s0, False, count)
      except ValueError:
        ctx.trace(count, steps=1)
        continue
      ctx.fail(f'device_count={count} with 8 devices is not rejected')
  system.release()


def run_full(case, ctx):
  """Replicated mapping over the full dataset."""
  d, n = case['d'], 5
  for mb in (1, 2, 3):
    for cache in (1, 2, 3):
      loader = ToyHostLoader(n)
      init, map_fn, release = data.full_reference_data(loader, cache, mb)

      def count(s):
        return map_fn(lambda b, m, c: (jnp.sum(b['v'] * m), c + jnp.sum(m)), s,
                      jnp.array(0), masking=True, device_count=d)
      with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        fn = jax.jit(count)
        nb = math.ceil(n / mb)
        for seq in sequences(range(d), 4 if d == 2 else 3):
          chain = len(loader.chains)
          s0 = init()
          states, passes = [s0] * d, [0] * d
          for r in seq:
            states[r], (res, c) = fn(states[r])
            want = [sum(range(k * mb, min(n, (k + 1) * mb)))
                    for k in range(nb)]
            ctx.equal((onp.asarray(res), int(c)), (onp.array(want), n),
                      f'{case} mb={mb} cache={cache} order {seq}')
            passes[r] += 1
            calls = max(max(1, math.ceil(p * nb / cache)) for p in passes)
            ctx.check(loader.calls.count(chain) == calls,
                      f'{case} {seq}: {loader.calls.count(chain)} blocks '
                      f'instead of {calls}')
            ctx.step(nb)
          ctx.trace(seq)
      release()


# Concurrent requests ----------------------------------------------------------

def consume(system, d, state, draws, errors=False):
  """Thread: draws from a replica."""
  fn, out = system.fns[d], []

  def body():
    s = state
    for _ in range(draws):
      try:
        s, o = fn(s)
        o = np_tree(o)
      except Exception as err:  # pylint: disable=broad-except
        if not errors:
          raise
        out.append(err)
        return out
      out.append(o)
    return out
  return body


def explore_threads(ctx, system, make, verify, bound, what):
  def yield_in_loader():
    s = sched._active
    task = sched._task()
    if task is not None:
      s.point(task)
  system.loader.yield_fn = yield_in_loader

  def check(s):
    ctx.history = s.trace
    ctx.check(s.deadlock is None, f'{what}: {s.deadlock} (schedule {s.trace})')
    for t in s.tasks:
      ctx.check(t.error is None, f'{what}: thread {t.index} fails: {t.error!r}'
                                 f' (schedule {s.trace})')
    verify(s)
    ctx.state(what, tuple(s.positions))
    ctx.trace(s.trace)
  with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    runs, points = sched.schedules(make, check, bound,
                                   files=('data/core.py', 'numpy_loader.py'))
  ctx.schedules += runs
  ctx.step(points)


def run_threads(case, ctx):
  d, cache = case['d'], case['cache']
  system = System(cache, case['strict'])
  system.fn(d), system.fn(1)
  box = {}
  # start directly before a refresh
  draws = case['draws']

  def make():
    chain, s0 = system.start()
    s = s0
    for _ in range(cache):
      s, _ = system.fns[1](s)
    box.update(chain=chain)
    # every replica draws from the exhausted cache
    return [consume(system, d, s, draws) for _ in range(d)]

  def verify(s):
    for t in s.tasks:
      for k, out in enumerate(t.result):
        system.verify(ctx, box['chain'], cache + k, out,
                      f'{case} schedule {s.trace} replica {t.index}')
    want = math.ceil(draws / cache)
    got = system.calls(box['chain'])
    ctx.check(got == want, f'{case} schedule {s.trace}: {got} blocks have been '
                           f'requested instead of {want}')
  explore_threads(ctx, system, make, verify, case['bound'], str(case))
  system.release()


def run_others(case, ctx):
  """Threads which draw from different chains and data loaders."""
  systems = [System(1, case['strict']), System(1, case['strict'], mb=1)]
  for s in systems:
    s.fn(1)
  box = {}

  def make():
    box['chains'] = []
    fns = []
    for sys_ in (systems[0], systems[0], systems[1]):
      chain, s = sys_.start()
      s, _ = sys_.fns[1](s)
      box['chains'].append((sys_, chain))
      fns.append(consume(sys_, 1, s, 1))
    return fns

  def verify(s):
    for t, (sys_, chain) in zip(s.tasks, box['chains']):
      for k, out in enumerate(t.result):
        sys_.verify(ctx, chain, 1 + k, out, f'{case} schedule {s.trace}')
      ctx.check(sys_.calls(chain) == 1, f'{case}: {sys_.calls(chain)} blocks')
  systems[1].loader.yield_fn = None
  explore_threads(ctx, systems[0], make, verify, case['bound'] - 1, str(case))
  for s in systems:
    s.release()


def run_race(case, ctx):
  """One data state is used by two threads although device_count is 1."""
  system = System(1, case['strict'])
  system.fn(1)
  box = {}

  def make():
    chain, s = system.start()
    s, _ = system.fns[1](s)
    # the token is known as soon as it has been issued by a refresh
    s, _ = system.fns[1](s)
    box.update(chain=chain)
    return [consume(system, 1, s, 1, errors=True) for _ in range(2)]

  def verify(s):
    chain = box['chain']
    outs = [t.result[0] for t in s.tasks]
    failed = [o for o in outs if isinstance(o, Exception)]
    served = [o for o in outs if not isinstance(o, Exception)]
    what = f'{case} schedule {s.trace}'
    if case['strict']:
      ctx.check(len(failed) == 1, f'{what}: {len(failed)} of 2 requests with '
                                  f'the same data state are rejected')
      system.verify(ctx, chain, 2, served[0], what)
    else:
      ctx.check(not failed, f'{what}: {failed}')
      order = sorted(served, key=lambda o: int(o[0]['v'][0]))
      for k in (0, 1):
        system.verify(ctx, chain, 2 + k, order[k], what)
  explore_threads(ctx, system, make, verify, case['bound'], str(case))
  system.release()
