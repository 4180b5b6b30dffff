"""C05: concurrent full-data mappings never share a data state."""
import math

if __import__('os').environ.get('MC_WORKER'):
  from mc import sched
  sched.install()
from mc.lib import *

PROPERTY = 'C05'
ENV = {'XLA_FLAGS': '--xla_force_host_platform_device_count=3'}
INFO = {
  'rule': ('all schedules (preemption before each source line of '
           'jax_sgmc/data executed by the host callbacks) of threads which '
           'map over the dataset through one full_data_mapper, up to a '
           'preemption bound, starting with one free data state (cold) and '
           'with as many free data states as threads (warm); all sequences '
           'of plain, nested and repeated mappings; results and number of '
           'registered chains are compared with a mapping on its own'),
  'bounds': {'quick': '2 threads: 2 preemptions (1-2 mappings per thread), 3 '
                      'threads: 1 preemption; sequences of 4 mappings',
             'thorough': '2 threads: 3 preemptions, 3 threads: 2 preemptions;'
                         ' sequences of 6 mappings'},
  'assumptions': ['host callbacks run in the calling thread (CPU backend)']}


def cases(tier):
  quick = tier == 'quick'
  out = []
  out.append(dict(mode='cold', kind='toy', threads=3, calls=1,
                  bound=1, n=2, mb=2, cache=1, part=0, parts=1))
  for kind in ('toy', 'numpy', 'device'):
    out.append(dict(mode='sequential', kind=kind, length=4 if quick else 6))
    out.append(dict(mode='pmap', kind=kind))
  for part in range(8):
    out.append(dict(mode='cold', kind='toy', threads=2, calls=1,
                    bound=2 if quick else 3, n=2, mb=2, cache=1,
                    part=part, parts=8))
  out.append(dict(mode='cold', kind='toy', threads=2, calls=1,
                  bound=1, n=3, mb=2, cache=1, part=0, parts=1))
  # the registration of a chain is also interrupted
  for n, mb, cache in ((3, 2, 1), (3, 1, 1), (4, 3, 1), (5, 2, 2)):
    out.append(dict(mode='cold', kind='numpy', threads=2, calls=1,
                    bound=1 if quick else 2, n=n, mb=mb, cache=cache, part=0,
                    parts=1))
  # both threads register chains: the inner mapping of the first thread needs a
  # second data state
  out.append(dict(mode='cold', kind='numpy', threads=2, calls=1, nested=True,
                  bound=1, n=2, mb=2, cache=1, part=0, parts=1))
  for kind in ('toy', 'numpy', 'device'):
    out.append(dict(mode='warm', kind=kind, threads=2, calls=1,
                    bound=2 if quick else 3, n=2, mb=2, cache=1))
    out.append(dict(mode='warm', kind=kind, threads=2, calls=2,
                    bound=1 if quick else 2, n=3, mb=2, cache=1))
    out.append(dict(mode='warm', kind=kind, threads=3, calls=1,
                    bound=1 if quick else 2, n=2, mb=2, cache=1))
    out.append(dict(mode='warm', kind=kind, threads=2, calls=1, nested=True,
                    bound=1, n=2, mb=2, cache=1))
  return out


def make_loader(kind, n):
  if kind == 'toy':
    return ToyHostLoader(n, base=1), onp.arange(n) + 1
  ds = make_dataset(n)
  cls = NumpyDataLoader if kind == 'numpy' else DeviceNumpyDataLoader
  loader = cls(**ds)
  return loader, ds['x']


class System:

  def __init__(self, kind, n, mb, cache):
    self.kind, self.n, self.mb = kind, n, mb
    self.loader, self.values = make_loader(kind, n)
    self.chains, self.ids = 0, []
    if kind != 'device':
      real = self.loader.register_ordered_pipeline

      def counted(*args, **kwargs):
        self.chains += 1
        chain = real(*args, **kwargs)
        self.ids.append(int(chain))
        return chain
      self.loader.register_ordered_pipeline = counted
    self.key = 'v' if kind == 'toy' else 'x'
    self.mapper, self.release = data.full_data_mapper(self.loader, cache, mb)
    self.active = self.max_active = 0
    nb = math.ceil(n / mb)
    self.plain = jax.jit(lambda c: self.map(c))
    self.nested = jax.jit(lambda c: self.map(c, self.inner))

  def map(self, carry, inner=None):
    def fun(batch, mask, c):
      x = batch[self.key]
      s = jnp.sum(x * mask * (jnp.arange(self.mb) + 1))
      extra = 0 if inner is None else inner(c)
      return {'s': s, 'x': x, 'extra': extra}, c * 3 + s
    return self.mapper(fun, carry, masking=True)

  def inner(self, c):
    res, carry = self.map(c + 1)
    return jnp.sum(res['s']) + carry

  def expected(self, carry, nested=False):
    n, mb = self.n, self.mb
    nb = math.ceil(n / mb)
    s, c, extra = [], carry, []
    for b in range(nb):
      x = self.values[b * mb:(b + 1) * mb]
      s.append(int((x * (onp.arange(len(x)) + 1)).sum()))
      if nested:
        r, ic = self.expected(c + 1)
        extra.append(sum(r[0]) + ic)
      c = c * 3 + s[-1]
    return (s, extra), c

  def verify(self, ctx, got, carry, nested, what):
    (s, extra), c = self.expected(carry, nested)
    res, gc = got
    ctx.equal((onp.asarray(res['s']).tolist(), int(gc)), (s, c),
              f'{what}: result of the mapping')
    if nested:
      ctx.equal(onp.asarray(res['extra']).tolist(), extra,
                f'{what}: result of the nested mapping')
    x = onp.asarray(res['x']).reshape(-1)[:self.n]
    ctx.equal(x, self.values, f'{what}: observations')

  def call(self, carry, nested=False):
    self.active += 1 + nested
    self.max_active = max(self.max_active, self.active)
    out = (self.nested if nested else self.plain)(jnp.array(carry))
    out = np_tree(out)
    self.active -= 1 + nested
    return out


def run(case, ctx):
  globals()['run_' + case['mode']](case, ctx)


def run_sequential(case, ctx):
  kind = case['kind']
  ops = ['plain', 'nested', 'other', 'eager']
  for n, mb, cache in [(3, 2, 1), (4, 1, 3), (5, 3, 2)]:
    for seq in [s for s in sequences(ops, case['length'])
                if s[0] in ('plain', 'nested')][::7]:
      sys_ = System(kind, n, mb, cache)
      used = 1
      other = data.full_data_mapper(sys_.loader, 2, mb)
      base = sys_.chains - 1
      for k, op in enumerate(seq):
        what = f'{case} {(n, mb, cache)} {seq} call {k}'
        ctx.history = what
        if op == 'other':
          res, c = jax.jit(lambda c: other[0](
            lambda b, c: (b[sys_.key], c + 1), c))(jnp.array(k))
          ctx.equal((onp.asarray(res), int(c)),
                    (onp.asarray(sys_.values), k + math.ceil(n / mb)), what)
        elif op == 'eager':
          with jax.disable_jit():
            got = np_tree(sys_.map(jnp.array(k)))
          sys_.verify(ctx, got, k, False, what)
        else:
          used = max(used, 2 if op == 'nested' else 1)
          sys_.verify(ctx, sys_.call(k, op == 'nested'), k, op == 'nested',
                      what)
        if kind != 'device':
          ctx.check(sys_.chains - base <= used,
                    f'{what}: {sys_.chains - base} chains have been registered'
                    f' for at most {used} simultaneous mappings')
        ctx.step()
        ctx.state(kind, n, mb, cache, seq[:k + 1])
      ctx.trace(seq)
      other[1]()
      sys_.release()


def run_pmap(case, ctx):
  for n, mb, cache in [(3, 2, 1), (4, 2, 3)]:
    sys_ = System(case['kind'], n, mb, cache)
    for d in (2, 3):
      fn = jax.pmap(sys_.map, devices=jax.devices()[:d])
      for rep in range(4):
        got = np_tree(fn(jnp.arange(d) * 5))
        for i in range(d):
          sys_.verify(ctx, tree_util.tree_map(lambda x: x[i], got), 5 * i,
                      False, f'{case} pmap device {i}')
        ctx.check(sys_.chains <= d, f'{case}: {sys_.chains} chains')
        ctx.trace(steps=d)
        ctx.state('pmap', case['kind'], n, d, rep)
    sys_.release()


def explore_threads(ctx, make, box, case, limit=None):
  calls, nested = case['calls'], case.get('nested', False)
  n_threads = case['threads']

  def body(sys_, i):
    return lambda: [sys_.call(10 * i + k, nested) for k in range(calls)]

  def threads():
    box['sys'] = make()
    box['sys'].active = box['sys'].max_active = 0
    return [body(box['sys'], i) for i in range(n_threads)]

  def check(s):
    sys_ = box['sys']
    what = f'{case} schedule {s.trace}'
    ctx.history = s.trace
    ctx.check(s.deadlock is None, f'{what}: {s.deadlock}')
    for t in s.tasks:
      ctx.check(t.error is None, f'{what}: mapping of thread {t.index} fails: '
                                 f'{t.error!r}')
      for k, got in enumerate(t.result):
        sys_.verify(ctx, got, 10 * t.index + k, nested,
                    f'{what} thread {t.index} call {k}')
    ctx.check(len(set(sys_.ids)) == len(sys_.ids),
              f'{what}: data states share a chain, registered {sys_.ids}')
    limit = max(sys_.max_active, box.get('warm', 1))
    ctx.check(sys_.chains <= limit,
              f'{what}: {sys_.chains} chains are registered for at most '
              f'{limit} simultaneous mappings')
    ctx.state(str(case), tuple(s.positions))
    ctx.trace(s.trace)
  runs, points = sched.schedules(threads, check, case['bound'],
                                 files=('data/core.py', 'numpy_loader.py'),
                                 limit=limit)
  ctx.schedules += runs
  ctx.step(points)


def run_warm(case, ctx):
  """All data states exist already (the program is compiled once)."""
  sys_ = System(case['kind'], case['n'], case['mb'], case['cache'])
  nested = case.get('nested', False)
  depth = case['threads'] * (2 if nested else 1)

  def deep(d, c):
    inner = None if d == 1 else (lambda c: deep(d - 1, c)[1])
    return sys_.map(c, inner)
  for k in (1, 2):
    # creates one data state for each level, and uses all of them twice
    jax.jit(lambda c: deep(depth, c))(jnp.array(0))
  if case['kind'] != 'device':
    ctx.check(sys_.chains <= depth, f'{case}: {sys_.chains} chains for {depth} '
                                    f'nested mappings')
  sys_.plain(jnp.array(0)), sys_.nested(jnp.array(0))
  explore_threads(ctx, lambda: sys_, {'warm': depth}, case)
  sys_.release()


def run_cold(case, ctx):
  """The data states have to be created; a new system for each schedule."""
  part, parts = case['part'], case['parts']
  released = []

  def make():
    while released:
      released.pop().release()
    sys_ = System(case['kind'], case['n'], case['mb'], case['cache'])
    released.append(sys_)
    # compile without execution
    if case.get('nested'):
      sys_.nested = sys_.nested.lower(jnp.array(0)).compile()
    else:
      sys_.plain = sys_.plain.lower(jnp.array(0)).compile()
    return sys_
  explore_part(ctx, make, case, part, parts)


def explore_part(ctx, make, case, part, parts):
  """Distributes the schedules by the position of the first preemption."""
  if parts == 1:
    explore_threads(ctx, make, {}, case)
    return
  real = sched.explore

  def restricted(history, limit=None):
    def wrapped(choose):
      pos = [0, False]

      def pick(n):
        pos[0] += 1
        if pos[1]:
          return choose(n)
        if pos[0] == 1:             # the thread that starts
          return choose(n)
        if pos[0] % parts != part:
          return 0                  # no preemption at this position
        val = choose(n)
        if val:
          pos[1] = True
        return val
      history(pick)
    return real(wrapped, limit)
  sched.explore = restricted
  try:
    explore_threads(ctx, make, {}, case)
  finally:
    sched.explore = real
