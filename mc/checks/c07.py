"""C07: chains of a data loader are independent and reproducible."""
import math
import subprocess
import sys
from copy import deepcopy

from mc.lib import *

PROPERTY = 'C07'
INFO = {
  'rule': ('all sequences of draw / save / restore / register operations over '
           'up to four chains of two data loaders are executed on the real '
           'data loader; each batch is compared with the stream of the same '
           'chain which has been drawn alone with its explicit seed'),
  'bounds': {'quick': 'depth 4 (9 operations), 10 configurations; streams of '
                      '24 seeds compared pairwise; cache 1-5',
             'thorough': 'depth 5, 24 configurations; streams of 64 seeds; '
                         'cache 1-8'},
  'assumptions': []}

KW = {'shuffle': dict(shuffle=True),
      'epochs': dict(shuffle=True, in_epochs=True), 'draw': {}}
KINDS = ['shuffle', 'epochs', 'draw', 'ordered']


def cases(tier):
  quick = tier == 'quick'
  out = []
  combos = [('shuffle', 'epochs', 'draw'), ('draw', 'draw', 'draw'),
            ('shuffle', 'shuffle', 'shuffle'), ('epochs', 'epochs', 'epochs'),
            ('ordered', 'shuffle', 'ordered'), ('draw', 'ordered', 'epochs')]
  sizes = [(5, 2)] if quick else [(5, 2), (4, 3), (7, 7), (6, 1)]
  for n, mb in sizes:
    for kinds in combos:
      out.append(dict(mode='interleave', n=n, mb=mb, kinds=kinds, seeds=None,
                      depth=4 if quick else 5))
      if kinds[0] != 'ordered':
        out.append(dict(mode='interleave', n=n, mb=mb, kinds=kinds,
                        seeds=(5, 3, 5), depth=4 if quick else 5))
  for kind in KINDS:
    for n, mb in [(1, 1), (4, 3), (5, 2), (6, 3), (7, 5), (9, 1)]:
      out.append(dict(mode='cache', kind=kind, n=n, mb=mb))
    out.append(dict(mode='seeds', kind=kind, n=16, mb=4))
    out.append(dict(mode='api', kind=kind, n=7, mb=3))
  out.append(dict(mode='process'))
  return out


def register(loader, kind, mb, cache=1, seed=None):
  if kind == 'ordered':
    return loader.register_ordered_pipeline(cache_size=cache, mb_size=mb)
  kw = {} if seed is None else {'seed': seed}
  return loader.register_random_pipeline(cache_size=cache, mb_size=mb,
                                         **KW[kind], **kw)


def fetch(loader, chain):
  b, m = loader.get_batches(chain)
  return (tuple((k, onp.asarray(b[k]).tobytes()) for k in sorted(b)),
          onp.asarray(m).tobytes())


_streams = {}


def stream(kind, n, mb, seed, length=30):
  """Stream of a chain which is alone in its data loader."""
  key = (kind, n, mb, seed)
  if len(_streams.get(key, [])) < length:
    loader = NumpyDataLoader(**make_dataset(n))
    # the only registered chain, identified by its explicit seed
    chain = register(loader, kind, mb, seed=seed)
    _streams[key] = [fetch(loader, chain) for _ in range(length)]
  return _streams[key]


def run(case, ctx):
  globals()['run_' + case['mode']](case, ctx)


def run_interleave(case, ctx):
  n, mb, kinds, seeds = case['n'], case['mb'], case['kinds'], case['seeds']

  def seed_of(i):
    # chains without a seed are seeded with the number of their registration
    return i if seeds is None or i >= len(seeds) else seeds[i]

  def expect(loader, chain, pos, h):
    kind = kinds[chain % 3]
    want = stream(kind, n, mb, seed_of(chain))[pos]
    ctx.history = h
    ctx.check(fetch(loader, chain) == want,
              f'{case}: batch {pos} of chain {chain} depends on the other '
              f'chains')
    ctx.step()

  if seeds is None:
    # default seeds: the reference is the chain that is registered at the same
    # position in an otherwise unused data loader
    for i in range(5):
      ld = NumpyDataLoader(**make_dataset(n))
      for k in range(i + 1):
        chain = register(ld, kinds[k % 3], mb)
      _streams[kinds[i % 3], n, mb, i] = [fetch(ld, chain) for _ in range(30)]

  def build(count):
    ld = NumpyDataLoader(**make_dataset(n))
    for i in range(count):
      register(ld, kinds[i % 3], mb,
               seed=None if seeds is None else seed_of(i))
    return ld

  def dfs(loaders, pos, ckpt, depth, hist):
    ctx.state(case['n'], case['mb'], kinds, seeds, tuple(map(tuple, pos)))
    if depth == 0:
      for i in (0, 1):
        for c in range(len(pos[i])):
          for k in range(2):
            expect(loaders[i], c, pos[i][c] + k, hist + ['then', i, c])
      ctx.trace(hist)
      return
    ops = [('draw', 0, c) for c in range(len(pos[0]))] + [('draw', 1, 0)]
    if len(pos[0]) < 5:
      ops.append(('register', 0))
    ops += [('save', 0, 0), ('global',)]
    if ckpt is not None:
      ops.append(('load', 0, 0))
    for op in ops:
      lds, p, ck = deepcopy((loaders, pos, ckpt))
      h = hist + [op]
      if op[0] == 'draw':
        expect(lds[op[1]], op[2], p[op[1]][op[2]], h)
        p[op[1]][op[2]] += 1
      elif op[0] == 'register':
        i = len(p[0])
        ctx.check(register(lds[0], kinds[i % 3], mb,
                           seed=None if seeds is None else seed_of(i)) == i,
                  f'{case}: {h}: chains are not numbered consecutively')
        p[0].append(0)
      elif op[0] == 'save':
        ck = (p[0][0], lds[0].save_state(0))
      elif op[0] == 'load':
        lds[0].load_state(0, ck[1])
        p[0][0] = ck[0]
      else:
        onp.random.seed(5)
        onp.random.rand()
      ctx.step()
      dfs(lds, p, ck, depth - 1, h)
  start = [build(2), build(3)]
  dfs(start, [[0, 0], [0, 0, 0]], None, case['depth'], [])


def flat(loader, chain, cache, count):
  out = []
  while len(out) < count:
    b, m = loader.get_batches(chain)
    b = {k: onp.asarray(v) for k, v in b.items()}
    m = onp.asarray(m)
    for c in range(cache):
      out.append(tuple(b[k][c].tobytes() for k in sorted(b))
                 + (m[c].tobytes(),))
  return out[:count]


def run_cache(case, ctx):
  n, mb, kind = case['n'], case['mb'], case['kind']
  count = 5 * math.ceil(n / mb) + 12
  for seed in (None, 3):
    ref = None
    for cache in [*range(1, 6 if ctx.tier == 'quick' else 9), 33, 70, 300]:
      loader = NumpyDataLoader(**make_dataset(n))
      got = flat(loader, register(loader, kind, mb, cache, seed), cache, count)
      ref = ref or got
      ctx.check(got == ref, f'{case} seed={seed}: cache size {cache} changes '
                            f'the stream')
      # in another loader with further chains, drawn alternately
      loader = NumpyDataLoader(**make_dataset(n))
      a = register(loader, kind, mb, cache, seed)
      b = register(loader, 'shuffle', mb, 2)
      c = register(loader, kind, mb, 3)
      inter = []
      while len(inter) < count:
        loader.get_batches(b)
        inter += flat(loader, a, cache, cache)
        loader.get_batches(c)
      ctx.check(inter[:count] == ref, f'{case} seed={seed} cache={cache}: '
                                      f'other chains change the stream')
      ctx.trace(steps=2 * count)
      ctx.state(kind, n, mb, cache, seed)


def run_seeds(case, ctx):
  n, mb, kind = case['n'], case['mb'], case['kind']
  if kind == 'ordered':
    return
  count = 72 if ctx.tier == 'quick' else 300
  loader = NumpyDataLoader(**make_dataset(n))
  default = [flat(loader, register(loader, kind, mb), 1, 8)
             for _ in range(count)]
  ctx.check(len(set(map(tuple, default))) == count,
            f'{case}: chains without seed return the same stream')
  again = NumpyDataLoader(**make_dataset(n))
  ids = [register(again, kind, mb) for _ in range(count)]
  for i in reversed(ids):
    ctx.check(flat(again, i, 1, 8) == default[i],
              f'{case}: chain {i} without seed is not reproducible')
  seeds = list(range(count)) + [10 ** 6, 2 ** 32, 2 ** 40 + 1, [1, 2]]
  loader = NumpyDataLoader(**make_dataset(n))
  explicit = {str(s): tuple(flat(loader, register(loader, kind, mb, seed=s),
                                 1, 8)) for s in seeds}
  ctx.check(len(set(explicit.values())) == len(seeds),
            f'{case}: different seeds return the same stream')
  for s in seeds[::-1]:
    other = NumpyDataLoader(**make_dataset(n))
    register(other, kind, mb)
    got = tuple(flat(other, register(other, kind, mb, seed=s), 1, 8))
    ctx.check(got == explicit[str(s)],
              f'{case}: seed {s} does not determine the stream')
    ctx.state(kind, s)
  ctx.trace(steps=4 * count)


def run_api(case, ctx):
  """The same through cached draws of random_reference_data."""
  n, mb, kind = case['n'], case['mb'], case['kind']
  if kind == 'ordered':
    return
  count = 14
  for seed in (0, 4):
    ref = None
    for cache in (1, 2, 3, 5):
      for before in range(3):
        loader = NumpyDataLoader(**make_dataset(n))
        init, get, release = data.random_reference_data(loader, cache, mb)
        others = [init() for _ in range(before)]
        state = init(**KW[kind], seed=seed)
        fn = jax.jit(lambda s: get(s, information=True))
        got = []
        for _ in range(count):
          others = [fn(s)[0] for s in others]
          state, (b, info) = fn(state)
          got.append((onp.asarray(b['x']).tolist(),
                      onp.asarray(info.mask).tolist()))
        release()
        ref = ref or got
        ctx.check(got == ref, f'{case} seed={seed} cache={cache}: stream '
                              f'depends on {before} other chains or the cache')
        ctx.trace(steps=count)
  # random access on device: the key determines the stream of a state
  loader = DeviceNumpyDataLoader(**make_dataset(n))
  init, get, release = data.random_reference_data(loader, 1, mb)
  fn = jax.jit(get)

  def seq(state, inter=()):
    out, inter = [], list(inter)
    for _ in range(count):
      inter = [fn(s)[0] for s in inter]
      state, b = fn(state)
      out.append(tuple(onp.asarray(b['x']).tolist()))
    return out
  a = seq(init(key=random.PRNGKey(1)))
  ctx.check(a == seq(init(key=random.PRNGKey(1)),
                     [init(), init(key=random.PRNGKey(2))]),
            f'{case}: other states change the stream on the device')
  ctx.check(a != seq(init(key=random.PRNGKey(2))),
            f'{case}: different keys return the same stream')


SCRIPT = r'''
import sys, hashlib
import numpy as onp
from jax_sgmc.data.numpy_loader import NumpyDataLoader
h = hashlib.sha256()
loader = NumpyDataLoader(x=onp.arange(11), y=onp.arange(22.).reshape(11, 2))
for kw in [{}, dict(shuffle=True), dict(shuffle=True, in_epochs=True),
           dict(seed=9), {}]:
  c = loader.register_random_pipeline(cache_size=2, mb_size=4, **kw)
  for _ in range(6):
    b, m = loader.get_batches(c)
    h.update(onp.asarray(b['x']).tobytes() + onp.asarray(b['y']).tobytes()
             + onp.asarray(m).tobytes())
print(h.hexdigest())
'''


def run_process(case, ctx):
  """The streams are the same in every run (process)."""
  digests = []
  for k in range(2):
    env = dict(os.environ, PYTHONHASHSEED=str(k + 1))
    res = subprocess.run([sys.executable, '-c', SCRIPT], env=env, text=True,
                         capture_output=True, timeout=200)
    ctx.check(res.returncode == 0, f'run fails: {res.stderr[-800:]}')
    digests.append(res.stdout.strip())
    ctx.trace(steps=30)
  ctx.check(digests[0] == digests[1],
            'streams of chains without seed differ between two runs')
