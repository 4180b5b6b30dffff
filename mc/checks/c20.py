"""C20: Samples saved to HDF5 can be loaded back as a dataset."""
import math

from mc.lib import *
from mc.core import explore
from mc.checks.c02 import ScriptedGenerator, KW

PROPERTY = 'C20'
ENV = {'XLA_FLAGS': '--xla_force_host_platform_device_count=2'}
INFO = {
  'rule': ('samples of all pytrees of a grammar (dictionaries, lists, tuples, '
           'named tuples, missing nodes over leaves of different shapes and '
           'dtypes) are saved with the real collector and all of the subtrees '
           'are opened with the real loader; for small datasets all results of '
           'the random generator are enumerated; every batch and the result of '
           'every map is compared with the saved samples; whole runs of the '
           'solver are loaded and compared with the samples in memory'),
  'bounds': {'quick': 'pytrees of depth <= 2 with <= 3 children, 1-5 samples, 2 '
                      'chains, all batch sizes, cache <= 3, all selections with '
                      '<= 700 outcomes', 'thorough': '1-9 samples, <= 15000 '
                                                    'outcomes'},
  'assumptions': ['h5py files in memory behave like files on disk (one real '
                  'file is written in the runs)']}

CHUNKS = 12

Fields = namedtuple('Fields', ['z', 'a', 'm'])

LEAVES = (((), 'float32'), ((2,), 'float32'), ((2, 3), 'int32'), ((), 'bool'),
          ((1,), 'uint8'), ((3, 1), 'float16'), ((0,), 'float32'), ((), 'int16'),
          ((2, 2), 'bool'), ((), 'uint32'))


def cases(tier):
  quick = tier == 'quick'
  out = [dict(mode='trees', chunk=c) for c in range(CHUNKS)]
  for n in range(1, 6 if quick else 10):
    for mb in range(1, n + 1):
      for cache in (1, 2, 3):
        if n <= 4:
          out.append(dict(mode='select', n=n, mb=mb, cache=cache))
        out.append(dict(mode='stream', n=n, mb=mb, cache=cache))
      for cache in (1, 2):
        if n <= (4 if quick else 6):
          out.append(dict(mode='api', n=n, mb=mb, cache=cache))
  for n, mb, cache in (
      (100, 9, 2), (129, 40, 1), (257, 64, 1), (299, 50, 1), (300, 17, 3),
      (700, 700, 1)) + (() if quick else (
      (5000, 257, 4), (70000, 1000, 2))):
    out.append(dict(mode='stream', n=n, mb=mb, cache=cache))
  for strategy in ('map', 'pmap', 'vmap'):
    for tree in range(3):
      out.append(dict(mode='run', strategy=strategy, tree=tree))
  return out


def grammar():
  """Leaf positions hold indices of LEAVES."""
  ks = range(len(LEAVES))
  out = list(ks)
  for k in ks:
    l = (k + 3) % len(LEAVES)
    out += [{'a': k}, [k], (k,), Fields(k, l, 1), {'b': k, 'a': l}, [k, l],
            (l, k, 0), {'n': None, 'x': k, 'e': []}, (None, k), {'A': k, 'a': l}]
    out += [{'p': {'q': k}, 'o': [l, {'r': k}]}, [[k], (l, [k])],
            Fields(m=[k, {'s': l}], z={'t': l}, a=(k, None)),
            {'l': [(k + i) % len(LEAVES) for i in range(12)], 'b': l},
            {'x1': k, 'x10': l, 'x2': {'x1': k}}, (Fields(k, l, k), {'d': (k,)}),
            {'params': {'w': [k, l], 'b': (l,)}, 'scale': k}]
  return out


def value(leaf, chain, k, pos):
  """Different in every sample and leaf (where the dtype permits)."""
  shape, dtype = LEAVES[leaf]
  size = int(onp.prod(shape))
  v = onp.arange(size) + 40 * k + 7 * pos + 20 * chain
  if dtype == 'bool':
    v = ((k + pos + chain + onp.arange(size)) % 2 == 0)
  elif dtype == 'uint32':
    v = v + 2 ** 31
  elif dtype == 'float32':
    v = v / 4 - 3
  elif dtype in ('int32', 'int16'):
    v = v * 3 - 50
  return onp.asarray(v).reshape(shape).astype(dtype)


def build(tree, chain, k):
  leaves, struct = tree_util.tree_flatten(tree)
  return tree_util.tree_unflatten(struct, [
    value(l, chain, k, pos) for pos, l in enumerate(leaves)])


def save_all(file, trees, n):
  """Saves n samples of each chain (interleaved)."""
  collector = io.HDF5Collector(file)
  info = scheduler.static_information(samples_collected=n)
  ids = []
  wrap = lambda c, k: {'likelihood': onp.float32(10 * c - k),
                       'variables': build(trees[c], c, k)}
  for c in range(len(trees)):
    ids.append(collector.register_chain(wrap(c, 0), {}, info))
  for k in range(n):
    for c in ids if k % 2 else reversed(ids):
      collector.save(c, tree_util.tree_leaves(tree_util.tree_map(
        jnp.asarray, wrap(c, k))))
  for c in ids:
    collector.finalize(c)
  for c in ids:
    collector.finished(c)
  return wrap


def subtrees(tree, path=()):
  """All subtrees with the path of the names."""
  yield path, (), tree
  if isinstance(tree, dict):
    items = [(k, k, v) for k, v in tree.items()]
  elif hasattr(tree, '_fields'):
    items = [(f, i, v) for i, (f, v) in enumerate(zip(tree._fields, tree))]
  elif isinstance(tree, (list, tuple)):
    items = [(f'list_element_{i}', i, v) for i, v in enumerate(tree)]
  else:
    return
  for name, key, child in items:
    if tree_util.tree_leaves(child):
      for p, keys, t in subtrees(child, path + (name,)):
        yield p, (key,) + keys, t


def pick(tree, keys):
  for k in keys:
    tree = tree[k]
  return tree


def stacked(samples):
  return tree_util.tree_map(lambda *x: onp.stack(x), *samples)


def same(ctx, got, want, what):
  why = tree_diff(np_tree(got), np_tree(want), dtype=True)
  ctx.check(why is None, lambda: f'{what}: {why}', got=short(got),
            want=short(want))


def run(case, ctx):
  globals()['run_' + case['mode']](case, ctx)


def run_trees(case, ctx):
  from jax_sgmc.data.hdf5_loader import HDF5Loader
  trees = grammar()
  for i, tree in enumerate(trees):
    if i % CHUNKS != case['chunk']:
      continue
    n = 2 + i % 3
    pair = (tree, trees[(i * 7 + 3) % len(trees)])
    file = h5_mem()
    wrap = save_all(file, pair, n)
    for c in range(2):
      for j, (path, keys, sub) in enumerate(subtrees({
          'variables': pair[c], 'likelihood': 0})):
        if c == 1 and j > 2:
          continue
        what = f'chain {c} of {pair}, subtree {path}'
        ctx.history = what
        samples = [pick(wrap(c, k), keys) for k in range(n)]
        subdir = '/'.join((f'/chain~{c}',) + path) + ('/' if j % 2 else '')
        sample = samples[0]
        if j % 3 == 1:
          sample = tree_util.tree_map(jnp.asarray, sample)
        elif j % 3 == 2:
          sample = tree_util.tree_map(lambda x: jax.ShapeDtypeStruct(
            x.shape, x.dtype), sample)
        if c == 0 and path == ('variables',) and j % 2:
          loader = HDF5Loader(file, sample=sample)
        else:
          loader = HDF5Loader(file, subdir, sample=sample)
        ctx.check(int(loader.static_information['observation_count']) == n,
                  f'{what}: observation count {loader.static_information}')
        zeros = loader.initializer_batch(2)
        same(ctx, zeros, tree_util.tree_map(lambda x: onp.zeros(
          (2,) + x.shape, x.dtype), samples[0]), f'{what}: initializer batch')
        chain = loader.register_ordered_pipeline(cache_size=2, mb_size=2)
        stream = []
        for t in range(3):
          batch, mask = loader.get_batches(chain)
          for b in range(2):
            ids = [(len(stream) % -(-n // 2)) * 2 + e for e in range(2)]
            want = stacked([samples[x % n] for x in ids])
            same(ctx, tree_util.tree_map(lambda x: x[b], batch), want,
                 f'{what}: batch {len(stream)}')
            ctx.check([bool(x) for x in mask[b]] == [x < n for x in ids],
                      f'{what}: mask of batch {len(stream)}: {mask[b]}')
            stream.append(ids)
        ctx.step(6)
        if j == 0 and c == 0:
          # the data access functions
          init, get, release = data.random_reference_data(loader, 2, n)
          state = init(shuffle=True, in_epochs=True)
          for t in range(3):
            state, (batch, info) = get(state, information=True)
            ids = [k for row in range(n) for k in range(n) if tree_diff(
              np_tree(tree_util.tree_map(lambda x: x[row], batch)), samples[k])
                is None]
            ctx.check(sorted(ids) == list(range(n)),
                      f'{what}: random batch {t} contains the samples {ids}')
            ctx.step()
          release()
        ctx.trace(what)
        ctx.state(str(pair[c]), path)
    file.close()


# -- all selections ---------------------------------------------------------
def small(n):
  tree = {'a': [0, 3], 'w': 2, 'q': {'u': 4}}
  file = h5_mem()
  wrap = save_all(file, (0, tree), n)
  samples = [wrap(1, k)['variables'] for k in range(n)]
  return file, samples


def run_select(case, ctx):
  from jax_sgmc.data.hdf5_loader import HDF5Loader
  n, mb, cache = case['n'], case['mb'], case['cache']
  limit = 700 if ctx.tier == 'quick' else 15000
  file, samples = small(n)
  real_rng = onp.random.default_rng
  for kind in ('draw', 'shuffle', 'epochs'):
    if kind == 'draw' and n ** (mb * cache) > limit:
      continue
    if kind != 'draw' and math.factorial(n) ** (1 + mb * cache // n) > limit:
      continue

    def history(choose):
      used = []

      def chosen(k):
        used.append(choose(k))
        return used[-1]
      onp.random.default_rng = lambda *a, **k: ScriptedGenerator(
        real_rng(*a, **k), chosen)
      try:
        loader = HDF5Loader(file, '/chain~1/variables', sample=samples[0])
        chain = loader.register_random_pipeline(cache_size=cache, mb_size=mb,
                                                **KW[kind])
        batch, mask = loader.get_batches(chain)
      finally:
        onp.random.default_rng = real_rng
      batch, mask = np_tree(batch), onp.asarray(mask)
      selected = []
      for b in range(cache):
        for e in range(mb):
          row = tree_util.tree_map(lambda x: x[b, e], batch)
          ids = [k for k in range(n) if tree_diff(row, samples[k],
                                                  dtype=True) is None]
          ctx.check(len(ids) == 1, f'{case} {kind} outcomes {used}: entry {e} of '
                                   f'batch {b} is no saved sample: {row}')
          selected.append(ids[0])
      if kind == 'draw' and len(used) == mb * cache:
        ctx.check(selected == used, f'{case} {kind}: selected {selected} instead '
                                    f'of {used}')
      ctx.check(mask.shape == (cache, mb), f'{case}: mask {mask}')
      ctx.trace(f'{kind} {used}', steps=cache)
      ctx.state(kind, n, mb, cache, tuple(selected))
      return tuple(selected)
    seen = set()
    explore(lambda choose: seen.add(history(choose)), limit)
    if kind == 'draw' and len(seen) > 1:
      ctx.check(len(seen) == n ** (mb * cache), f'{case}: {len(seen)} selections')
  file.close()


def run_stream(case, ctx):
  """Long streams of the real generator; the content equals the numpy loader."""
  from jax_sgmc.data.hdf5_loader import HDF5Loader
  n, mb, cache = case['n'], case['mb'], case['cache']
  file, samples = small(n)
  flat = stacked(samples)
  leaves, struct = tree_util.tree_flatten(flat)
  loader = HDF5Loader(file, '/chain~1/variables', sample=samples[0])
  ref = NumpyDataLoader(**{f'l{i:02d}': l for i, l in enumerate(leaves)})
  for kind in ('ordered', 'draw', 'shuffle', 'epochs'):
    for seed in (None, 5):
      kw = {} if seed is None else dict(seed=seed)
      chains = []
      for l in (loader, ref):
        if kind == 'ordered':
          chains.append(l.register_ordered_pipeline(cache_size=cache, mb_size=mb))
        else:
          chains.append(l.register_random_pipeline(cache_size=cache, mb_size=mb,
                                                   **KW[kind], **kw))
      for t in range(12):
        got, mask = loader.get_batches(chains[0])
        want, want_mask = ref.get_batches(chains[1])
        want = tree_util.tree_unflatten(struct, [want[f'l{i:02d}'] for i in range(
          len(leaves))])
        what = f'{case} {kind} seed {seed} batch {t}'
        same(ctx, got, want, what)
        same(ctx, mask, want_mask, f'{what}: mask')
        ctx.step()
        ctx.state(kind, n, mb, cache, t)
      ctx.trace((kind, seed))
  file.close()


def run_api(case, ctx):
  """Maps and random batches through the data module."""
  from jax_sgmc.data.hdf5_loader import HDF5Loader
  n, mb, cache = case['n'], case['mb'], case['cache']
  file, samples = small(n)
  loader = HDF5Loader(file, '/chain~1/variables', sample=samples[0])
  flat = stacked(samples)
  init, fmap, release = data.full_reference_data(loader, cache, mb)

  def body(batch, carry):
    return {'id': batch, 'sum': jax.vmap(lambda b: b['a'][0] * 2 + b['w'].sum())(
      batch)}, carry + 1

  def masked(batch, mask, carry):
    return {'id': batch, 'mask': mask}, carry + jnp.sum(mask)
  for masking in (False, True):
    fn = jax.jit(lambda state: fmap(masked if masking else body, state,
                                    jnp.array(0), masking=masking))
    state = init()
    for p in range(3):
      state, (res, carry) = fn(state)
      what = f'{case} masking {masking} pass {p}'
      if masking:
        mask = onp.asarray(res['mask']).reshape(-1)
        ctx.check(mask.sum() == n and int(carry) == n, f'{what}: mask {mask}')
        rows = tree_util.tree_map(
          lambda x: onp.asarray(x).reshape((-1,) + x.shape[2:])[mask > 0],
          res['id'])
        same(ctx, rows, flat, what)
      else:
        same(ctx, res['id'], flat, what)
        ctx.equal(onp.asarray(res['sum']), onp.asarray(
          flat['a'][0] * 2 + flat['w'].sum((1, 2)), onp.float32),
                  f'{what}: mapped function')
      ctx.step(-(-n // mb))
    ctx.trace(masking)
  release()
  init, get, release = data.random_reference_data(loader, cache, mb)
  jget = jax.jit(lambda s: get(s, information=True))
  for kind in ('draw', 'shuffle', 'epochs'):
    state = init(**KW[kind])
    for t in range(2 * cache * -(-n // mb)):
      state, (batch, info) = jget(state)
      ctx.check(int(info.observation_count) == n and int(info.batch_size) == mb,
                f'{case}: information {info}')
      batch = np_tree(batch)
      for e in range(mb):
        row = tree_util.tree_map(lambda x: x[e], batch)
        ctx.check(any(tree_diff(row, s, dtype=True) is None for s in samples),
                  f'{case} {kind} batch {t}: entry {e} is no saved sample: {row}')
      ctx.step()
    ctx.trace(kind)
  release()
  ctx.state(n, mb, cache)
  file.close()


# -- whole runs -------------------------------------------------------------
def run_run(case, ctx):
  """Samples saved by the solver are loaded to evaluate another function."""
  import shutil
  import tempfile
  import h5py
  from jax_sgmc.data.hdf5_loader import HDF5Loader
  make = (lambda c: {'w': jnp.array([0.1, -0.2]) * c, 'b': jnp.array(0.3 + c)},
          lambda c: [{'w': jnp.array([0.1, -0.2]) * c}, (jnp.array(0.3 + c),)],
          lambda c: Fields({'w': jnp.ones((2, 1)) * c}, jnp.array([0.5]),
                           [jnp.array(1.0 * c)]))[case['tree']]
  total = lambda s: sum(jnp.sum(x) for x in tree_util.tree_leaves(s))
  pot = potential.minibatch_potential(
    lambda s: -sum(jnp.sum(x ** 2) for x in tree_util.tree_leaves(s)),
    lambda s, obs: -0.5 * (obs['y'] - total(s)) ** 2)
  loader = DeviceNumpyDataLoader(y=jnp.arange(6) * 0.3)
  rd = data.random_reference_data(loader, 1, 2)
  solve = solver.sgmc(integrator.langevin_diffusion(pot, rd))
  sch = scheduler.init_scheduler(
    progress_bar=False, step_size=scheduler.polynomial_step_size_first_last(
      0.01, 0.001), burn_in=scheduler.initial_burn_in(2),
    thinning=scheduler.random_thinning(
      scheduler.polynomial_step_size_first_last(0.01, 0.001),
      scheduler.initial_burn_in(2), 5))
  if case['strategy'] == 'pmap' and jax.device_count() < 2:
    chains = 1
  else:
    chains = 2
  states = lambda: [solve[0](make(c), key=random.PRNGKey(c)) for c in range(
    1, chains + 1)]
  memory = solver.mcmc(solve, sch, strategy=case['strategy'])(
    *states(), iterations=10)
  tmp = tempfile.mkdtemp(prefix='mc_c20_', dir='/tmp')
  try:
    path = tmp + '/samples.h5'
    with h5py.File(path, 'w') as file:
      saving = io.save(io.HDF5Collector(file))
      res = solver.mcmc(solve, sch, strategy=case['strategy'], saving=saving)(
        *states(), iterations=10)
      ctx.check(len(res) == chains, f'{case}: {len(res)} results')
    for c in range(chains):
      want = memory[c]['samples']['variables']
      n = int(memory[c]['sample_count'])
      ctx.check(n == 5, f'{case}: {n} samples')
      l = HDF5Loader(path, f'/chain~{c}/variables/', sample=make(1))
      init, fmap, release = data.full_reference_data(l, 1, 2)
      _, (got, _) = jax.jit(lambda state: fmap(
        lambda b, s: ((b, jax.vmap(total)(b)), s), state, None))(init())
      same(ctx, got[0], want, f'{case} chain {c}')
      ctx.close(onp.asarray(got[1]), onp.asarray(jax.vmap(total)(want)),
                f'{case} chain {c}: mapped function', rtol=1e-5)
      release()
      l.close()
      ctx.step(10)
    ctx.trace(case)
  finally:
    shutil.rmtree(tmp)
