"""C21: Batches of the tensorflow data loader."""
from mc.lib import *
from mc.core import explore

PROPERTY = 'C21'
ENV = {'TF_CPP_MIN_LOG_LEVEL': '3', 'TF_ENABLE_ONEDNN_OPTS': '0',
       'CUDA_VISIBLE_DEVICES': ''}
INFO = {
  'rule': ('the real loader runs on the real tf.data pipelines (all dataset, '
           'batch, cache and buffer sizes; all interleavings of several chains) '
           'and on a model of tf.data of which all results of the shuffling are '
           'enumerated; every batch and the multiset of every prefix of the '
           'stream is compared with the repeated dataset; the model is compared '
           'with tf.data for all sizes'),
  'bounds': {'quick': 'N <= 5, batch <= N, cache <= 3, buffer <= N + 2; model: '
                      '<= 800 outcomes per case', 'thorough': 'N <= 8, <= 15000 '
                                                             'outcomes'},
  'assumptions': ['tf.data shuffles with the documented buffer']}


def cases(tier):
  quick = tier == 'quick'
  out = []
  for n in range(1, 6 if quick else 9):
    for mb in range(1, n + 1):
      out.append(dict(mode='order', n=n, mb=mb))
      out.append(dict(mode='shuffle', n=n, mb=mb))
      if n <= 4:
        out.append(dict(mode='model', n=n, mb=mb))
      if n in (2, 3, 5):
        out.append(dict(mode='api', n=n, mb=mb))
  for n in (2, 3, 5):
    out.append(dict(mode='chains', n=n))
  for variant in VARIANTS:
    out.append(dict(mode='format', variant=variant))
  return out


VARIANTS = ('std', 'unit', 'deep', 'nested', 'tuple', 'strings', 'double', 'single')


def rows(n, variant):
  i = onp.arange(n)
  if variant in ('std', 'one', 'deep'):
    return make_dataset(n, variant)
  if variant == 'unit':
    return {'x': i.reshape(n, 1).astype(onp.float32), 'y': i.reshape(n, 1, 1).astype(
      onp.int32) * onp.array([[1, 2]], onp.int32)}
  if variant == 'nested':
    return {'x': {'b': i.astype(onp.int32), 'a': onp.stack([i, -i], -1).astype(
      onp.float16)}, 'y': (i + 0.5).astype(onp.float32)}
  if variant == 'tuple':
    return (i.astype(onp.float32), (i % 2).astype(onp.int32))
  if variant == 'strings':
    return {'id': onp.array([f'obs{k}' for k in i]), 'x': i.astype(onp.int32),
            'drop': i * 3.0, 'also': i - 1, 'more': onp.array([f'{k}' for k in i]),
            'keep': i.astype(onp.uint8)}
  if variant == 'double':
    return {'x': i.astype(onp.int64), 'y': i * 0.25}
  return {'only': (i + 1).astype(onp.int32)}


def excluded(variant):
  return {'strings': ['id', 'drop', 'more', 'also']}.get(variant)


def expected(ds, variant):
  """The dataset in the dtypes of jax."""
  if variant == 'strings':
    ds = {k: v for k, v in ds.items() if k not in excluded(variant)}
  return tree_util.tree_map(lambda x: onp.asarray(jnp.asarray(x)), ds)


def make(n, variant='std', **kwargs):
  import tensorflow as tf
  from jax_sgmc.data.tensorflow_loader import TensorflowDataLoader
  ds = rows(n, variant)
  pipeline = tf.data.Dataset.from_tensor_slices(ds)
  if excluded(variant) is not None:
    kwargs['exclude_keys'] = excluded(variant)
  return TensorflowDataLoader(pipeline, **kwargs), expected(ds, variant)


def pull(ctx, loader, chain, ds, mb, cache, draws, what):
  """Observation ids of the stream of a chain."""
  leaves, struct = tree_util.tree_flatten(ds)
  n = len(leaves[0])
  ids = []
  for t in range(draws):
    batch, mask = loader.get_batches(chain)
    ctx.check(mask is None or (onp.shape(mask) == (cache, mb) and
                               onp.asarray(mask).all()), f'{what}: mask {mask}')
    got = tree_util.tree_leaves(batch)
    ctx.check(tree_util.tree_structure(batch) == struct,
              f'{what}: structure {tree_util.tree_structure(batch)}')
    got = [onp.asarray(g) for g in got]
    for g, l in zip(got, leaves):
      ctx.check(g.shape == (cache, mb) + l.shape[1:] and g.dtype == l.dtype,
                f'{what}: batch {t} has the format {g.dtype}{g.shape} instead of '
                f'{l.dtype}{(cache, mb) + l.shape[1:]}')
    for c, e in itertools.product(range(cache), range(mb)):
      pos = [k for k in range(n) if all(onp.array_equal(g[c, e], l[k])
                                        for g, l in zip(got, leaves))]
      ctx.check(len(pos) == 1, f'{what}: entry {e} of batch {c} of draw {t} is no '
                               f'observation: {[g[c, e] for g in got]}')
      ids.append(pos[0])
    ctx.step()
  return ids


def window(ctx, ids, n, buffer, what):
  """After T observations at most buffer - 1 of the first T + buffer - 1
  observations of the repeated dataset are missing."""
  used = onp.zeros(n, int)
  for t, i in enumerate(ids):
    used[i] += 1
    limit = t + buffer
    available = limit // n + (onp.arange(n) < limit % n)
    ctx.check((used <= available).all(),
              f'{what}: the first {t + 1} observations {ids[:t + 1]} are not part '
              f'of the first {limit} observations of the repeated dataset')


def run(case, ctx):
  globals()['run_' + case['mode']](case, ctx)


def run_order(case, ctx):
  """Without shuffling."""
  n, mb = case['n'], case['mb']
  for cache in (1, 2, 3):
    for variant in ('std', 'deep', 'single'):
      loader, ds = make(n, variant, shuffle_cache=1)
      chain = loader.register_random_pipeline(cache, mb)
      draws = max(2, -(-3 * n // (mb * cache)) + 1)
      ids = pull(ctx, loader, chain, ds, mb, cache, draws, str(case))
      ctx.check(ids == [k % n for k in range(len(ids))],
                f'{case} cache {cache}: {ids} is not the repeated dataset')
      ctx.trace(ids)
      ctx.state(n, mb, cache, variant)


def run_shuffle(case, ctx):
  import tensorflow as tf
  n, mb = case['n'], case['mb']
  for cache in (1, 2, 3):
    for buffer in sorted({2, 3, n, n + 2, 100}):
      if buffer == 1:
        continue
      for seed in range(2 if ctx.tier == 'quick' else 6):
        tf.random.set_seed(seed)
        # default buffer: 100
        kw = {} if buffer == 100 else dict(shuffle_cache=buffer)
        loader, ds = make(n, 'std' if seed % 2 else 'single', **kw)
        chain = loader.register_random_pipeline(cache, mb)
        draws = -(-(4 * n + (2 * buffer if buffer < 100 else 220)) // (
          mb * cache)) + 1
        what = f'{case} cache {cache} buffer {buffer} seed {seed}'
        ids = pull(ctx, loader, chain, ds, mb, cache, draws, what)
        window(ctx, ids, n, buffer, what)
        if n > 2 and len(ids) > 20:
          ctx.check(ids != [k % n for k in range(len(ids))],
                    f'{what}: not shuffled')
        ctx.trace(ids)
        ctx.state(n, mb, cache, buffer, tuple(ids))


# -- model of tf.data -------------------------------------------------------
class Model:
  """The operations of tf.data.Dataset on numpy arrays."""

  def __init__(self, elements, spec, choose, size):
    self._elements, self.element_spec = elements, spec
    self._choose, self._size = choose, size

  def _new(self, elements, size=None):
    return Model(elements, self.element_spec, self._choose, size)

  def cardinality(self):
    return onp.array(self._size)

  def __iter__(self):
    return self._elements()

  as_numpy_iterator = __iter__

  def repeat(self, count=None, name=None):
    def elements():
      k = 0
      while count is None or count < 0 or k < count:
        yield from self._elements()
        k += 1
    return self._new(elements, -1)

  def shuffle(self, buffer_size, seed=None, reshuffle_each_iteration=None,
              name=None):
    def elements():
      source, buffer = self._elements(), []
      while True:
        while len(buffer) < buffer_size:
          try:
            buffer.append(next(source))
          except StopIteration:
            break
        if not buffer:
          return
        yield buffer.pop(self._choose(len(buffer)))
    return self._new(elements, self._size)

  def batch(self, batch_size, drop_remainder=False, num_parallel_calls=None,
            deterministic=None, name=None):
    def elements():
      source = self._elements()
      while True:
        part = list(itertools.islice(source, batch_size))
        if not part or len(part) < batch_size and drop_remainder:
          return
        yield tree_util.tree_map(lambda *x: onp.stack(x), *part)
        if len(part) < batch_size:
          return
    return self._new(elements)

  def prefetch(self, buffer_size, name=None):
    return self

  def cache(self, *args, **kwargs):
    return self

  def take(self, count, name=None):
    return self._new(lambda: itertools.islice(self._elements(), count))

  def map(self, fn, *args, **kwargs):
    return self._new(lambda: (fn(x) for x in self._elements()), self._size)


def run_model(case, ctx):
  """All results of the shuffling."""
  import tensorflow as tf
  from jax_sgmc.data.tensorflow_loader import TensorflowDataLoader
  n, mb = case['n'], case['mb']
  limit = 800 if ctx.tier == 'quick' else 15000
  ds = rows(n, 'std')
  spec = tf.data.Dataset.from_tensor_slices(ds).element_spec
  elements = lambda: iter([{k: v[i] for k, v in ds.items()} for i in range(n)])
  # conformance of the model: without shuffling the streams are equal
  real = iter(tf.data.Dataset.from_tensor_slices(ds).repeat().shuffle(1).batch(
    mb).batch(2))
  model = iter(Model(elements, spec, lambda k: 0, n).repeat().shuffle(1).batch(
    mb).batch(2))
  for _ in range(2 * n):
    a, b = next(real), next(model)
    ctx.check({k: v.numpy().tolist() for k, v in a.items()} ==
              {k: v.tolist() for k, v in b.items()}, 'model of tf.data')
  for cache in (1, 2, 3):
    for buffer in (1, 2, 3, 4):
      draws = 1
      while buffer ** (mb * cache * (draws + 1)) <= limit and draws < 6:
        draws += 1
      if buffer ** (mb * cache * draws) > limit:
        continue
      what = f'{case} cache {cache} buffer {buffer}'
      seen = set()

      def history(choose):
        pipeline = Model(elements, spec, choose, n)
        loader = TensorflowDataLoader(pipeline, shuffle_cache=buffer)
        chain = loader.register_random_pipeline(cache, mb)
        ids = pull(ctx, loader, chain, expected(ds, 'std'), mb, cache, draws, what)
        window(ctx, ids, n, buffer, what)
        ctx.trace((buffer, ids))
        ctx.state(n, mb, cache, buffer, tuple(ids))
        seen.add(tuple(ids))
      try:
        explore(history, limit * 2)
      except (AttributeError, TypeError) as e:
        # another operation of tf.data is used
        ctx.note('model_not_applicable')
        ctx.samples.append(str(e))
        return
      if buffer > 1 and n > 1 and draws * mb * cache > 1:
        ctx.check(len(seen) > 1, f'{what}: not shuffled')


def run_chains(case, ctx):
  """All interleavings of the chains."""
  n = case['n']
  sizes = ((1, 1), (2, 2), (n, 1))
  alone = []
  for cache, mb in sizes:
    alone.append([k % n for k in range(6 * cache * mb)])
  for schedule in itertools.product(range(3), repeat=5 if ctx.tier == 'quick'
                                    else 6):
    if schedule[0] > schedule[1]:
      continue
    loader, ds = make(n, 'single', shuffle_cache=1)
    chains, got = {}, {0: [], 1: [], 2: []}
    for c in schedule:
      cache, mb = sizes[c]
      if c not in chains:
        # chains are registered late
        chains[c] = loader.register_random_pipeline(cache_size=cache, mb_size=mb)
        ctx.check(chains[c] == len(chains) - 1 or len(set(chains.values())) ==
                  len(chains), f'{case}: chain ids {chains}')
      got[c] += pull(ctx, loader, chains[c], ds, mb, cache, 1,
                     f'{case} schedule {schedule}')
    for c in got:
      ctx.check(got[c] == alone[c][:len(got[c])],
                f'{case} schedule {schedule}: chain {c} returns {got[c]}')
    ctx.state(n, schedule)
    ctx.trace(schedule)


def run_api(case, ctx):
  n, mb = case['n'], case['mb']
  for cache in (1, 2):
    loader, ds = make(n, 'std', shuffle_cache=1)
    init, get, release = data.random_reference_data(loader, cache, mb)
    states = [init(), init()]
    fn = jax.jit(partial(get, information=True))
    pos = [0, 0]
    for t, c in enumerate([0, 0, 1, 0, 1, 1, 1, 0] * 2):
      states[c], (batch, info) = fn(states[c])
      want = [(pos[c] + k) % n for k in range(mb)]
      ctx.equal(np_tree(batch), {k: v[want] for k, v in ds.items()},
                f'{case} cache {cache} batch {t} of chain {c}')
      ctx.check(int(info.observation_count) == n and int(info.batch_size) == mb
                and onp.asarray(info.mask).all() and onp.shape(info.mask) == (mb,),
                f'{case}: information {info}')
      pos[c] += mb
      ctx.step()
    release()
    ctx.trace((n, mb, cache))
    ctx.state('api', n, mb, cache)


def run_format(case, ctx):
  variant = case['variant']
  for n in (2, 4):
    loader, ds = make(n, variant, shuffle_cache=1)
    ctx.check(int(loader.static_information['observation_count']) == n,
              f'{case}: {loader.static_information}')
    one = loader.initializer_batch()
    why = tree_diff(np_tree(one), tree_util.tree_map(lambda x: onp.zeros_like(
      x[0]), ds), dtype=True)
    ctx.check(why is None, f'{case}: initializer batch of one observation: {why}')
    for mb in range(1, n + 1):
      zeros = loader.initializer_batch(mb)
      why = tree_diff(np_tree(zeros), tree_util.tree_map(lambda x: onp.zeros_like(
        x[:mb]), ds), dtype=True)
      ctx.check(why is None, f'{case}: initializer batch {mb}: {why}')
      for cache in (1, 2):
        chain = loader.register_random_pipeline(cache, mb)
        ids = pull(ctx, loader, chain, ds, mb, cache, 3, f'{case} {mb} {cache}')
        ctx.check(ids == [k % n for k in range(len(ids))], f'{case}: {ids}')
        init, get, release = data.random_reference_data(loader, cache, mb)
        _, batch = jax.jit(get)(init())
        why = tree_diff(np_tree(batch), tree_util.tree_map(lambda x: x[:mb], ds),
                        dtype=True)
        ctx.check(why is None, f'{case} batch size {mb} cache {cache}: {why}')
        release()
        ctx.trace((n, mb, cache))
        ctx.state(variant, n, mb, cache)
  for call in (lambda: loader.register_ordered_pipeline(1, 1),):
    try:
      call()
    except NotImplementedError:
      continue
    ctx.note('ordered_pipelines')
