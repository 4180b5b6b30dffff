"""C01: full-data maps visit every observation exactly once, in order."""
import math

from mc.lib import *

PROPERTY = 'C01'
INFO = {
  'rule': ('one case per (data loader, observation count N, batch size, cache '
           'size, interface); in each case all combinations of masking, '
           'information, batched and execution mode and all sequences of '
           'passes over two interleaved data states are executed on the real '
           'map functions and compared with a sequential loop over the '
           'dataset'),
  'bounds': {'quick': 'N<=7 (single cases up to 70000), batch<=N, cache in {1,2,3,4,5,7}, <=7 passes, all '
                      'interleavings of 4 passes over 2 data states',
             'thorough': 'N<=13 (single cases up to 70000), batch<=N, cache<=8, <=9 passes, all '
                         'interleavings of 5 passes over 2 data states'},
  'assumptions': ['single host process, CPU backend']}


def cases(tier):
  n_max = 7 if tier == 'quick' else 13
  caches = [1, 2, 3, 4, 5, 7] if tier == 'quick' else list(range(1, 9))
  out = []
  for n in range(1, n_max + 1):
    for mb in range(1, n + 1):
      out.append(dict(kind='device', api='full', n=n, mb=mb, cache=1))
      out.append(dict(kind='device', api='full', n=n, mb=mb, cache=2 + n % 3))
      out.append(dict(kind='device', api='mapper', n=n, mb=mb, cache=1))
      for cache in caches:
        out.append(dict(kind='numpy', api='full', n=n, mb=mb, cache=cache))
        if cache in (1, 3, 4):
          out.append(dict(kind='numpy', api='mapper', n=n, mb=mb, cache=cache))
        if cache in (1, 3) and n <= (5 if tier == 'quick' else 9):
          out.append(dict(kind='hdf5', api='full', n=n, mb=mb, cache=cache))
        if cache == 2:
          out.append(dict(kind='toy', api='full', n=n, mb=mb, cache=cache))
  for n, mb in [(13, 5), (16, 4), (17, 16), (33, 10), (33, 32)]:
    for cache in (1, 3):
      out.append(dict(kind='numpy', api='full', n=n, mb=mb, cache=cache))
    out.append(dict(kind='device', api='full', n=n, mb=mb, cache=1))
  # more observations, batches and cached batches than fit into small integers
  for n, mb, cache in [(130, 9, 140), (257, 16, 7), (300, 1, 260),
                       (1000, 37, 1), (1000, 999, 2), (70000, 1000, 3)]:
    for kind in ('numpy', 'device'):
      for api in ('full', 'mapper'):
        out.append(dict(kind=kind, api=api, n=n, mb=mb,
                        cache=1 if kind == 'device' else cache))
  out.append(dict(kind='reject', api='full', n=4, mb=5, cache=1))
  return out


def make_loader(kind, n):
  ds = make_dataset(n)
  if kind == 'numpy':
    return NumpyDataLoader(**ds), ds
  if kind == 'device':
    return DeviceNumpyDataLoader(**ds), ds
  if kind == 'hdf5':
    from jax_sgmc.data.hdf5_loader import HDF5Loader
    f = h5_mem()
    for k, v in ds.items():
      f[f'/chain~0/variables/{k}'] = v
    sample = {k: jnp.zeros(v.shape[1:], v.dtype) for k, v in ds.items()}
    return HDF5Loader(f, sample=sample), ds
  if kind == 'toy':
    loader = ToyHostLoader(n_obs=n, base=1)
    vals = onp.arange(n, dtype=onp.int32) + 1
    # same names as the other datasets
    class Renamed(ToyHostLoader):
      @property
      def _format(self):
        f = super()._format
        return {'x': f['v'], 'y': f['w']}
      def get_batches(self, chain_id):
        b, m = super().get_batches(chain_id)
        return {'x': b['v'], 'y': b['w']}, m
    loader = Renamed(n_obs=n, base=1)
    return loader, {'x': vals, 'y': onp.stack([vals, -2 * vals], -1).astype(
      onp.float32)}
  raise ValueError(kind)


def mapped(masking, information):
  """The function that is mapped over the dataset."""
  def body(batch, mask, carry):
    info = None
    if information:
      batch, info = batch
    x, y = batch['x'], batch['y']
    res = {'x': x * 7 + 1, 'y': 2 * y, 'raw': x}
    if info is not None:
      res['imask'] = jnp.asarray(info.mask, dtype=jnp.int32) * jnp.ones_like(x)
      if masking:
        res['icount'] = jnp.asarray(info.observation_count, dtype=jnp.int32)
        res['isize'] = jnp.asarray(info.batch_size, dtype=jnp.int32)
      else:
        res['icount'] = jnp.full_like(x, info.observation_count)
        res['isize'] = jnp.full_like(x, info.batch_size)
    if masking:
      m = jnp.asarray(mask, dtype=jnp.int32)
      res['mask'] = m
      weights = jnp.arange(x.shape[0], dtype=jnp.int32) + 1
      h = carry['h'] * 31 + jnp.sum(m * x * weights, dtype=jnp.int32)
    else:
      h = carry['h'] * 3 + 1
    return res, {'h': h, 'k': carry['k'] + 1}
  if masking:
    return lambda batch, mask, carry: body(batch, mask, carry)
  return lambda batch, carry: body(batch, None, carry)


def wrap(h):
  """32 bit integer arithmetic."""
  return ((h + 2 ** 31) % 2 ** 32) - 2 ** 31


def verify(ctx, got, carry, ds, n, mb, masking, information, offset, check_imask,
           what):
  nb = math.ceil(n / mb)
  order = (onp.arange(n) + offset) % n
  x, y = ds['x'][order], ds['y'][order]
  if not masking:
    ctx.equal(got['x'], x * 7 + 1, f'{what}: result per observation (x)')
    ctx.equal(got['y'], 2 * y, f'{what}: result per observation (y)')
    if information:
      if check_imask:
        ctx.equal(got['imask'], onp.ones(n, onp.int32), f'{what}: info mask')
      ctx.equal(got['icount'], onp.full(n, n), f'{what}: observation count')
      ctx.equal(got['isize'], onp.full(n, mb), f'{what}: batch size')
    h = 0
    for _ in range(nb):
      h = wrap(h * 3 + 1)
  else:
    valid = onp.arange(nb * mb).reshape(nb, mb) < n
    ctx.equal(onp.asarray(got['mask']).astype(bool), valid, f'{what}: mask')
    gx = onp.asarray(got['raw']).reshape(-1)
    known = set(ds['x'].tolist())
    gy = onp.asarray(got['y']).reshape(nb * mb, -1)
    ctx.equal(gx[:n], x, f'{what}: valid observations in order')
    ctx.equal(gy[:n], 2 * y, f'{what}: valid observations in order (y)')
    ctx.check(all(v in known for v in gx[n:].tolist()),
              f'{what}: fillers are no observations: {gx[n:]}')
    ctx.check(len(set(gx[n:].tolist())) == len(gx[n:]),
              f'{what}: fillers are repeated: {gx[n:]}')
    if information:
      if check_imask:
        ctx.equal(onp.asarray(got['imask']).astype(bool), valid,
                  f'{what}: mask of the batch information')
      ctx.equal(got['icount'], onp.full(nb, n), f'{what}: observation count')
      ctx.equal(got['isize'], onp.full(nb, mb), f'{what}: batch size')
    h = onp.int64(0)
    xs = onp.concatenate([x, onp.zeros(nb * mb - n, x.dtype)]).reshape(nb, mb)
    for b in range(nb):
      h = h * 31 + int((xs[b].astype(onp.int64) * (onp.arange(mb) + 1)).sum())
      h = wrap(h)
  ctx.equal(carry['h'], onp.int32(h), f'{what}: carry threaded in order')
  ctx.equal(carry['k'], onp.int32(nb), f'{what}: number of batches')


def carry0():
  return {'h': jnp.array(0, jnp.int32), 'k': jnp.array(0, jnp.int32)}


def run(case, ctx):
  n, mb, cache, kind = case['n'], case['mb'], case['cache'], case['kind']
  if kind == 'reject':
    for loader in (NumpyDataLoader(**make_dataset(n)),
                   DeviceNumpyDataLoader(**make_dataset(n))):
      for fn in (data.full_reference_data, data.full_data_mapper):
        try:
          fn(loader, cache, mb)
        except (ValueError, AssertionError):
          ctx.trace()
          continue
        ctx.fail('batch larger than the dataset is not rejected')
    return
  if case['api'] == 'full':
    run_full(case, ctx, n, mb, cache, kind)
  else:
    run_mapper(case, ctx, n, mb, cache, kind)


def run_full(case, ctx, n, mb, cache, kind):
  passes = min(max(3, cache), 9)
  check_imask = kind != 'toy'
  for masking in (False, True):
    for information in (False, True):
      loader, ds = make_loader(kind, n)
      init, map_fn, release = data.full_reference_data(loader, cache, mb)
      f = mapped(masking, information)

      def one_pass(state):
        return map_fn(f, state, carry0(), masking=masking,
                      information=information)
      modes = [('jit', jax.jit(one_pass))]
      if masking and information and n <= 40 or n <= 3:
        modes.append(('eager', one_pass))
      for mode, fn in modes:
        offsets = [0]
        if kind == 'device':
          offsets = range(n) if n <= 40 else [0, n // 2, n - 1]
          offsets = offsets if mode == 'jit' else [n - 1]
        for offset in offsets:
          state = init(offset=offset) if kind == 'device' and offset else init()
          for p in range(passes):
            what = (f'{kind} N={n} mb={mb} cache={cache} masking={masking} '
                    f'information={information} {mode} offset={offset} pass {p}')
            ctx.history = what
            if mode == 'eager':
              with jax.disable_jit():
                state, (res, carry) = fn(state)
            else:
              state, (res, carry) = fn(state)
            verify(ctx, res, carry, ds, n, mb, masking, information, offset,
                   check_imask, what)
            ctx.step(math.ceil(n / mb))
            ctx.state(n, mb, cache, masking, information, offset,
                      p * math.ceil(n / mb) % cache)
          ctx.trace(what)
      # all interleavings of passes over two data states
      if masking and information:
        fn = modes[0][1]
        length = 4 if ctx.tier == 'quick' else 5
        seqs = list(sequences((0, 1), length)) if n <= 5 else [
          (0, 1, 0, 1), (1, 1, 0, 1)]
        for seq in seqs:
          if kind == 'device':
            offs = (0, n // 2)
            states = [init(), init(offset=n // 2)]
          else:
            offs = (0, 0)
            states = [init(), init()]
          for k, i in enumerate(seq):
            what = f'{case} interleaved passes {seq} step {k}'
            ctx.history = what
            states[i], (res, carry) = fn(states[i])
            verify(ctx, res, carry, ds, n, mb, masking, information, offs[i],
                   check_imask, what)
            ctx.step(math.ceil(n / mb))
          ctx.trace(what)
      release()


def run_mapper(case, ctx, n, mb, cache, kind):
  for masking in (False, True):
    loader, ds = make_loader(kind, n)
    mapper, release = data.full_data_mapper(loader, cache, mb)
    f = mapped(masking, masking)

    @jax.jit
    def twice(c):
      first = mapper(f, c, masking=masking, information=masking)
      return first, mapper(f, carry0(), masking=masking, information=masking)
    for p in range(3 if cache <= 3 else 5):
      for k, (res, carry) in enumerate(twice(carry0())):
        what = f'mapper {case} masking={masking} call {p}.{k}'
        ctx.history = what
        verify(ctx, res, carry, ds, n, mb, masking, masking, 0, True, what)
        ctx.step(math.ceil(n / mb))
    ctx.trace(what)
    with jax.disable_jit(n <= 40):
      res, carry = mapper(f, carry0(), masking=masking, information=masking)
      verify(ctx, res, carry, ds, n, mb, masking, masking, 0, True,
             f'mapper {case} masking={masking} eager')
      ctx.trace()
    release()
  # unbatched functions are vectorized
  loader, ds = make_loader(kind, n)
  mapper, release = data.full_data_mapper(loader, cache, mb)

  def single(obs, carry):
    ctx.check(jnp.shape(obs['x']) == () and jnp.shape(obs['y']) == (2,),
              f'unbatched function called with shapes {jnp.shape(obs["x"])} '
              f'{jnp.shape(obs["y"])}')
    return ({'x': obs['x'] * 5, 'y': jnp.sum(obs['y'])},
            None if carry is None else {'k': carry['k'] * 3 + 1})
  for carry in (None, {'k': jnp.array(0, jnp.int32)}):
    fn = jax.jit(lambda c: mapper(single, c, batched=False))
    for p in range(2):
      what = f'mapper {case} batched=False carry={carry} call {p}'
      ctx.history = what
      res, c = fn(carry)
      ctx.equal(res['x'], ds['x'] * 5, f'{what}: results')
      ctx.close(res['y'], ds['y'].sum(-1), f'{what}: results')
      if carry is not None:
        h = 0
        for _ in range(math.ceil(n / mb)):
          h = wrap(3 * h + 1)
        ctx.equal(c['k'], onp.int32(h), f'{what}: carry')
      ctx.step(math.ceil(n / mb))
    ctx.trace(what)
  release()
  if kind in ('numpy', 'device') and n <= 40:
    run_shapes(case, ctx, n, mb, cache, kind)


# Shapes of a single observation (singleton and empty dimensions, dtypes)
SHAPES = {'s': ((), onp.int32), 's1': ((1,), onp.float32),
          's12': ((1, 2), onp.int32), 's21': ((2, 1), onp.float32),
          's11': ((1, 1), onp.int32), 's0': ((0,), onp.float32),
          'b': ((2,), onp.bool_), 'u': ((1,), onp.uint8)}


def run_shapes(case, ctx, n, mb, cache, kind):
  """Results equal the observations for observations of every shape."""
  ds = {}
  for i, (name, (shape, dtype)) in enumerate(SHAPES.items()):
    size = int(onp.prod(shape))
    ds[name] = (onp.arange(n * size).reshape((n,) + shape) * (i + 1) % 5 +
                onp.arange(n).reshape((n,) + (1,) * len(shape))).astype(dtype)
  cls = NumpyDataLoader if kind == 'numpy' else DeviceNumpyDataLoader
  for api in ('full', 'batched', 'single'):
    what = f'{case} observations of several shapes, {api}'
    ctx.history = what
    if api == 'full':
      init, map_fn, release = data.full_reference_data(cls(**ds), cache, mb)
      _, (res, _) = jax.jit(
        lambda s: map_fn(lambda b, c: (b, c), s, None))(init())
    else:
      mapper, release = data.full_data_mapper(cls(**ds), cache, mb)

      def echo(obs, carry):
        if api == 'single':
          ctx.check({k: jnp.shape(v) for k, v in obs.items()}
                    == {k: s for k, (s, _) in SHAPES.items()},
                    f'{what}: {tree_util.tree_map(jnp.shape, obs)}')
        return {k: v for k, v in obs.items()}, carry
      res, _ = jax.jit(
        lambda: mapper(echo, None, batched=api != 'single'))()
    for name in ds:
      ctx.equal(res[name], ds[name], f'{what}: {name}')
    ctx.step(math.ceil(n / mb))
    ctx.trace(what)
    release()
