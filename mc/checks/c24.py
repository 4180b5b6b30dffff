"""C24: values in double precision are never rounded to single precision."""
import importlib

from mc.lib import *

PROPERTY = 'C24'
ENV = {'JAX_ENABLE_X64': '1',
       'XLA_FLAGS': '--xla_force_host_platform_device_count=4'}
INFO = {
  'rule': ('with double precision enabled: all sequences of reading operations '
           'of all data loaders over observations which single precision and '
           '32 bit integers cannot represent, all keep patterns through all '
           'saving strategies, and the exhaustive cases of the schedulers, '
           'potentials, integrators, adaptions and solvers (C12, C14 to C18, '
           'C22), compared with the same references but a tolerance of '
           '2e-9 instead of 2e-4'),
  'bounds': {
    'quick': 'data: N<=5, all batch sizes, cache<=2, all readings of two '
             'epochs; saving: patterns <=4; a fixed part of the quick cases '
             'of the other checks',
    'thorough': 'data: N<=7, cache<=3; patterns <=6; all quick cases of the '
                'other checks'},
  'assumptions': ['samples, data and parameters are given in double precision',
                  'statistical comparisons of other checks are not repeated']}

# every k-th case of the other checks
REUSE = {'c12': 2, 'c14': 4, 'c15': 5, 'c16': 6, 'c17': 9, 'c18': 6, 'c22': 15}
SKIP = {'keys', 'driver', 'init', 'vmap', 'chains', 'ring'}


def cases(tier):
  quick = tier == 'quick'
  out = []
  for loader in ('numpy', 'device', 'hdf5', 'tf'):
    for n in range(1, 6 if quick else 8):
      for mb in range(1, n + 1):
        out.append(dict(mode='data', loader=loader, n=n, mb=mb))
  for strategy in ('no_save', 'memory', 'npz', 'hdf5', 'json'):
    out.append(dict(mode='saving', strategy=strategy, length=4 if quick else 6))
  for m, stride in REUSE.items():
    mod = importlib.import_module('mc.checks.' + m)
    some = [c for c in mod.cases('quick') if c.get('mode') not in SKIP]
    for c in some[::stride if quick else 1]:
      out.append(dict(mode='reuse', module=m, case=c))
  return out


def run(case, ctx):
  globals()['run_' + case['mode']](case, ctx)


def run_reuse(case, ctx):
  mod = importlib.import_module('mc.checks.' + case['module'])
  ctx.check(jnp.array(0.5).dtype == jnp.float64, 'double precision is disabled')
  if case['module'] == 'c15':
    # the decision is the subject of C15
    mod.Decision = lambda ctx: (lambda *args: None)
  ctx.precision = 2e-9
  mod.run(dict(case['case']), ctx)


def rows(n):
  """Observations which cannot be represented with 32 bits."""
  i = onp.arange(n)
  return {'f': 1.0 + (2 * i + 1) * 2.0 ** -40,
          'g': onp.stack([i + 1e-9, -1.0 / (3.0 + i)], axis=-1),
          'h': 1e300 * (i + 1.0),
          'i': 2 ** 40 + 3 * i, 'b': i % 2 == 0,
          's': (i + 1).astype(onp.float32)}


def make(loader, ds):
  if loader == 'numpy':
    return NumpyDataLoader(**ds)
  if loader == 'device':
    return DeviceNumpyDataLoader(**ds)
  if loader == 'hdf5':
    from jax_sgmc.data.hdf5_loader import HDF5Loader
    file = h5_mem()
    for k, v in ds.items():
      file[f'/chain~0/variables/{k}'] = v
    return HDF5Loader(file, sample={k: v[0] for k, v in ds.items()})
  import tensorflow as tf
  from jax_sgmc.data.tensorflow_loader import TensorflowDataLoader
  tf.config.set_visible_devices([], 'GPU')
  return TensorflowDataLoader(tf.data.Dataset.from_tensor_slices(ds),
                              shuffle_cache=len(ds['i']))


def run_data(case, ctx):
  kind, n, mb = case['loader'], case['n'], case['mb']
  ds = rows(n)

  def same(batch, what):
    """All leaves belong to the same observations, without any rounding."""
    batch = {k: onp.asarray(v) for k, v in batch.items()}
    ctx.check(set(batch) == set(ds), f'{what}: keys {set(batch)}')
    idx = (batch['i'] - 2 ** 40) // 3
    ctx.check(((0 <= idx) & (idx < n)).all(), f'{what}: {batch["i"]} are no '
                                              f'observations')
    for k, v in ds.items():
      ctx.check(batch[k].dtype == v.dtype, f'{what}: {k} has dtype '
                                           f'{batch[k].dtype}')
      ctx.check(onp.array_equal(batch[k], v[idx]), f'{what}: {k} is '
                f'{batch[k]!r} instead of {v[idx]!r}')
    return tuple(idx.reshape(-1).tolist())
  batches = -(-n // mb)
  for cache in (1,) if kind == 'device' else (1, 2) if ctx.tier == 'quick' \
      else (1, 2, 3):
    loader = make(kind, ds)
    what = f'{case} cache {cache}'
    if loader.static_information['observation_count'] != n:
      ctx.fail(f'{what}: observation count')
    init, get, _ = data.random_reference_data(loader, cache, mb)
    for wrap in (jax.jit, lambda f: f):
      step = wrap(partial(get, information=True))
      state = init()
      for t in range(2 * batches + cache):
        state, (batch, info) = step(state)
        ids = same(batch, f'{what} random batch {t}')
        ctx.state(kind, n, mb, cache, ids)
        ctx.step()
      ctx.trace((kind, n, mb, cache))
    if kind == 'tf':
      continue
    # mapping over all observations
    mapped, carry = {}, jnp.array(0.0)
    init, scan, _ = data.full_reference_data(loader, cache, mb)

    def fun(batch, mask, carry):
      total = jnp.sum(jnp.where(mask, batch['f'] * batch['g'][:, 1], 0.0))
      return total, carry + total

    def plain(batch, carry):
      return batch, carry + 1
    for wrap in (jax.jit, lambda f: f):
      state = init()
      for k in range(2):
        state, (res, total) = wrap(lambda s: scan(
          fun, s, jnp.array(0.0), masking=True))(state)
        want = (ds['f'] * ds['g'][:, 1]).sum()
        ctx.check(total.dtype == jnp.float64 and res.dtype == jnp.float64,
                  f'{what}: results {res.dtype}, {total.dtype}')
        ctx.close(onp.asarray(total), want, f'{what} map {k}: carry',
                  rtol=1e-13, atol=0)
        ctx.close(onp.asarray(res).sum(), want, f'{what} map {k}: results',
                  rtol=1e-13, atol=0)
        state, (res, _) = wrap(lambda s: scan(plain, s, jnp.array(0)))(state)
        ids = same(res, f'{what} map {k} of all observations')
        ctx.check(ids == tuple(range(n)), f'{what} map {k}: order {ids}')
        ctx.step(2 * batches)
    mapper, _ = data.full_data_mapper(loader, cache, mb)
    for batched in (True, False):
      res, _ = jax.jit(lambda: mapper(lambda b, c: (b, c), jnp.array(0.0),
                                      batched=batched))()
      ids = same(res, f'{what} mapper batched={batched}')
      ctx.check(ids == tuple(range(n)), f'{what} mapper: order {ids}')
    ctx.trace((kind, n, mb, cache, 'map'))


def run_saving(case, ctx):
  import glob
  import json
  import shutil
  import tempfile
  strategy, length = case['strategy'], case['length']

  def sample(k):
    k = jnp.asarray(k)
    return {'f': 1.0 + (2.0 * k + 1.0) * 2.0 ** -40,
            'v': jnp.stack([k / 3.0, 1e200 * (k + 1.0)]),
            'i': (2 ** 40 + 3 * k.astype(jnp.int64)),
            's': k.astype(jnp.float32)}
  for keeps in sequences((False, True), length):
    folder = tempfile.mkdtemp(prefix='c24_')
    file = None
    try:
      if strategy == 'no_save':
        fns = io.no_save()
      else:
        if strategy == 'hdf5':
          file = h5_mem()
        fns = io.save({'memory': io.MemoryCollector,
                       'npz': lambda: io.MemoryCollector(folder),
                       'json': lambda: io.JSONCollector(folder),
                       'hdf5': lambda: io.HDF5Collector(file)}[strategy]())
      count = sum(keeps)
      state = fns[0](sample(0), {}, scheduler.static_information(
        samples_collected=count))
      what = f'{case} {keeps}'

      def body(state, x):
        return fns[1](state, x[1], sample(x[0]))[0], None
      out, _ = jax.jit(lambda s, k: lax.scan(body, s, (jnp.arange(length), k)))(
        state, jnp.array(keeps))
      res = fns[2](out, None)
      ctx.check(int(res['sample_count']) == count, f'{what}: count '
                                                   f'{res["sample_count"]}')
      kept = [k for k in range(length) if keeps[k]]
      want = {k: onp.stack([onp.asarray(sample(i)[k]) for i in kept]) if kept
              else None for k in sample(0)}
      if strategy == 'hdf5':
        got = {k: file[f'chain~0/{k}'][()] for k in want}
      elif strategy == 'json':
        files = glob.glob(folder + '/*.json')
        ctx.check(len(files) == (1 if kept else 0), f'{what}: files {files}')
        # the leaves of the sample in their order
        got = dict(zip(sorted(want), map(onp.asarray, json.load(open(
          files[0]))))) if kept else {}
      elif strategy == 'npz':
        got = dict(onp.load(glob.glob(folder + '/*.npz')[0]))
      else:
        got = {k: onp.asarray(v) for k, v in res['samples'].items()}
      if kept:
        ctx.check(set(got) == set(want), f'{what}: saved {set(got)}')
        for k in want:
          if strategy == 'json':
            ctx.check(onp.allclose(got[k], want[k], rtol=1e-15, atol=0),
                      f'{what}: {k} is {got[k]!r} instead of {want[k]!r}')
            continue
          ctx.check(got[k].dtype == want[k].dtype, f'{what}: {k} has dtype '
                                                   f'{got[k].dtype}')
          ctx.check(onp.array_equal(got[k], want[k]), f'{what}: {k} is '
                    f'{got[k]!r} instead of {want[k]!r}')
      ctx.state('saving', strategy, keeps)
      ctx.trace(keeps, steps=length)
    finally:
      if file is not None:
        file.close()
      shutil.rmtree(folder)
