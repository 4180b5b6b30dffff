"""C23: Initializer batches and declared formats match the data."""
from mc.lib import *

PROPERTY = 'C23'
INFO = {
  'rule': ('all datasets of two features over row shapes, dtypes, kinds of '
           'arrays, numbers of observations and copy settings are passed to the '
           'real loaders; the initializer batches, announced formats and '
           'information are compared with batches of all sizes delivered by all '
           'pipelines; all combinations of unequal lengths are rejected; all '
           'orders of changing the passed arrays and drawing batches are run'),
  'bounds': {'quick': 'N <= 4, cache <= 3', 'thorough': 'N <= 7, cache <= 4'},
  'assumptions': ['formats are compared in the default precision of jax']}

SHAPES = ((), (1,), (3,), (2, 3), (1, 2, 1), (0,))
DTYPES = ('float32', 'float64', 'int32', 'int64', 'uint8', 'bool', 'float16',
          'int16', 'complex64', 'uint32')
KINDS = ('numpy', 'jax', 'list', 'reversed', 'fortran', 'readonly')


def cases(tier):
  quick = tier == 'quick'
  out = []
  for loader in ('host', 'device', 'hdf5'):
    for shape in range(len(SHAPES)):
      for n in range(1, 5 if quick else 8):
        out.append(dict(mode='format', loader=loader, shape=shape, n=n,
                        caches=3 if quick else 4))
    for n in (1, 2, 3, 5):
      out.append(dict(mode='access', loader=loader, n=n))
    out.append(dict(mode='reject', loader=loader))
  for loader in ('host', 'device'):
    for n in (2, 3):
      out.append(dict(mode='copy', loader=loader, n=n))
  return out


def array(n, shape, dtype, offset=0):
  size = n * int(onp.prod(shape))
  v = onp.arange(size).reshape((n,) + shape) + 1 + offset
  if dtype == 'bool':
    v = v % 2 == 0
  elif dtype == 'complex64':
    v = v + 1j * (v + 1)
  elif dtype.startswith('float'):
    v = v * 0.5
  elif dtype == 'uint32':
    v = v + 2 ** 31
  return v.astype(dtype)


def passed(a, kind):
  """The array as it is passed by the user."""
  if kind == 'jax':
    return jnp.asarray(a)
  if kind == 'list':
    return list(a)
  if kind == 'reversed':
    return onp.ascontiguousarray(a[::-1])[::-1]
  if kind == 'fortran':
    return onp.asfortranarray(a)
  if kind == 'readonly':
    a = a.copy()
    a.flags.writeable = False
  return a


def make(loader, ds, kinds=('numpy', 'numpy'), copy=True):
  if loader == 'hdf5':
    from jax_sgmc.data.hdf5_loader import HDF5Loader
    file = h5_mem()
    for k, v in ds.items():
      file[f'/chain~0/variables/{k}'] = v
    return HDF5Loader(file, sample={k: v[0] for k, v in ds.items()})
  cls = NumpyDataLoader if loader == 'host' else DeviceNumpyDataLoader
  return cls(copy=copy, **{k: passed(v, kind) for (k, v), kind in zip(
    ds.items(), kinds)})


def canonical(x):
  return onp.dtype(jax.dtypes.canonicalize_dtype(x))


def spec(tree):
  return tree_util.tree_map(lambda x: (tuple(onp.shape(x)), canonical(x.dtype)),
                            tree)


def same_format(ctx, got, want, what):
  a, b = tree_util.tree_structure(got), tree_util.tree_structure(want)
  ctx.check(a == b, f'{what}: structure {a} instead of {b}')
  for g, w in zip(tree_util.tree_leaves(got), tree_util.tree_leaves(want)):
    ctx.check(tuple(g.shape) == tuple(w.shape) and
              canonical(g.dtype) == canonical(w.dtype),
              f'{what}: {g.dtype}{tuple(g.shape)} instead of '
              f'{w.dtype}{tuple(w.shape)}')


def zeros(ctx, tree, what):
  for x in tree_util.tree_leaves(tree):
    ctx.check(not onp.asarray(x).any(), f'{what}: not zero: {x}')


def run(case, ctx):
  globals()['run_' + case['mode']](case, ctx)


def run_format(case, ctx):
  n, shape = case['n'], SHAPES[case['shape']]
  for i, dtype in enumerate(DTYPES):
    other = DTYPES[(i * 3 + 1 + case['shape']) % len(DTYPES)]
    if case['loader'] == 'hdf5' and 'complex64' in (dtype, other):
      continue
    other_shape = SHAPES[(case['shape'] + i + 1) % len(SHAPES)]
    ds = {'f': array(n, shape, dtype), 'a': array(n, other_shape, other, 3)}
    settings = [(k, l, c) for j, (k, l) in enumerate(itertools.product(
      KINDS, repeat=2)) for c in (True, False)
                if (j + i) % 5 == 0] if case['loader'] != 'hdf5' else [
                  ('numpy', 'numpy', True)]
    for k, l, copy in settings:
      what = f'{case} {dtype} {other} passed as {k}, {l} copy={copy}'
      ctx.history = what
      loader = make(case['loader'], ds, (k, l), copy)
      info = loader.static_information
      ctx.check(int(info['observation_count']) == n, f'{what}: {info}')
      one = loader.initializer_batch()
      same_format(ctx, one, {key: v[0] for key, v in ds.items()},
                  f'{what}: single observation')
      zeros(ctx, one, what)
      for mb in range(1, n + 1):
        batch = loader.initializer_batch(mb)
        want = {key: v[:mb] for key, v in ds.items()}
        same_format(ctx, batch, want, f'{what}: initializer batch {mb}')
        zeros(ctx, batch, what)
        ctx.check(all(isinstance(x, jax.Array) for x in tree_util.tree_leaves(
          batch)), f'{what}: initializer batch is no jax array')
        if case['loader'] == 'device':
          state = loader.init_random_data(key=random.PRNGKey(mb))
          _, (drawn, binfo) = loader.get_random_data(state, mb)
          same_format(ctx, drawn, batch, f'{what}: drawn batch {mb}')
          ctx.check(int(binfo.batch_size) == mb and
                    int(binfo.observation_count) == n and
                    onp.shape(binfo.mask) == (mb,), f'{what}: {binfo}')
          ctx.step()
          continue
        for cache in range(1, case['caches'] + 1):
          if mb != n and cache == 3:
            continue
          fmt, binfo = loader.batch_format(cache, mb)
          ctx.check(int(binfo.batch_size) == mb and
                    int(binfo.observation_count) == n and
                    onp.shape(binfo.mask) == (mb,), f'{what}: {binfo}')
          for kind in ('ordered', 'random'):
            register = getattr(loader, f'register_{kind}_pipeline')
            chain = register(cache_size=cache, mb_size=mb)
            drawn, mask = loader.get_batches(chain)
            same_format(ctx, drawn, fmt, f'{what}: {kind} batch {mb} cache '
                                         f'{cache}')
            same_format(ctx, tree_util.tree_map(lambda x: x[0], drawn), batch,
                        f'{what}: {kind} batch {mb}')
            ctx.check(onp.shape(mask) == (cache, mb) and
                      onp.asarray(mask).dtype == onp.bool_, f'{what}: {mask}')
            if kind == 'ordered':
              first = tree_util.tree_map(lambda x: onp.asarray(x[0]), drawn)
              why = tree_diff(first, tree_util.tree_map(
                lambda x: x.astype(canonical(x.dtype)), want), dtype=True)
              ctx.check(why is None, f'{what}: first batch: {why}')
            ctx.step()
      ctx.trace(what)
      ctx.state(case['loader'], n, shape, dtype, other, k, l, copy)


def run_access(case, ctx):
  """Through the functions of the data module."""
  n = case['n']
  ds = {'x': array(n, (), 'int64'), 'y': array(n, (2, 1), 'float64'),
        'z': array(n, (3,), 'bool')}
  for mb in range(1, n + 1):
    for cache in (1, 2):
      if cache == 2 and case['loader'] == 'device':
        continue
      loader = make(case['loader'], ds, ('numpy',) * 3, copy=bool(mb % 2))
      batch = loader.initializer_batch(mb)
      what = f'{case} batch {mb} cache {cache}'
      init, get, release = data.random_reference_data(loader, cache, mb)
      state = init()
      for fn in (jax.jit(partial(get, information=True)),
                 partial(get, information=True)):
        for t in range(cache + 1):
          state, (drawn, info) = fn(state)
          same_format(ctx, drawn, batch, f'{what}: random batch')
          ctx.check(int(info.observation_count) == n and
                    int(info.batch_size) == mb and
                    onp.shape(info.mask) == (mb,), f'{what}: {info}')
          ctx.step()
      release()
      for masking in (False, True):
        init, fmap, release = data.full_reference_data(loader, cache, mb)
        seen = []

        def body(b, *args):
          (b, info), carry = b, args[-1]
          seen.append((spec(b), info.batch_size, info.observation_count))
          count = jnp.asarray(info.observation_count) * jnp.ones(
            () if masking else (mb,), int)
          size = jnp.asarray(info.batch_size) * jnp.ones(
            () if masking else (mb,), int)
          return (b, count, size), carry
        _, ((rows, count, size), _) = jax.jit(lambda s: fmap(
          body, s, None, masking=masking, information=True))(init())
        for s, _, _ in seen:
          ctx.check(s == spec(batch), f'{what}: the mapped function receives {s} '
                                      f'instead of {spec(batch)}')
        ctx.check(bool(seen), f'{what}: not called')
        ctx.check((onp.asarray(count) == n).all() and
                  (onp.asarray(size) == mb).all(), f'{what}: information {count} '
                                                   f'{size}')
        release()
        ctx.step()
      ctx.trace(what)
      ctx.state(case['loader'], n, mb, cache)


def run_reject(case, ctx):
  """All combinations of lengths."""
  for lengths in itertools.product((1, 2, 3, 4), repeat=3):
    ds = {k: array(m, s, d) for k, m, s, d in zip(
      'cab', lengths, ((), (2,), (1,)), ('float32', 'int32', 'bool'))}
    for copy in (True, False) if case['loader'] != 'hdf5' else (True,):
      try:
        loader = make(case['loader'], ds, ('numpy', 'jax', 'list'), copy)
      except (ValueError, AssertionError):
        loader = None
      what = f'{case} lengths {lengths} copy {copy}'
      equal = len(set(lengths)) == 1
      ctx.check((loader is not None) == equal,
                f'{what}: {"rejected" if equal else "accepted"}')
      if equal:
        ctx.check(int(loader.static_information['observation_count']) ==
                  lengths[0], f'{what}: {loader.static_information}')
        for mb in (lengths[0] + 1, lengths[0] + 3):
          for fn in (lambda: data.random_reference_data(loader, 1, mb),
                     lambda: data.full_reference_data(loader, 1, mb)):
            try:
              fn()
            except (ValueError, AssertionError):
              continue
            ctx.fail(f'{what}: batch size {mb} accepted')
      ctx.step()
      ctx.state(case['loader'], lengths, copy)
    ctx.trace(lengths)


def run_copy(case, ctx):
  """All orders of changes and draws."""
  n = case['n']
  device = case['loader'] == 'device'
  length = 5 if ctx.tier == 'quick' else 7
  for copy in (True, False):
    for kind in ('numpy', 'fortran', 'reversed'):
      for events in itertools.product('cd', repeat=length):
        if events[-1] != 'd':
          continue
        ds = {'x': array(n, (), 'float32'), 'y': array(n, (2,), 'int32')}
        original = {k: v.copy() for k, v in ds.items()}
        given = {k: passed(v, kind) for k, v in ds.items()}
        cls = DeviceNumpyDataLoader if device else NumpyDataLoader
        # the data are copied by default
        loader = cls(**given) if copy else cls(copy=False, **given)
        if device:
          get = lambda: loader.get_full_data()
        else:
          chain = loader.register_ordered_pipeline(cache_size=1, mb_size=n)
          get = lambda: {k: onp.asarray(v)[0] for k, v in loader.get_batches(
            chain)[0].items()}
        kept = []
        changes = 0
        what = f'{case} copy={copy} {kind} events {"".join(events)}'
        ctx.history = what
        for e in events:
          if e == 'c':
            changes += 1
            for k in given:
              given[k][changes % n] = -7 * changes
          else:
            got = {k: onp.array(v) for k, v in get().items()}
            # a reference to the data follows the changes
            want = original if copy else {k: onp.array(v) for k, v in
                                          given.items()}
            if copy or not device:
              why = tree_diff(got, want, dtype=True)
              ctx.check(why is None, f'{what}: after {changes} changes: {why}')
            kept.append(got)
          ctx.step()
        ctx.check(int(loader.static_information['observation_count']) == n, what)
        ctx.trace(what)
        ctx.state(case['loader'], n, copy, kind, events)
