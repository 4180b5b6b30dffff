"""C02: random pipelines return well-formed batches, shuffling is complete."""
import math

from mc.lib import *
from mc.core import explore

PROPERTY = 'C02'
INFO = {
  'rule': ('one case per (loader, pipeline, N, batch, cache); scripted cases '
           'replace the random generator and enumerate every sequence of '
           'permutations / draws the generator can return; the other cases '
           'run long histories over all alignments of batch, cache and ring '
           'buffer; every batch is compared with the definition'),
  'bounds': {
    'quick': 'all random outcomes: N<=4 (<=700 outcome sequences per case), '
             'histories up to 6 epochs; real generator: N<=9, all batch '
             'sizes, cache<=4, >=8 epochs',
    'thorough': 'all random outcomes: N<=5 (<=15000 sequences per case); real '
                'generator: N<=16, cache<=6, >=16 epochs'},
  'assumptions': ['the numpy generator returns uniform permutations/draws']}


def cases(tier):
  quick = tier == 'quick'
  out = []
  for n in range(1, 5 if quick else 6):
    for mb in range(1, n + 1):
      for cache in (1, 2, 3):
        for kind in ('shuffle', 'epochs', 'draw'):
          if kind == 'draw' and (n > 3 or mb > 2):
            continue
          out.append(dict(mode='scripted', kind=kind, n=n, mb=mb, cache=cache))
  for n in range(1, 10 if quick else 17):
    for mb in range(1, n + 1):
      for kind in ('shuffle', 'epochs', 'draw'):
        out.append(dict(mode='long', kind=kind, n=n, mb=mb))
  for n in range(1, 6):
    for mb in range(1, n + 1):
      out.append(dict(mode='coverage', n=n, mb=mb))
      out.append(dict(mode='device', n=n, mb=mb))
      out.append(dict(mode='api', n=n, mb=mb))
  for n in range(10, 41 if quick else 101):
    out.append(dict(mode='wide', n=n))
  for n in (150, 300, 1100) if quick else (150, 300, 1100, 5000):
    for mb in (7, 64, n):
      out.append(dict(mode='many', n=n, mb=mb))
  out.append(dict(mode='reject', n=4, mb=5))
  return out


KW = {'shuffle': dict(shuffle=True),
      'epochs': dict(shuffle=True, in_epochs=True), 'draw': {}}


class ScriptedGenerator:
  """Generator of which the results are selected by the explorer."""

  def __init__(self, real, choose):
    self._real, self._choose = real, choose

  def _perm(self, seq):
    seq, out = list(seq), []
    # one choice point per permutation
    idx = self._choose(math.factorial(len(seq)))
    for k in range(len(seq), 0, -1):
      idx, r = divmod(idx, k)
      out.append(seq.pop(r))
    return onp.array(out)

  def choice(self, a, size=None, replace=True, p=None, **kwargs):
    a = onp.arange(a) if onp.ndim(a) == 0 else onp.asarray(a)
    if p is None and not replace and size == len(a):
      return self._perm(a)
    if p is None and replace and isinstance(size, int):
      return onp.array([a[self._choose(len(a))] for _ in range(size)])
    return self._real.choice(a, size=size, replace=replace, p=p, **kwargs)

  def permutation(self, x, axis=0):
    x = onp.arange(x) if onp.ndim(x) == 0 else onp.asarray(x)
    return x[self._perm(onp.arange(len(x)))]

  def integers(self, low, high=None, size=None, endpoint=False, **kwargs):
    lo, hi = (0, low) if high is None else (low, high)
    if isinstance(size, int):
      return onp.array([lo + self._choose(hi - lo + bool(endpoint))
                        for _ in range(size)])
    return self._real.integers(low, high, size, endpoint=endpoint, **kwargs)

  def __getattr__(self, name):
    return getattr(self._real, name)


def verify(ctx, loader, kind, n, mb, cache, ds, batches, what):
  """batches: list of (batch, mask) of single batches."""
  first = sorted(ds)[0] if 'x' not in ds else 'x'
  key = 'a' if 'a' in ds else first
  values = onp.asarray(ds[key])
  ids = []
  for t, (b, m) in enumerate(batches):
    ctx.check(set(b) == set(ds), f'{what}: batch {t} has the keys {set(b)}')
    for name in ds:
      ctx.check(b[name].shape == (mb,) + ds[name].shape[1:],
                f'{what}: batch {t} {name} has shape {b[name].shape}')
      ctx.check(b[name].dtype == ds[name].dtype,
                f'{what}: batch {t} {name} has dtype {b[name].dtype}')
    row = []
    for e in range(mb):
      pos = onp.flatnonzero(values == b[key][e])
      ctx.check(len(pos) == 1, f'{what}: batch {t} entry {e} holds no '
                               f'observation: {b[key][e]}')
      for name in ds:
        ctx.check(onp.array_equal(b[name][e], ds[name][pos[0]]),
                  f'{what}: batch {t} entry {e}: {name} does not belong to '
                  f'observation {pos[0]}')
      row.append(int(pos[0]))
    ids.append(row)
    ctx.check(m.shape == (mb,) and m.dtype == onp.bool_,
              f'{what}: mask {m.shape} {m.dtype}')
  if kind in ('shuffle', 'draw'):
    for t, (_, m) in enumerate(batches):
      ctx.check(m.all(), f'{what}: batch {t} contains invalid observations')
  if kind == 'shuffle':
    stream = [i for row in ids for i in row]
    for s in range(0, len(stream), n):
      part = stream[s:s + n]
      ctx.check(len(set(part)) == len(part),
                f'{what}: shuffled stream {stream} repeats observations in '
                f'permutation {s // n}: {part}')
  if kind == 'epochs':
    nb = math.ceil(n / mb)
    for s in range(0, len(batches) - nb + 1, nb):
      valid = [i for t in range(s, s + nb)
               for i, v in zip(ids[t], batches[t][1]) if v]
      ctx.check(sorted(valid) == list(range(n)),
                f'{what}: epoch {s // nb} contains the valid observations '
                f'{valid}')
  return ids


def draw(loader, chain, cache, count):
  out = []
  while len(out) < count:
    b, m = loader.get_batches(chain)
    b = {k: onp.asarray(v) for k, v in b.items()}
    m = onp.asarray(m)
    for c in range(cache):
      out.append(({k: v[c] for k, v in b.items()}, m[c]))
  return out


def run(case, ctx):
  globals()['run_' + case['mode']](case, ctx)


def run_scripted(case, ctx):
  n, mb, cache, kind = case['n'], case['mb'], case['cache'], case['kind']
  ds = make_dataset(n, ['std', 'one', 'deep'][(n + mb + cache) % 3])
  limit = 700 if ctx.tier == 'quick' else 15000
  if kind == 'draw':
    count = 1
    while n ** (mb * (count + cache)) <= limit and count < 6:
      count += cache
    budget = limit
  else:
    epochs = 1
    while math.factorial(n) ** (epochs + 1) <= limit and epochs < 6:
      epochs += 1
    # the number of permutations needed to fill a multiple of the cache may be
    # larger: the explorer enumerates all of them anyway
    count = max(1, epochs * n // mb)
    count -= count % cache
    count = max(count, cache)
    budget = limit
  real_rng = onp.random.default_rng

  def history(choose):
    onp.random.default_rng = lambda *a, **k: ScriptedGenerator(
      real_rng(*a, **k), choose)
    try:
      loader = NumpyDataLoader(**ds)
      chain = loader.register_random_pipeline(cache_size=cache, mb_size=mb,
                                              **KW[kind])
      batches = draw(loader, chain, cache, count)
    finally:
      onp.random.default_rng = real_rng
    ids = verify(ctx, loader, kind, n, mb, cache, ds, batches, str(case))
    ctx.trace(f'{case} ids={ids}', steps=len(batches))
    ctx.outcome((kind, n, mb, ids))
    for t in range(len(ids)):
      ctx.state(kind, n, mb, tuple(map(tuple, ids[:t + 1])))
  runs = explore(history, budget)
  ctx.note('scripted_histories', runs)


def run_long(case, ctx):
  n, mb, kind = case['n'], case['mb'], case['kind']
  quick = ctx.tier == 'quick'
  for cache in range(1, 5 if quick else 7):
    for seed in ([None, 7] if quick else [None, 7, 8, 9]):
      ds = make_dataset(n, ['std', 'one', 'deep'][(n + mb + cache) % 3])
      loader = NumpyDataLoader(**ds)
      kw = dict(KW[kind])
      if seed is not None:
        kw['seed'] = seed
      chain = loader.register_random_pipeline(cache_size=cache, mb_size=mb,
                                              **kw)
      # cover the ring buffer and the cache in every alignment
      count = (8 if quick else 16) * math.ceil(n / mb) + 2 * cache + 6
      batches = draw(loader, chain, cache, count)
      what = f'{case} cache={cache} seed={seed}'
      ids = verify(ctx, loader, kind, n, mb, cache, ds, batches, what)
      ctx.trace(what, steps=len(batches))
      for t in range(len(ids)):
        ctx.state(kind, n, mb, t % (n + 2))


def run_wide(case, ctx):
  """Larger data sets with all batch sizes, over some epochs."""
  n = case['n']
  ds = make_dataset(n)
  for mb in range(1, n + 1):
    for kind in ('shuffle', 'epochs', 'draw'):
      count = 3 * math.ceil(n / mb) + 2
      cache = [1, 2, 5, count][(n + mb) % 4]
      loader = NumpyDataLoader(**ds)
      chain = loader.register_random_pipeline(cache_size=cache, mb_size=mb,
                                              **KW[kind])
      batches = draw(loader, chain, cache, count)
      verify(ctx, loader, kind, n, mb, cache, ds, batches,
             f'{case} mb={mb} {kind} cache={cache}')
      ctx.trace(steps=len(batches))
      ctx.state('wide', kind, n, mb)


def entries(ctx, ids, n, what):
  """Independent draws with replacement: every pair of values occurs."""
  flat = onp.asarray(ids)
  t, mb = flat.shape
  ctx.check(set(flat.reshape(-1).tolist()) == set(range(n)),
            f'{what}: only {sorted(set(flat.reshape(-1).tolist()))} are drawn')
  for e in range(mb):
    ctx.check(set(flat[:, e].tolist()) == set(range(n)),
              f'{what}: entry {e} never takes all values')
    for f in range(mb):
      lag = 0 if e != f else 1
      pairs = set(zip(flat[:t - lag, e].tolist(), flat[lag:, f].tolist()))
      ctx.check(len(pairs) == n * n, f'{what}: entries {e} and {f} only take '
                                     f'the pairs {sorted(pairs)}')
    pairs = set(zip(flat[:-1, e].tolist(), flat[1:, (e + 1) % mb].tolist()))
    ctx.check(len(pairs) == n * n, f'{what}: successive batches are dependent')
    counts = onp.bincount(flat[:, e], minlength=n)
    # more than 6 standard deviations for every count
    ctx.check(onp.all(abs(counts - t / n) < 6 * math.sqrt(t / n) + 1),
              f'{what}: entry {e} is not uniform: {counts}')


def run_coverage(case, ctx):
  n, mb = case['n'], case['mb']
  for cache in (1, 3):
    ds = make_dataset(n)
    loader = NumpyDataLoader(**ds)
    chain = loader.register_random_pipeline(cache_size=cache, mb_size=mb)
    batches = draw(loader, chain, cache, 40 * n * n)
    what = f'{case} cache={cache}'
    ids = verify(ctx, loader, 'draw', n, mb, cache, ds, batches, what)
    entries(ctx, ids, n, what)
    ctx.trace(what, steps=len(ids))
    for row in ids:
      ctx.state('draw', n, tuple(row))
  # every position of a shuffled epoch takes every value
  for kind in ('shuffle', 'epochs'):
    loader = NumpyDataLoader(**make_dataset(n))
    chain = loader.register_random_pipeline(cache_size=1, mb_size=mb,
                                            **KW[kind])
    batches = draw(loader, chain, 1, 30 * n * math.ceil(n / mb))
    ids = verify(ctx, loader, kind, n, mb, 1, make_dataset(n), batches,
                 f'{case} {kind}')
    stream = onp.array([i for row, (_, m) in zip(ids, batches)
                        for i, v in zip(row, m) if v])
    stream = stream[:len(stream) // n * n].reshape(-1, n)
    for p in range(n):
      ctx.check(set(stream[:, p].tolist()) == set(range(n)),
                f'{case} {kind}: position {p} of the permutations only takes '
                f'{set(stream[:, p].tolist())}')
    if n >= 3:
      ctx.check(len({tuple(r) for r in stream.tolist()}) > n,
                f'{case} {kind}: the permutations are repeated')
    ctx.trace(steps=len(batches))


def run_many(case, ctx):
  """Large data sets: all observations are returned."""
  n, mb = case['n'], case['mb']
  ds = {'a': onp.arange(n, dtype=onp.float32) + 0.5,
        'i': onp.arange(n, dtype=onp.int32)[::-1].copy()}
  for kind in ('shuffle', 'epochs', 'draw'):
    loader = NumpyDataLoader(**ds)
    chain = loader.register_random_pipeline(cache_size=3, mb_size=mb,
                                            **KW[kind])
    # a draw misses an observation with a probability of n * exp(-22)
    count = 22 * n // mb + 3 if kind == 'draw' else 2 * math.ceil(n / mb) + 2
    batches = draw(loader, chain, 3, count)
    ids = verify(ctx, loader, kind, n, mb, 3, ds, batches, f'{case} {kind}')
    seen = {i for row in ids for i in row}
    ctx.check(len(seen) == n, f'{case} {kind}: only {len(seen)} observations '
                              f'are drawn')
    ctx.trace((kind, n, mb), steps=len(batches))
    ctx.state('many', kind, n, mb)
  loader = DeviceNumpyDataLoader(**ds)
  init, get, release = data.random_reference_data(loader, 1, mb)

  def body(state, _):
    state, (b, info) = get(state, information=True)
    return state, (b, info.mask)
  count = 22 * n // mb + 3
  _, (b, m) = jax.jit(lambda s: lax.scan(body, s, jnp.arange(count)))(init())
  batches = [({k: onp.asarray(v)[t] for k, v in b.items()},
              onp.asarray(m)[t].astype(bool)) for t in range(count)]
  ids = verify(ctx, loader, 'draw', n, mb, 1, ds, batches, f'{case} device')
  seen = {i for row in ids for i in row}
  ctx.check(len(seen) == n, f'{case} device: only {len(seen)} observations are '
                            f'drawn')
  ctx.trace(('device', n, mb), steps=count)


def run_device(case, ctx):
  n, mb = case['n'], case['mb']
  for variant in ('std', 'deep'):
    ds = make_dataset(n, variant)
    loader = DeviceNumpyDataLoader(**ds)
    init, get, release = data.random_reference_data(loader, 1, mb)
    streams = {}
    for mode in ('jit', 'eager'):
      fn = partial(get, information=True)
      fn = jax.jit(fn) if mode == 'jit' else fn
      plain = jax.jit(get)
      for k, kw in enumerate([{}, {'key': random.PRNGKey(11)}]):
        state = init(**kw)
        batches = []
        for t in range(40 * n * n if mode == 'jit' else 12):
          nxt, (b, info) = fn(state)
          if t < 3:
            _, b2 = plain(state)
            ctx.equal(b2, b, f'{case} batch without information')
          state = nxt
          ctx.check(int(info.observation_count) == n and
                    int(info.batch_size) == mb,
                    f'{case}: wrong batch information {info}')
          batches.append(({x: onp.asarray(v) for x, v in b.items()},
                          onp.asarray(info.mask).astype(bool)))
        what = f'{case} {mode} {kw}'
        ids = verify(ctx, loader, 'draw', n, mb, 1, ds, batches, what)
        if mode == 'jit':
          entries(ctx, ids, n, what)
        streams[mode, k] = ids
        ctx.trace(what, steps=len(ids))
    for k in (0, 1):
      ctx.check(streams['jit', k][:12] == streams['eager', k],
                f'{case}: jit changes the batches')
    if n > 1:
      ctx.check(streams['jit', 0] != streams['jit', 1],
                f'{case}: the key has no influence')
    if variant == 'std' and n <= 3 and mb <= 2:
      # enumerate all results of the random generator
      real = random.randint
      for sel in sequences(range(n), mb):
        used = []

        def scripted(key, shape, minval, maxval, **kw):
          if tuple(shape) != (mb,) or not isinstance(minval, int):
            return real(key, shape, minval, maxval, **kw)
          used.append((minval, maxval))
          return jnp.array(sel, jnp.int32)
        random.randint = scripted
        try:
          _, (b, info) = loader.get_random_data(init().state, mb)
        finally:
          random.randint = real
        if used == [(0, n)]:
          ctx.equal({k: onp.asarray(v) for k, v in b.items()},
                    {k: v[list(sel)] for k, v in ds.items()},
                    f'{case} selection {sel}')
        ctx.trace(steps=1)
        ctx.state('device', n, sel)
    release()


def run_api(case, ctx):
  """Pipelines requested through random_reference_data."""
  n, mb = case['n'], case['mb']
  for kind in ('shuffle', 'epochs', 'draw'):
    for cache in (1, 2, 3):
      ds = make_dataset(n)
      loader = NumpyDataLoader(**ds)
      init, get, release = data.random_reference_data(loader, cache, mb)
      state = init(**KW[kind])
      count = 5 * math.ceil(n / mb) + 1
      fn = jax.jit(lambda s: lax.scan(
        lambda s, _: get(s, information=True), s, onp.arange(count)))
      _, (b, info) = fn(state)
      b = np_tree(b)
      batches = [({k: v[t] for k, v in b.items()},
                  onp.asarray(info.mask)[t].astype(bool))
                 for t in range(count)]
      verify(ctx, loader, kind, n, mb, cache, ds, batches,
             f'{case} {kind} cache={cache}')
      ctx.trace(steps=count)
      release()


def run_reject(case, ctx):
  loader = NumpyDataLoader(**make_dataset(4))
  dev = DeviceNumpyDataLoader(**make_dataset(4))

  def rejected(fn, what):
    try:
      fn()
    except (ValueError, AssertionError, TypeError):
      ctx.trace(what, steps=1)
      return
    ctx.fail(f'{what} is not rejected')
  for kind in KW:
    for mb in (5, 6, 9):
      rejected(lambda: loader.register_random_pipeline(1, mb, **KW[kind]),
               f'batch size {mb} of 4 ({kind})')
  rejected(lambda: loader.register_ordered_pipeline(1, 5), 'ordered batch 5/4')
  for mb in (1, 2, 4):
    rejected(lambda: loader.register_random_pipeline(1, mb, in_epochs=True),
             'in_epochs without shuffle')
    rejected(lambda: loader.register_random_pipeline(
      1, mb, in_epochs=True, shuffle=False), 'in_epochs without shuffle')
  for ld in (loader, dev):
    rejected(lambda: data.random_reference_data(ld, 1, 5), 'batch of 5/4')
    rejected(lambda: data.random_reference_data(ld, 1, 0), 'batch of 0')
    rejected(lambda: data.random_reference_data(ld, 0, 2), 'cache of 0')
    rejected(lambda: data.random_reference_data(ld, -1, 2), 'cache of -1')
  rejected(lambda: data.random_reference_data(dev, 2, 2), 'cache on device')
  # a rejected request leaves no chain behind
  fresh = NumpyDataLoader(**make_dataset(4))
  chain = fresh.register_random_pipeline(1, 4, shuffle=True)
  want = draw(fresh, chain, 1, 4)
  bad = NumpyDataLoader(**make_dataset(4))
  rejected(lambda: bad.register_random_pipeline(1, 5), 'batch of 5/4')
  chain = bad.register_random_pipeline(1, 4, shuffle=True)
  ctx.equal(draw(bad, chain, 1, 4), want, 'stream after a rejected request')
