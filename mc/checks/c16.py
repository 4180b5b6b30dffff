"""C16: Potentials have the right scale, mask, temperature and state."""
import math

from mc.lib import *

PROPERTY = 'C16'
ENV = {'XLA_FLAGS': '--xla_force_host_platform_device_count=3'}
INFO = {
  'rule': ('all batches of observations (all N^n sequences) and all masks are '
           'evaluated with the real minibatch potential for all strategies and '
           'compared with a double precision reference (value, gradient, '
           'likelihoods per observation, model state), the average over all '
           'batches is compared with the real full potential; full potentials '
           'are evaluated repeatedly with one data state for all dataset, '
           'batch and cache sizes of the bounds and all data loaders; the masked '
           'minibatches of all epochs add up to the full potential'),
  'bounds': {'quick': 'N <= 4 and all n (N^n batches), all 2^n masks of n <= 3; '
                      'full potential N <= 6, all batch sizes, cache 1..3, 4 '
                      'kinds of data access, 3 passes',
             'thorough': 'N <= 5; full potential N <= 8'},
  'assumptions': ['the log-likelihood of a masked observation is finite',
                  'relative tolerance 2e-4']}

SAMPLES = [{'w': (0.3, -0.2), 'b': 0.5}, {'w': (-1.0, 2.0), 'b': -0.7},
           {'w': (0.05, 0.6), 'b': 1.3}]


def jsample(k):
  return {'w': jnp.array(SAMPLES[k]['w']), 'b': jnp.array(SAMPLES[k]['b'])}


# -- model ------------------------------------------------------------------
def make_model(has_state, batched, shape):
  """Log-likelihood and prior; `shape` is the shape of the returned values."""
  def single(m, sample, obs):
    x = obs['x'].astype(FLOAT)
    r = 0.1 * obs['y'] - sample['w']
    return -0.5 * jnp.sum(r ** 2) + 0.2 * sample['b'] * x + 0.1 * m * x, x

  def log_lik(state, sample, obs):
    m = state['m'] if has_state else 0.0
    if batched:
      lk, x = jax.vmap(partial(single, m, sample))(obs)
      x0 = x[0]
      lk = jnp.reshape(lk, lk.shape + shape)
    else:
      lk, x0 = single(m, sample, obs)
      lk = jnp.reshape(lk, shape)
    if not has_state:
      return lk
    return lk, {'m': 0.5 * state['m'] + 0.25 * x0, 'n': state['n'] + 1}

  def log_prior(sample):
    return jnp.reshape(-0.3 * jnp.sum(sample['w'] ** 2) - 0.1 *
                       sample['b'] ** 2, shape)
  if has_state:
    return log_lik, log_prior
  return partial(log_lik, None), log_prior


class Reference:
  """Potentials in double precision."""

  def __init__(self, n, has_state):
    self.data = {k: v.astype(float) for k, v in make_dataset(n).items()}
    self.n, self.has_state = n, has_state

  def liks(self, sample, idx, m):
    w, b = onp.array(sample['w']), sample['b']
    x = self.data['x'][idx]
    r = 0.1 * self.data['y'][idx] - w
    m = m if self.has_state else 0.0
    return -0.5 * (r ** 2).sum(-1) + 0.2 * b * x + 0.1 * m * x

  def grads(self, sample, idx):
    w = onp.array(sample['w'])
    return 0.1 * self.data['y'][idx] - w, 0.2 * self.data['x'][idx]

  @staticmethod
  def prior(sample):
    w, b = onp.array(sample['w']), sample['b']
    return (-0.3 * (w ** 2).sum() - 0.1 * b ** 2,
            {'w': -0.6 * w, 'b': -0.2 * b})

  def minibatch(self, sample, idx, m, temperature, mask=None):
    n = len(idx)
    mask = onp.ones(n) if mask is None else onp.array(mask, float)
    lk = self.liks(sample, idx, m)
    scale = self.n / n
    p, gp = self.prior(sample)
    gw, gb = self.grads(sample, idx)
    value = -(scale * (lk * mask).sum() + p) / temperature
    grad = {'w': -(scale * (gw * mask[:, None]).sum(0) + gp['w']) / temperature,
            'b': onp.array(-(scale * (gb * mask).sum() + gp['b']) / temperature)}
    return value, grad, lk

  def full(self, sample, mb, state, temperature):
    """The state is updated once per batch with the first observation."""
    total, state = 0.0, dict(state)
    gw, gb = onp.zeros(2), 0.0
    for start in range(0, self.n, mb):
      idx = onp.arange(start, min(start + mb, self.n))
      total += self.liks(sample, idx, state['m']).sum()
      a, b = self.grads(sample, idx)
      gw, gb = gw + a.sum(0), gb + b.sum()
      state = {'m': 0.5 * state['m'] + 0.25 * self.data['x'][start],
               'n': state['n'] + 1}
    p, gp = self.prior(sample)
    grad = {'w': -(gw + gp['w']) / temperature,
            'b': onp.array(-(gb + gp['b']) / temperature)}
    return -(total + p) / temperature, grad, state


STRATEGIES = ('map', 'vmap', 'pmap', 'batched')
TEMPERATURES = (1.0, 0.5, 3.0)


def cases(tier):
  quick = tier == 'quick'
  out = []
  for big_n in range(1, 5 if quick else 6):
    for n in range(1, big_n + 1):
      for strategy in STRATEGIES:
        if strategy == 'pmap' and n > 3:
          continue
        for has_state in (False, True):
          out.append(dict(mode='batches', N=big_n, n=n, strategy=strategy,
                          has_state=has_state))
  for n in range(1, 4):
    for strategy in STRATEGIES:
      out.append(dict(mode='masks', N=4, n=n, strategy=strategy))
  access = ('numpy', 'device', 'hdf5', 'mapper')
  for big_n in range(1, 7 if quick else 9):
    for mb in range(1, big_n + 1):
      for acc in access:
        for cache in (1, 2, 3) if acc == 'numpy' else (2,) if acc != 'device' \
            else (1,):
          k = big_n + mb + cache + access.index(acc)
          out.append(dict(mode='full', N=big_n, mb=mb, access=acc, cache=cache,
                          strategy=('map', 'vmap', 'batched')[k % 3],
                          has_state=bool((k // 2) % 2),
                          T=TEMPERATURES[(k // 3) % 3]))
  for acc in access:
    for strategy in ('map', 'vmap', 'batched'):
      for has_state in (False, True):
        out.append(dict(mode='full', N=5, mb=2, access=acc, cache=1 if
                        acc == 'device' else 2, strategy=strategy,
                        has_state=has_state, T=0.5))
  for big_n in range(1, 6):
    for n in range(1, big_n + 1):
      out.append(dict(mode='epochs', N=big_n, n=n))
  for strategy in STRATEGIES:
    for has_state in (False, True):
      for big_n, n in ((90, 70), (700, 300), (2000, 1100)):
        if strategy != 'pmap':
          out.append(dict(mode='large', N=big_n, n=n, strategy=strategy,
                          has_state=has_state))
      # a host loader with many batches and several refreshes of the cache
      for big_n, mb, cache in ((700, 300, 1), (150, 7, 4), (130, 1, 5)):
        if strategy != 'pmap' and (big_n == 700 or has_state):
          out.append(dict(mode='full', N=big_n, mb=mb, access='numpy',
                          cache=cache, strategy=strategy, T=3.0,
                          has_state=has_state))
  out.append(dict(mode='chains'))
  return out


def run(case, ctx):
  globals()['run_' + case['mode']](case, ctx)


def make_minibatch(case, temperature, shape=(), has_state=None):
  strategy = case['strategy']
  batched = strategy == 'batched'
  has_state = case.get('has_state', False) if has_state is None else has_state
  lik, prior = make_model(has_state, batched, shape)
  return potential.minibatch_potential(
    prior, lik, strategy='map' if batched else strategy, has_state=has_state,
    is_batched=batched, temperature=temperature)


def near(ctx, got, want, what):
  ctx.close(onp.asarray(got) if not isinstance(got, dict) else np_tree(got),
            want, what, rtol=2e-4, atol=2e-3)


def info_of(big_n, n, mask=None):
  return data.MiniBatchInformation(
    observation_count=big_n, batch_size=n,
    mask=jnp.ones(n, dtype=bool) if mask is None else mask)


def run_batches(case, ctx):
  big_n, n, has_state = case['N'], case['n'], case['has_state']
  ref, rows = Reference(big_n, has_state), make_dataset(big_n)
  all_data = NumpyDataLoader(**rows)
  fd = data.full_reference_data(all_data, 1, 1)
  seqs = list(itertools.product(range(big_n), repeat=n))
  pm = case['strategy'] == 'pmap'
  for temperature, shape in ((1.0, ()), (0.5, (1,)), (3.0, ())):
    if pm and temperature == 0.5:
      continue
    pot = make_minibatch(case, temperature, shape)

    def evaluate(sample, obs, state):
      value, (liks, new) = pot(sample, (obs, info_of(big_n, n)), state=state,
                               likelihoods=True)
      return value, (liks, new)
    fn = jax.value_and_grad(evaluate, has_aux=True)
    plain = lambda s, o, st: pot(s, (o, info_of(big_n, n)), state=st)
    if not pm:
      fn, plain = jax.jit(fn), jax.jit(plain)
    values = []
    for k, seq in enumerate(seqs):
      if pm and k % 3 and len(seqs) > 27:
        continue
      ctx.history = seq
      idx = onp.array(seq)
      obs = {key: jnp.asarray(v[idx]) for key, v in rows.items()}
      # all samples if there are few batches
      for s in range(3) if len(seqs) <= 16 else (k % 3,):
        state = {'m': jnp.array(0.75 - 0.5 * s), 'n': jnp.array(4 + s)} \
            if has_state else None
        m = 0.75 - 0.5 * s
        value, grad, lk = ref.minibatch(SAMPLES[s], idx, m, temperature)
        what = f'{case} T={temperature} batch {seq} sample {s}'
        (got, (liks, new)), g = fn(jsample(s), obs, state)
        ctx.check(jnp.shape(got) == (), f'{what}: potential has shape '
                                        f'{jnp.shape(got)}')
        near(ctx, got, value, f'{what}: potential')
        near(ctx, g, grad, f'{what}: gradient')
        near(ctx, liks, lk, f'{what}: likelihoods')
        if has_state:
          want = {'m': onp.array(0.5 * m + 0.25 * (seq[0] + 1)),
                  'n': onp.array(5 + s)}
          ctx.close(np_tree(new), want, f'{what}: model state', rtol=1e-5)
          ctx.check(new['n'].dtype == jnp.array(5).dtype, f'{what}: dtype of the state')
        else:
          ctx.check(new is None, f'{what}: model state {new}')
        ctx.step()
        if s == 0 or len(seqs) > 16:
          got2, new2 = plain(jsample(s), obs, state)
          near(ctx, got2, value, f'{what}: potential without likelihoods')
          ctx.close(np_tree(new2), np_tree(new), f'{what}: state without '
                    f'likelihoods')
          ctx.step()
      ctx.state(big_n, case['strategy'], has_state, temperature, seq)
      ctx.trace(seq)
    # unbiased: evaluate one sample for all batches
    if pm:
      continue
    s, state = 1, {'m': jnp.array(0.5), 'n': jnp.array(0)} if has_state else None
    batch_of = jax.jit(lambda obs: pot(jsample(s), (obs, info_of(big_n, n)),
                                       state=state)[0])
    for seq in seqs:
      values.append(float(batch_of({key: jnp.asarray(v[onp.array(seq)])
                                    for key, v in rows.items()})))
    lik, prior = make_model(False, False, ())
    full = potential.full_potential(
      prior, (lambda sample, obs: make_model(True, False, ())[0](
        state, sample, obs)[0]) if has_state else lik, temperature=temperature)
    want, _ = full(jsample(s), fd[0](), fd[1])
    ctx.close(onp.array(onp.mean(values)), onp.asarray(want),
              f'{case} T={temperature}: average over all {len(seqs)} batches '
              f'and full potential', rtol=3e-4, atol=1e-3)
    ctx.trace(steps=len(seqs))


def run_masks(case, ctx):
  big_n, n = case['N'], case['n']
  ref, rows = Reference(big_n, False), make_dataset(big_n)
  pm = case['strategy'] == 'pmap'
  for temperature, shape in ((2.0, ()), (1.0, (1,))):
    pot = make_minibatch(case, temperature, shape, has_state=False)
    fn = jax.value_and_grad(lambda s, obs, mask: pot(
      s, (obs, info_of(big_n, n, mask)), mask=mask, likelihoods=True),
                            has_aux=True)
    if not pm:
      fn = jax.jit(fn)
    elif temperature == 1.0:
      continue
    for k, seq in enumerate(itertools.product(range(big_n), repeat=n)):
      if pm and k % 7 and n == 3:
        continue
      idx = onp.array(seq)
      obs = {key: jnp.asarray(v[idx]) for key, v in rows.items()}
      for mask in itertools.product((False, True), repeat=n):
        ctx.history = (seq, mask)
        s = (k + sum(mask)) % 3
        value, grad, lk = ref.minibatch(SAMPLES[s], idx, 0.0, temperature, mask)
        what = f'{case} T={temperature} batch {seq} mask {mask}'
        (got, (liks, _)), g = fn(jsample(s), obs, jnp.array(mask))
        ctx.check(jnp.shape(got) == (), f'{what}: shape {jnp.shape(got)}')
        near(ctx, got, value, f'{what}: potential')
        near(ctx, g, grad, f'{what}: gradient')
        near(ctx, liks, lk, f'{what}: likelihoods')
        # content of masked observations is irrelevant
        other = {key: jnp.where(jnp.reshape(jnp.array(mask), (-1,) + (1,) *
                                            (v.ndim - 1)), v, 0 * v - 7)
                 for key, v in obs.items()}
        (got2, _), g2 = fn(jsample(s), other, jnp.array(mask))
        near(ctx, got2, value, f'{what}: potential with other masked data')
        near(ctx, g2, grad, f'{what}: gradient with other masked data')
        ctx.step(2)
        ctx.state(case['strategy'], temperature, seq, mask)
      ctx.trace(seq)


def run_large(case, ctx):
  """Every observation of a large batch contributes exactly once."""
  big_n, n, has_state = case['N'], case['n'], case['has_state']
  ref = Reference(big_n, has_state)
  rows = make_dataset(big_n)
  pot = make_minibatch(case, 2.0)
  state = {'m': jnp.array(0.25), 'n': jnp.array(0)} if has_state else None

  def evaluate(sample, obs, mask):
    value, (liks, _) = pot(sample, (obs, info_of(big_n, n, mask)), state=state,
                           mask=mask, likelihoods=True)
    return value, liks
  fn = jax.jit(jax.value_and_grad(evaluate, has_aux=True))

  def near(got, want, what):
    want = onp.asarray(want)
    ctx.close(onp.asarray(got), want, what, rtol=1e-3,
              atol=1e-5 * max(1.0, abs(want).max()))
  base = (onp.arange(n) * 37 + 5) % big_n
  for k, idx in enumerate((base, base[::-1], onp.arange(n), onp.repeat(
      base[:n // 2 + 1], 2)[:n])):
    masks = [None, onp.ones(n, bool), onp.arange(n) % 3 != k % 3,
             onp.arange(n) < n // 2]
    # single observations
    masks += [onp.arange(n) == j for j in {0, n - 1, (k + 1) * n // 5}]
    for j, mask in enumerate(masks):
      obs = {key: jnp.asarray(v[idx]) for key, v in rows.items()}
      s = (j + k) % 3
      value, grad, lk = ref.minibatch(SAMPLES[s], idx, 0.25, 2.0, mask)
      what = f'{case} selection {k} mask {j}'
      (got, liks), g = fn(jsample(s), obs, None if mask is None else jnp.array(
        mask))
      near(got, value, f'{what}: potential')
      near(liks, lk, f'{what}: likelihoods')
      for key in grad:
        near(g[key], grad[key], f'{what}: gradient of {key}')
      ctx.step()
      ctx.state(big_n, n, case['strategy'], k, j)
    ctx.trace((case['strategy'], n, k))


def full_access(acc, big_n, cache, mb):
  """Returns evaluate(full, sample, data_state, state) and initial state."""
  rows = make_dataset(big_n)
  if acc == 'hdf5':
    from jax_sgmc.data.hdf5_loader import HDF5Loader
    file = h5_mem()
    for key, v in rows.items():
      file['/chain~0/variables/' + key] = v
    loader = HDF5Loader(file, sample={k: v[0] for k, v in rows.items()})
  elif acc == 'device':
    loader = DeviceNumpyDataLoader(**rows)
  else:
    loader = NumpyDataLoader(**rows)
  if acc == 'mapper':
    mapper, _ = data.full_data_mapper(loader, cache, mb)
    return lambda full, sample, _, state: full(sample, None, mapper, state), None
  init, fmap, _ = data.full_reference_data(loader, cache, mb)
  return (lambda full, sample, ds, state: full(sample, ds, fmap, state)), init()


def run_full(case, ctx):
  big_n, mb, has_state, T = case['N'], case['mb'], case['has_state'], case['T']
  ref = Reference(big_n, has_state)
  batched = case['strategy'] == 'batched'
  lik, prior = make_model(has_state, batched, ())
  full = potential.full_potential(
    prior, lik, strategy='map' if batched else case['strategy'],
    has_state=has_state, is_batched=batched, temperature=T)
  try:
    evaluate, data_state = full_access(case['access'], big_n, case['cache'], mb)
  except ImportError:
    ctx.note('hdf5_loader_not_importable')
    return
  mapper = case['access'] == 'mapper'
  call = jax.jit(lambda s, ds, st: evaluate(full, s, ds, st))
  state = {'m': jnp.array(0.75), 'n': jnp.array(0)} if has_state else None
  rstate = {'m': 0.75, 'n': 0}
  for k in range(3):
    what = f'{case} pass {k}'
    value, grad, rstate2 = ref.full(SAMPLES[k], mb, rstate, T)
    got, (data_state, state) = call(jsample(k), data_state, state)
    ctx.check(jnp.shape(got) == (), f'{what}: shape {jnp.shape(got)}')
    ctx.close(onp.asarray(got), value, f'{what}: potential', rtol=2e-4 if
              big_n < 99 else 1e-3, atol=2e-3)
    rstate = rstate2
    if has_state:
      ctx.close(np_tree(state), {k: onp.array(v) for k, v in rstate.items()},
                f'{what}: model state', rtol=1e-4)
    else:
      ctx.check(state is None, f'{what}: model state {state}')
    ctx.step()
  if not mapper:
    fn = jax.jit(jax.grad(lambda s, ds, st: evaluate(full, s, ds, st)[0]))
    _, grad, _ = ref.full(SAMPLES[1], mb, rstate, T)
    ctx.close(np_tree(fn(jsample(1), data_state, state)), grad,
              f'{case}: gradient', rtol=2e-4 if big_n < 99 else 1e-3, atol=2e-3)
    ctx.step()
  # a state passed to a stateless model is returned
  if not has_state and case['cache'] == 1 and not mapper:
    other, ds = full_access(case['access'], big_n, 1, mb)
    got, (_, st) = other(full, jsample(0), ds, jnp.array(3))
    ctx.close(onp.asarray(got), ref.full(SAMPLES[0], mb, rstate, T)[0],
              f'{case}: potential with unused state', rtol=2e-4, atol=2e-3)
    ctx.check(st is not None and int(st) == 3, f'{case}: unused model state '
                                               f'becomes {st}')
  ctx.state(*case.values())
  ctx.trace(tuple(case.items()))


def run_epochs(case, ctx):
  """Masked minibatches of complete epochs add up to the full potential."""
  big_n, n = case['N'], case['n']
  ref = Reference(big_n, False)
  lik, prior = make_model(False, False, ())
  pot = potential.minibatch_potential(prior, lik, strategy='vmap')
  for cache in (1, 3):
    loader = NumpyDataLoader(**make_dataset(big_n))
    init, get, _ = data.random_reference_data(loader, cache, n)
    ds = init(shuffle=True, in_epochs=True, seed=3)

    @jax.jit
    def step(ds, sample):
      ds, batch = get(ds, information=True)
      return ds, pot(sample, batch, mask=batch[1].mask)[0]
    for s in range(3):
      total = 0.0
      p = ref.prior(SAMPLES[s])[0]
      for _ in range(-(-big_n // n)):
        ds, value = step(ds, jsample(s))
        total += (float(value) + p) * n / big_n
        ctx.step()
      want = -ref.liks(SAMPLES[s], onp.arange(big_n), 0.0).sum()
      ctx.close(onp.array(total), want, f'{case} cache {cache} epoch {s}: sum '
                f'of the masked potentials', rtol=3e-4, atol=2e-3)
      ctx.trace((big_n, n, cache, s))
    # all observations are valid in the other pipelines
    for kw in ({}, {'shuffle': True}):
      ds = init(**kw)
      for s in range(3):
        ds, batch = get(ds, information=True)
        idx = onp.asarray(batch[0]['x']) - 1
        value = ref.minibatch(SAMPLES[s], idx, 0.0, 1.0)[0]
        for mask in (None, batch[1].mask):
          got, _ = pot(jsample(s), batch, mask=mask)
          near(ctx, got, value, f'{case} {kw} cache {cache} draw {s}')
        ctx.step(2)
      ctx.trace((big_n, n, cache, tuple(kw)))


def run_chains(case, ctx):
  """Potentials vectorized over samples and batches; batch is not modified."""
  ref, rows = Reference(4, True), make_dataset(4)
  for strategy in ('map', 'vmap', 'batched'):
    pot = make_minibatch(dict(strategy=strategy, has_state=True), 2.0)
    seqs = list(itertools.product(range(4), repeat=2))
    idx = onp.array(seqs)
    obs = {k: jnp.asarray(v[idx]) for k, v in rows.items()}
    for s in range(3):
      fn = jax.vmap(lambda o, m: pot(jsample(s), (o, info_of(4, 2)), state={
        'm': m, 'n': jnp.array(1)}))
      ms = onp.linspace(-1, 2, len(seqs))
      values, states = jax.jit(fn)(obs, jnp.asarray(ms))
      for k, seq in enumerate(seqs):
        want = ref.minibatch(SAMPLES[s], idx[k], ms[k], 2.0)[0]
        near(ctx, values[k], want, f'{strategy}: batch {seq} vectorized')
        ctx.close(onp.asarray(states['m'][k]), 0.5 * ms[k] + 0.25 *
                  (seq[0] + 1), f'{strategy}: state of batch {seq} vectorized')
        ctx.step()
      ctx.trace((strategy, s))
    # samples vectorized
    stack = tree_util.tree_map(lambda *x: jnp.stack(x), *[jsample(s)
                                                          for s in range(3)])
    o = {k: jnp.asarray(v[:3]) for k, v in rows.items()}
    values, _ = jax.vmap(lambda s: pot(s, (o, info_of(4, 3)), state={
      'm': jnp.array(0.5), 'n': jnp.array(1)}))(stack)
    for s in range(3):
      near(ctx, values[s], ref.minibatch(SAMPLES[s], onp.arange(3), 0.5, 2.0)[0],
           f'{strategy}: sample {s} vectorized')
      ctx.step()
    ctx.trace(strategy)
