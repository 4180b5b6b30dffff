"""C18: Adaption strategies compute their defined statistics."""
import math

from mc.lib import *
from mc.checks.c17 import flat, unflat, make_sample, TREES

PROPERTY = 'C18'
ENV = {'XLA_FLAGS': '--xla_force_host_platform_device_count=3'}
INFO = {
  'rule': ('all histories of samples and gradients over the alphabets are '
           'passed to the real adaption strategies (eager, compiled, vectorized) '
           'and the adapted quantities after every update are compared with '
           'double precision references of their definitions; the fisher '
           'information is evaluated for all batches of a dataset, step sizes '
           'and frictions; whole runs of several chains with adaption are '
           'compared with the chains on their own for all strategies'),
  'bounds': {'quick': 'RMSprop: length 4 over 3 gradients; mass matrix: length 5 '
                      'over 3 samples; fisher information: all N^n batches of '
                      'N <= 4, n <= 3', 'thorough': 'lengths 6 and 7, N <= 5'},
  'assumptions': ['histories with a singular covariance at the end of the '
                  'burn-in are not compared (the inverse is not defined)',
                  'dense fisher information: friction exceeds the noise']}


def cases(tier):
  quick = tier == 'quick'
  out = []
  for tree in TREES:
    for k in range(4):
      out.append(dict(mode='rms', tree=tree, params=k, length=4 if quick else 6))
    for diag in (True, False):
      for init in ('none', 'given'):
        for burn_in in (2, 3, 4, 5, 9):
          out.append(dict(mode='mass', tree=tree, diag=diag, init=init,
                          burn_in=burn_in, length=5 if quick else 7))
  for diag in (True, False):
    for n in (2, 3):
      for strategy in ('map', 'vmap', 'batched'):
        for big_n in (3, 4) if quick else (3, 4, 5):
          out.append(dict(mode='fisher', diag=diag, n=n, N=big_n,
                          strategy=strategy))
  for what in ('rms', 'diag', 'dense'):
    # the default burn-in consists of 1000 steps
    for burn_in in (None, 70, 257, 1100) if what != 'rms' else (None,):
      out.append(dict(mode='long', what=what, burn_in=burn_in))
  for strategy in ('map', 'vmap', 'pmap'):
    for what in ('rms', 'fisher', 'mass'):
      out.append(dict(mode='chains', strategy=strategy, what=what))
  return out


def run(case, ctx):
  globals()['run_' + case['mode']](case, ctx)


def tensors(ctx, got, want, like, ndims, what, rtol=1e-3, atol=1e-5):
  """Compares a named tuple of tensors with flat references."""
  ctx.check(len(got) == len(want), f'{what}: {len(got)} quantities')
  for name, g, w, ndim in zip(got._fields, got, want, ndims):
    ctx.check(int(g.ndim) == ndim, f'{what}: {name} has ndim {g.ndim} instead '
                                   f'of {ndim}')
    if ndim == 1:
      ctx.check(tree_util.tree_structure(g.tensor) ==
                tree_util.tree_structure(like) and
                [jnp.shape(x) for x in tree_util.tree_leaves(g.tensor)] ==
                [jnp.shape(x) for x in tree_util.tree_leaves(like)],
                f'{what}: structure of {name}')
      ctx.close(flat(g.tensor), w, f'{what}: {name}', rtol=rtol, atol=atol)
    else:
      ctx.close(onp.asarray(g.tensor, float), w, f'{what}: {name}', rtol=rtol,
                atol=atol)


# -- rms prop ---------------------------------------------------------------
PARAMS = ({}, dict(alpha=0.5, lmbd=1e-2), dict(alpha=0.0), dict(alpha=0.99,
                                                                lmbd=0.5))


def run_rms(case, ctx):
  sample = make_sample(case['tree'])
  n = len(flat(sample))
  params = PARAMS[case['params']]
  alpha, lmbd = params.get('alpha', 0.9), params.get('lmbd', 1e-5)
  # the zeros make the stabilization constant dominate
  grads = [onp.linspace(-2, 3, n) + 0.3, 0.3 * (onp.arange(n) % 2), 10.0 * onp.cos(
    onp.arange(n) + 0.2)]
  init, update, get = adaption.rms_prop()
  trees = [unflat(g, sample) for g in grads]
  samples = [unflat(0.5 + k - grads[k], sample) for k in range(3)]
  batch = ({'x': jnp.zeros(2)}, None)

  def check(state, v, what):
    g = 1 / (lmbd + onp.sqrt(v))
    got = get(state, samples[0], trees[0])
    tensors(ctx, got, (g, onp.sqrt(g), 0 * g), sample, (1, 1, 1), what)
  jupdate = jax.jit(lambda state, s, g: update(state, s, g))
  jget = jax.jit(lambda state: tuple(t.tensor for t in get(
    state, samples[0], trees[0])))

  def extend(state, jstate, v, history):
    for k in range(3):
      seq = history + (k,)
      ctx.history = seq
      what = f'{case} gradients {seq}'
      new_v = alpha * v + (1 - alpha) * grads[k] ** 2
      new = update(state, samples[(k + 1) % 3], trees[k])
      jnew = jupdate(jstate, samples[(k + 1) % 3], trees[k])
      check(new, new_v, what)
      g = 1 / (lmbd + onp.sqrt(new_v))
      for got, want in zip(jget(jnew), (g, onp.sqrt(g), 0 * g)):
        ctx.close(flat(got), want, f'{what}: compiled', rtol=1e-3, atol=1e-5)
      ctx.step(2)
      ctx.state(case['tree'], case['params'], seq)
      if len(seq) == case['length']:
        ctx.trace(seq)
      else:
        extend(new, jnew, new_v, seq)
  state = init(sample, **params)
  check(state, onp.ones(n), f'{case}: initial state')
  extend(state, state, onp.ones(n), ())
  # all histories at once
  seqs = list(sequences(range(3), case['length']))
  stack = tree_util.tree_map(lambda *x: jnp.stack(x), *trees)

  def whole(seq):
    state = init(sample, **params)
    state, _ = jax.lax.scan(lambda st, k: (update(
      st, sample, tree_util.tree_map(lambda x: x[k], stack)), None),
      # weak types of the parameters
      tree_util.tree_map(jnp.asarray, state), seq)
    return get(state, sample, sample).g_inv.tensor
  out = jax.jit(jax.vmap(whole))(jnp.array(seqs))
  for i, seq in enumerate(seqs):
    v = onp.ones(n)
    for k in seq:
      v = alpha * v + (1 - alpha) * grads[k] ** 2
    ctx.close(flat(tree_util.tree_map(lambda x: x[i], out)),
              1 / (lmbd + onp.sqrt(v)), f'{case} gradients {seq}: vectorized',
              rtol=1e-3)
    ctx.trace(steps=len(seq))


# -- mass matrix ------------------------------------------------------------
def run_mass(case, ctx):
  sample = make_sample(case['tree'])
  n = len(flat(sample))
  diag, burn_in = case['diag'], case['burn_in']
  values = [onp.sin(onp.arange(n) * 1.7) + 0.3, onp.cos(onp.arange(n) ** 2 + 1.0),
            0.5 * onp.arange(n) - 0.4]
  # more different samples such that the covariance has full rank
  shift = [onp.roll(onp.array([1.5] + [0.0] * (n - 1)), t % n) * (1 if t < n
                                                                  else -0.5)
           for t in range(case['length'])]
  init, update, get = adaption.mass_matrix(diagonal=diag, burn_in=burn_in)
  cov = 0.5 + onp.arange(n)
  args = {'none': (None,), 'given': (unflat(cov, sample),)}[case['init']]
  if case['init'] != 'given':
    cov = onp.ones(n)
  ndim = 1 if diag else 2
  first = (cov, 1 / onp.sqrt(cov)) if diag else (onp.diag(cov), onp.diag(
    1 / onp.sqrt(cov)))
  state = init(sample, *args)
  tensors(ctx, get(state), first, sample, (ndim, ndim), f'{case}: initial')
  jupdate = jax.jit(update)

  def definition(xs):
    x = onp.array(xs)
    d = x - x.mean(0)
    c = d.T @ d / len(x)
    if diag:
      c = onp.diagonal(c)
      return c, (1 / onp.sqrt(c) if (c > 1e-4).all() else None)
    w, v = onp.linalg.eigh(c)
    return c, (v @ onp.diag(1 / onp.sqrt(w)) @ v.T if (w > 1e-3).all() else None)

  def extend(state, jstate, xs, current, history):
    for k in range(3):
      seq = history + (k,)
      ctx.history = seq
      what = f'{case} samples {seq}'
      t = len(seq) - 1
      x = values[k] + shift[t]
      new_xs = xs + [x]
      jnew = jupdate(jstate, unflat(x, sample))
      # eager execution (slow) only for histories without repetition
      eager = len(seq) <= 2 or seq == tuple(t % 3 for t in range(len(seq)))
      new = update(state, unflat(x, sample)) if eager else jnew
      want = definition(new_xs) if len(seq) == burn_in else current
      jgot = get(jnew)
      got = get(new) if eager else jgot
      ctx.step(2)
      if want[1] is None:
        # the square root of the inverse is not defined
        ctx.note('singular')
        for g in (got, jgot):
          inv = flat(g.inv.tensor)
          ctx.close(inv, onp.reshape(want[0], -1), f'{what}: inverse mass',
                    rtol=2e-3, atol=1e-4)
      else:
        tensors(ctx, got, want, sample, (ndim, ndim), what, rtol=1e-2, atol=2e-3)
        for name in ('inv', 'sqrt'):
          ctx.close(flat(getattr(jgot, name).tensor), onp.reshape(
            want[0 if name == 'inv' else 1], -1), f'{what}: compiled {name}',
                    rtol=1e-2, atol=2e-3)
        if not diag:
          r = onp.asarray(got.sqrt.tensor, float)
          ctx.close(r @ r.T @ want[0], onp.eye(n), f'{what}: square root',
                    rtol=0, atol=2e-2)
      ctx.state(case['tree'], diag, case['init'], burn_in, seq)
      if len(seq) == case['length']:
        ctx.trace(seq)
      else:
        extend(new, jnew, new_xs, want, seq)
  extend(state, state, [], first, ())


def run_long(case, ctx):
  """The quantities after every step of a long history."""
  steps, n = 1150, 3
  sample = {'b': jnp.zeros(()), 'a': jnp.zeros((2, 1))}
  t = onp.arange(steps)[:, None]
  # slowly varying such that all samples influence the result
  xs = onp.sin(0.7 * t * (1 + onp.arange(n)) + onp.arange(n)) + 1e-3 * t * (
    onp.array([1, -1, 0.5]))
  stack = jax.vmap(lambda x: {'a': x[:2, None], 'b': x[2]})(jnp.asarray(
    xs, FLOAT))
  if case['what'] == 'rms':
    init, update, get = adaption.rms_prop()

    def step(state, x):
      state = update(state, sample, x)
      return state, tuple(q.tensor for q in get(state, sample, x))
    state = tree_util.tree_map(jnp.asarray, init(sample, alpha=0.98))
  else:
    kw = {} if case['burn_in'] is None else dict(burn_in=case['burn_in'])
    init, update, get = adaption.mass_matrix(diagonal=case['what'] == 'diag', **kw)

    def step(state, x):
      state = update(state, x)
      return state, tuple(q.tensor for q in get(state))
    state = tree_util.tree_map(jnp.asarray, init(sample, None))
  _, out = jax.jit(lambda s, x: jax.lax.scan(step, s, x))(state, stack)
  if case['what'] == 'dense':
    rows = [onp.asarray(q, float).reshape(steps, -1) for q in out]
  else:
    rows = [onp.concatenate([onp.asarray(q['a']).reshape(steps, -1), onp.asarray(
      q['b']).reshape(steps, -1)], -1) for q in out]
  burn_in = case['burn_in'] or 1000
  v = onp.ones(n)
  eye = onp.ones(n) if case['what'] == 'diag' else onp.eye(n).ravel()
  want = (eye, eye)
  for k in range(steps):
    if case['what'] == 'rms':
      v = 0.98 * v + 0.02 * xs[k] ** 2
      g = 1 / (1e-5 + onp.sqrt(v))
      want = (g, onp.sqrt(g), 0 * g)
    elif k + 1 == burn_in:
      c = onp.cov(xs[:k + 1].T, bias=True)
      if case['what'] == 'diag':
        want = (onp.diagonal(c), 1 / onp.sqrt(onp.diagonal(c)))
      else:
        w, q = onp.linalg.eigh(c)
        want = (c.ravel(), (q @ onp.diag(w ** -0.5) @ q.T).ravel())
    ctx.check(len(rows) == len(want), f'{case}: {len(rows)} quantities')
    for i, (r, w) in enumerate(zip(rows, want)):
      ctx.close(r[k], w, f'{case} step {k + 1}: quantity {i}', rtol=1e-2,
                atol=2e-3)
    ctx.step()
    ctx.state(case['what'], burn_in, k)
  ctx.trace(case)


# -- fisher information -----------------------------------------------------
def run_fisher(case, ctx):
  n, big_n, diag = case['n'], case['N'], case['diag']
  rows = make_dataset(big_n)
  batched = case['strategy'] == 'batched'

  def single(state, sample, obs):
    r = 0.1 * obs['y'] - sample['w']
    return (-0.1 * jnp.sum(r ** 2) + 0.2 * jnp.sin(
      sample['b'] * obs['x'].astype(FLOAT)) * state)

  def lik(state, sample, obs):
    if batched:
      return jax.vmap(partial(single, state, sample))(obs), state
    return single(state, sample, obs), state
  pot = potential.minibatch_potential(
    lambda s: -0.3 * jnp.sum(s['w'] ** 2), lik, has_state=True,
    strategy='map' if batched else case['strategy'], is_batched=batched)

  def ref(sample, idx, model):
    w, b = onp.array(sample['w'], float), float(sample['b'])
    x, y = rows['x'][idx].astype(float), rows['y'][idx].astype(float)
    g = onp.concatenate([(0.2 * x * onp.cos(b * x) * model)[:, None],
                         0.2 * (0.1 * y - w)], axis=1)
    d = g - g.mean(0)
    v = d.T @ d / (len(idx) - 1)
    return v
  init, update, get = adaption.fisher_information(minibatch_potential=pot,
                                                  diagonal=diag)
  sample = {'w': jnp.array([0.3, -0.4]), 'b': jnp.array(0.7)}
  state = init(sample)
  info = data.MiniBatchInformation(observation_count=big_n, batch_size=n,
                                   mask=jnp.ones(n, dtype=bool))

  def evaluate(sample, obs, friction, h, model):
    grad = tree_util.tree_map(jnp.zeros_like, sample)
    new = update(state, sample, grad, friction, mini_batch=(obs, info),
                 step_size=h)
    return get(new, sample, grad, friction, mini_batch=(obs, info),
               step_size=h, model_state=model)
  jitted = jax.jit(lambda *a: tuple(t.tensor for t in evaluate(*a)))
  frictions = (onp.full(3, 20.0), onp.array([5.0, 9.0, 7.0])) + (
    (onp.full(3, 0.05),) if diag else ())
  for seq in itertools.product(range(big_n), repeat=n):
    idx = onp.array(seq)
    obs = {k: jnp.asarray(v[idx]) for k, v in rows.items()}
    ctx.history = seq
    for j, (fr, h, model) in enumerate(itertools.product(
        frictions, (0.5, 0.05), (1.0, 2.0))):
      what = f'{case} batch {seq} friction {fr} step size {h} state {model}'
      smp = {'w': sample['w'] + 0.2 * j, 'b': sample['b'] - 0.1 * j}
      v = ref(smp, idx, model)
      b = 0.5 * h * v
      like = unflat(fr, sample)
      jout = jitted(smp, obs, like, jnp.array(h), jnp.array(model))
      outs = [jout]
      if j % 4 == 0:
        got = evaluate(smp, obs, like, jnp.array(h), jnp.array(model))
        ctx.check(all(int(t.ndim) == (1 if diag else 2) for t in got),
                  f'{what}: dimension of the quantities')
        outs.append(tuple(t.tensor for t in got))
      for noise, scale in outs:
        if diag:
          c = fr - onp.diagonal(b)
          if abs(c).min() < 1e-4 or (c < 0).all():
            ctx.note('undecidable')
            continue
          # negative values are replaced by the smallest positive value
          c = onp.where(c > 0, c, c[c > 0].min())
          ctx.close(flat(noise), onp.sqrt(c), f'{what}: remainder', rtol=1e-3,
                    atol=1e-4)
          if (fr - c >= 0).all():
            ctx.close(flat(scale) ** 2, fr - c, f'{what}: noise', rtol=1e-2,
                      atol=1e-3)
          ctx.check(tree_util.tree_structure(noise) ==
                    tree_util.tree_structure(sample), f'{what}: structure')
        else:
          noise, scale = onp.asarray(noise, float), onp.asarray(scale, float)
          if onp.linalg.eigvalsh(onp.diag(fr) - b).min() <= 0.05:
            ctx.note('undecidable')
            continue
          ctx.close(noise @ noise.T, onp.diag(fr) - b, f'{what}: remainder',
                    rtol=1e-3, atol=3e-3)
          ctx.close(scale @ scale.T, b, f'{what}: noise', rtol=1e-2, atol=3e-3)
        ctx.step()
    ctx.state(diag, case['strategy'], n, big_n, seq)
    ctx.trace(seq)


# -- several chains ---------------------------------------------------------
def run_chains(case, ctx):
  """Each chain adapts on its own history, independent of the strategy."""
  lik = lambda sample, obs: -0.5 * jnp.sum((obs['y'] * 0.1 - sample['w']) ** 2)
  prior = lambda s: -jnp.sum(s['w'] ** 2)
  pot = potential.minibatch_potential(prior, lik)
  full = potential.full_potential(prior, lik)
  loader = DeviceNumpyDataLoader(**make_dataset(8))
  rd = data.random_reference_data(loader, 1, 3)
  fd = data.full_reference_data(loader, 1, 3)
  starts = [{'w': jnp.array([0.1, 0.2]) * c} for c in (1, -5, 3)]
  sch = scheduler.init_scheduler(
    progress_bar=False, step_size=scheduler.polynomial_step_size_first_last(
      0.01, 0.001))
  if case['what'] == 'rms':
    solve = solver.sgmc(integrator.langevin_diffusion(
      pot, rd, adaption=adaption.rms_prop()))
    kws = [dict(adaption_kwargs={'alpha': a, 'lmbd': l}) for a, l in (
      (0.9, 1e-5), (0.5, 1e-2), (0.1, 0.3))]
  elif case['what'] == 'fisher':
    solve = solver.sgmc(integrator.friction_leapfrog(
      pot, rd, steps=2, friction=30.0, noise_model=adaption.fisher_information(
        minibatch_potential=pot)))
    kws = [{}] * 3
  else:
    solve = solver.amagold(integrator.reversible_leapfrog(pot, rd, steps=2), full,
                           fd, mass_adaption=adaption.mass_matrix(burn_in=3))
    kws = [dict(initial_mass={'w': jnp.array([a, 1.0])}) for a in (1, .5, 2)]
  state = lambda c: solve[0](starts[c], key=random.PRNGKey(c), **kws[c])
  single = [solver.mcmc(solve, sch)(state(c), iterations=6)[0]['samples']
            for c in range(3)]
  ctx.check(len({onp.asarray(s['variables']['w']).tobytes() for s in single})
            == 3, f'{case}: chains are equal')
  for chains in [(0,), (1, 0), (2, 1, 0), (0, 1, 2)]:
    res = solver.mcmc(solve, sch, strategy=case['strategy'])(
      *[state(c) for c in chains], iterations=6)
    for c, r in zip(chains, res):
      ctx.close(np_tree(r['samples']['variables']), np_tree(
        single[c]['variables']), f'{case} chains {chains}: samples of {c}',
                rtol=1e-3, atol=1e-4)
      ctx.step(6)
    ctx.trace(chains)
