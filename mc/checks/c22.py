"""C22: The ready-made solvers equal the composition of their parts."""
from mc.lib import *

PROPERTY = 'C22'
INFO = {
  'rule': ('each ready-made solver is run for every assignment of a covering set '
           'of its parameters (all single changes and all pairs of changes in the '
           'thorough tier of a configuration in which all parameters differ from '
           'their defaults and from each other) with 1-3 chains and compared with '
           'the explicitly composed integrator, solver and scheduler without '
           'saving; both data loaders, with and without model state'),
  'bounds': {'quick': '9 iterations, single changes', 'thorough': '13 iterations, '
                      'pairs of changes'},
  'assumptions': ['the parts themselves are decided by the other properties',
                  'chain i uses the key PRNGKey(i)',
                  'the number of accepted samples does not exceed the number of '
                  'available samples (rejected by the scheduler)']}

COMMON = dict(first_step_size=(0.02, 0.01), last_step_size=(0.005, 0.015),
              burn_in=(2, 0, 4), cache_size=(3, 1, 2), batch_size=(2, 4, 1),
              save_to_numpy=(True, False), progress_bar=(False, True))
MH = dict(COMMON, integration_steps=(3, 1), accepted_samples=(None, 4),
          adaptive_step_size=(False, True), mass=('m', None),
          stabilization_constant=(5, 50), decay_constant=(0.6, 0.9),
          speed_constant=(0.04, 0.2), target_acceptance_rate=(0.3, 0.8),
          first_step_size=(0.2, 0.1), last_step_size=(0.1, 0.2))
# the first value of every parameter is the base, the others are the changes
SOLVERS = {
  'sgld': dict(COMMON, accepted_samples=(4, 5, 1), rms_prop=(True, False),
               alpha=(0.7, 0.2), lmbd=(0.1, 0.5)),
  're_sgld': dict(COMMON, accepted_samples=(4, 5), temperature=(50.0, 2.0)),
  'amagold': dict(MH, friction=(0.4, 0.1)),
  'sggmc': dict(MH, friction_coefficient=(0.6, 1.5)),
  'sghmc': dict(COMMON, accepted_samples=(4, 5), integration_steps=(3, 1),
                friction=(5.0, 2.5, 'f'), mass=('m', None),
                adapt_noise_model=(False, True), diagonal_noise=(True, False)),
  'obabo': dict(COMMON, accepted_samples=(4, 5), integration_steps=(3, 1),
                friction=(0.7, 1.5), mass=('m', None)),
}
ADAPTIVE = ('stabilization_constant', 'decay_constant', 'speed_constant',
            'target_acceptance_rate')


SWITCHES = dict(
  sgld=dict(rms_prop=True, first_step_size=0.02, accepted_samples=8,
            burn_in=150),
  amagold=dict(adaptive_step_size=True, first_step_size=0.05, burn_in=8),
  sggmc=dict(adaptive_step_size=True, first_step_size=0.05, burn_in=8),
  sghmc=dict(adapt_noise_model=True, friction=80.0, accepted_samples=8))


def cases(tier):
  quick = tier == 'quick'
  out = []
  for name, params in SOLVERS.items():
    base = {}
    changes = [{}] + [{k: v} for k, vs in params.items() for v in vs[1:]]
    if not quick:
      changes += [dict(a, **b) for a, b in itertools.combinations(changes[1:], 2)
                  if set(a) != set(b)]
    for i, change in enumerate(changes):
      change = dict(change)
      if any(k in change for k in ADAPTIVE):
        change['adaptive_step_size'] = True
      if change.get('adaptive_step_size'):
        change['accepted_samples'] = None
        # the step size is adapted during the burn in
        change['burn_in'] = 4
      if 'diagonal_noise' in change:
        change['adapt_noise_model'] = True
      if change.get('adapt_noise_model'):
        change['friction'] = 80.0
        if change.get('batch_size') == 1:
          continue
      loader = ('host', 'device')[i % 2]
      if 'cache_size' in change:
        loader = 'host'
      out.append(dict(solver=name, change=change, loader=loader,
                      chains=1 + i % 3, state=bool(i % 4 == 1),
                      iterations=9 if quick else 13))
    for loader in ('host', 'device'):
      out.append(dict(solver=name, change='history', loader=loader, chains=3,
                      state=False, iterations=9))
    out.append(dict(mode='default', solver=name, change='default', loader='host', chains=2,
                    state=True, iterations=1010))
    # the defaults of the parameters which only matter together with a switch
    if name in SWITCHES:
      out.append(dict(mode='switch', solver=name, change='switch', loader='host', chains=2,
                      state=False,
                      iterations=200 if name == 'sgld' else 14))
  return out


def problem(state, scale=1.0):
  x = onp.array([[1.0, 0.5], [-0.5, 1.5], [2.0, -1.0], [0.3, 0.2], [-1.0, -0.7],
                 [0.1, 1.1], [1.3, -0.4]], FLOAT)
  y = x @ onp.array([0.8, -0.5], FLOAT) + 0.1 * onp.arange(7)
  ds = dict(x=x, y=y.astype(FLOAT))

  def single(sample, obs):
    r = obs['y'] - jnp.dot(obs['x'], sample['w']) - sample['b']
    return -0.5 * scale * r ** 2
  if state:
    lik = lambda st, sample, obs: (single(sample, obs) * (1 + 0.05 * jnp.sin(st)),
                                   st + 1)
  else:
    lik = single
  prior = lambda s: -0.5 * scale * (jnp.sum(s['w'] ** 2) + s['b'] ** 2)
  pot = potential.minibatch_potential(prior, lik, strategy='vmap',
                                      has_state=state)
  full = potential.full_potential(prior, lik, strategy='vmap', has_state=state)
  return ds, pot, full


def tokens(value):
  if value == 'm':
    return {'b': jnp.array(2.0), 'w': jnp.array([0.5, 1.5])}
  if value == 'f':
    return {'b': jnp.array(4.0), 'w': jnp.array([2.0, 8.0])}
  return value


def make_loader(kind, ds):
  return NumpyDataLoader(**ds) if kind == 'host' else DeviceNumpyDataLoader(**ds)


# documented default values
DEFAULTS = dict(
  sgld=dict(cache_size=512, batch_size=32, first_step_size=0.05,
            last_step_size=0.001, burn_in=0, accepted_samples=1000,
            rms_prop=False, alpha=0.9, lmbd=1e-5),
  re_sgld=dict(cache_size=512, batch_size=32, temperature=1000.0,
               first_step_size=0.05, last_step_size=0.001, burn_in=0,
               accepted_samples=100),
  amagold=dict(cache_size=512, batch_size=32, integration_steps=10,
               friction=0.25, first_step_size=0.001, last_step_size=0.001,
               adaptive_step_size=False, burn_in=0, accepted_samples=None,
               mass=None, stabilization_constant=10, decay_constant=0.75,
               speed_constant=0.05, target_acceptance_rate=0.25),
  sggmc=dict(cache_size=512, batch_size=32, integration_steps=10,
             friction_coefficient=1.0, first_step_size=0.001,
             last_step_size=0.001, adaptive_step_size=False, burn_in=0,
             accepted_samples=None, mass=None, stabilization_constant=10,
             decay_constant=0.75, speed_constant=0.05,
             target_acceptance_rate=0.25),
  sghmc=dict(cache_size=512, batch_size=32, integration_steps=10, friction=1.0,
             mass=None, first_step_size=0.05, last_step_size=0.001, burn_in=0,
             accepted_samples=1000, adapt_noise_model=False, diagonal_noise=True),
  obabo=dict(cache_size=512, batch_size=32, integration_steps=10, friction=1.0,
             mass=None, first_step_size=0.05, last_step_size=0.001, burn_in=0,
             accepted_samples=1000))


def compose(name, p, pot, full, loader):
  """The documented composition: solver, scheduler, arguments of init."""
  rd = data.random_reference_data(loader, p['cache_size'], p['batch_size'])
  kwargs, helpers = {}, None
  step = scheduler.polynomial_step_size_first_last(
    first=p['first_step_size'], last=p['last_step_size'])
  burn = scheduler.initial_burn_in(p['burn_in'])
  thin = None
  if p.get('accepted_samples') is not None:
    thin = scheduler.random_thinning(step, burn, selections=p['accepted_samples'])
  if name == 'sgld':
    solve = solver.sgmc(integrator.langevin_diffusion(
      pot, rd, adaption=adaption.rms_prop() if p['rms_prop'] else None))
    kwargs = dict(adaption_kwargs={'alpha': p['alpha'], 'lmbd': p['lmbd']})
  elif name == 're_sgld':
    solve = solver.parallel_tempering(integrator.langevin_diffusion(pot, rd))
    helpers = [{'temperature': {'tau': p['temperature']}}]
  elif name in ('amagold', 'sggmc'):
    fd = data.full_reference_data(loader, p['cache_size'], p['batch_size'])
    if name == 'amagold':
      solve = solver.amagold(integrator.reversible_leapfrog(
        pot, rd, steps=p['integration_steps'], friction=p['friction'],
        const_mass=p['mass']), full, fd)
    else:
      solve = solver.sggmc(integrator.obabo(
        pot, rd, steps=p['integration_steps'], friction=p['friction_coefficient'],
        const_mass=p['mass']), full, fd)
    if p['adaptive_step_size']:
      step = scheduler.adaptive_step_size(
        burn_in=p['burn_in'], initial_step_size=p['first_step_size'],
        **{k: p[k] for k in ADAPTIVE})
  elif name == 'sghmc':
    noise = None
    if p['adapt_noise_model']:
      noise = adaption.fisher_information(minibatch_potential=pot,
                                          diagonal=p['diagonal_noise'])
    solve = solver.sgmc(integrator.friction_leapfrog(
      pot, rd, steps=p['integration_steps'], friction=p['friction'],
      const_mass=p['mass'], noise_model=noise))
  else:
    solve = solver.sgmc(integrator.obabo(
      pot, rd, steps=p['integration_steps'], friction=p['friction'],
      const_mass=p['mass']))
  sch = scheduler.init_scheduler(step_size=step, burn_in=burn, thinning=thin,
                                 progress_bar=False)
  return solve, sch, kwargs, helpers


def make_start(name, i):
  one = {'w': jnp.array([0.3, -0.2]) * (i + 1), 'b': jnp.array(0.1 - 0.3 * i)}
  if name == 're_sgld':
    return (one, {'w': one['w'] + 0.5, 'b': one['b'] * 2})
  return one


def run_alias(name, kwargs, pot, full, loader):
  args = (pot, full) if name in ('amagold', 'sggmc') else (pot,)
  return getattr(alias, name)(*args, data_loader=loader, **kwargs)


def compare(ctx, got, want, count, what):
  ctx.check(isinstance(got, (list, tuple)) and len(got) == len(want),
            f'{what}: {len(got)} results for {len(want)} chains')
  for c, (g, w) in enumerate(zip(got, want)):
    ctx.check(int(g['sample_count']) == count, f'{what}: chain {c} has '
              f'{g["sample_count"]} samples instead of {count}')
    gs, ws = np_tree(g['samples']), np_tree(w['samples'])
    ctx.check(len(gs['variables']['b']) == count, f'{what}: chain {c} returns '
              f'{len(gs["variables"]["b"])} samples')
    ctx.close(gs, ws, f'{what}: chain {c}', rtol=1e-4, atol=1e-5)


def reference(name, p, pot, full, loader, starts, state, iterations):
  solve, sch, kwargs, helpers = compose(name, p, pot, full, loader)
  if state is not None:
    kwargs['init_model_state'] = state
  states = []
  for c, start in enumerate(starts):
    start = start if isinstance(start, tuple) else (start,)
    states.append(solve[0](*start, key=random.PRNGKey(c), **kwargs))
  more = {} if helpers is None else dict(schedulers=helpers)
  return solver.mcmc(solve, sch, strategy='map')(*states, iterations=iterations,
                                                 **more)


def expected_count(p, iterations):
  if p.get('accepted_samples') is not None:
    return p['accepted_samples']
  return iterations - p['burn_in']


def run(case, ctx):
  name, change = case['solver'], case['change']
  # small gradients show the stabilization parameter of RMSprop
  ds, pot, full = problem(case['state'], 1e-4 if (name, change) == (
    'sgld', 'switch') else 1.0)
  starts = [make_start(name, i) for i in range(case['chains'])]
  iterations = case['iterations']
  state = jnp.array(0.0) if case['state'] else None
  if change in ('default', 'switch'):
    # the dataset has to be larger than the default batches
    ds = {k: onp.concatenate([v] * 6) for k, v in ds.items()}
    kwargs = SWITCHES[name] if change == 'switch' else {}
    p = dict(DEFAULTS[name], **kwargs)
    kwargs = dict(kwargs, progress_bar=False)
  else:
    p = {k: tokens(v[0]) for k, v in SOLVERS[name].items()}
    if case['loader'] == 'device':
      p['cache_size'] = 1
    if change != 'history':
      p.update({k: tokens(v) for k, v in change.items()})
    kwargs = dict(p)
  count = expected_count(p, iterations)
  call = dict(iterations=iterations)
  if state is not None:
    call['init_model_state'] = state
  fn = run_alias(name, kwargs, pot, full, make_loader(case['loader'], ds))
  got = fn(*starts, **call)
  want = reference(name, p, pot, full, make_loader(case['loader'], ds), starts,
                   state, iterations)
  ctx.history = case
  compare(ctx, got, want, count, f'{case}')
  # saved on the host in numpy arrays or in device memory
  host = {isinstance(x, onp.ndarray)
          for r in got for x in tree_util.tree_leaves(r['samples'])}
  ctx.check(host == {kwargs.get('save_to_numpy', True)},
            f'{case}: samples in numpy arrays: {host}')
  ctx.step(2 * iterations * len(starts))
  ctx.state(name, case['loader'], str(change), len(starts))
  ctx.trace(case)
  values = lambda r: np_tree(r['samples']['variables'])
  if change != 'history':
    if change == 'switch':
      ctx.check(len(set(onp.ravel(values(got[0])['b']))) > 2,
                f'{case}: the samples do not change')
    if any(onp.isnan(x).any() for x in tree_util.tree_leaves(values(got[0]))):
      ctx.note('diverged')
    return
  # other numbers of chains
  for k in (1, 2):
    fn = run_alias(name, kwargs, pot, full, make_loader(case['loader'], ds))
    compare(ctx, fn(*starts[:k], **call), want[:k], count, f'{case}: {k} chains')
    ctx.step(k * iterations)
    ctx.trace((name, k))
  # a result does not depend on the previous calls (except for the position of
  # the random numbers of the host loader)
  for n in (6 + 1, iterations):
    if p.get('accepted_samples') is not None and n - p['burn_in'] < count:
      continue
    res = fn(*starts[:2], iterations=n)
    if case['loader'] == 'device':
      ref = reference(name, p, pot, full, make_loader('device', ds), starts[:2],
                      state, n)
      compare(ctx, res, ref, expected_count(p, n), f'{case}: call with {n} '
                                                   f'iterations')
    else:
      ctx.check([int(r['sample_count']) for r in res] == [
        expected_count(p, n)] * 2, f'{case}: second call')
    ctx.step(2 * n)
    ctx.trace((name, n))
  # identical starting points: the chains are different
  res = fn(*[starts[0]] * 7, **call)
  seen = {b''.join(x.tobytes() for x in tree_util.tree_leaves(values(r)))
          for r in res}
  ctx.check(len(seen) == 7, f'{case}: chains with the same initial sample are '
                            f'identical')
  ctx.trace((name, 'same'))
