"""C14: MH solvers accept, reject and reverse as required."""
import math

from mc.lib import *

PROPERTY = 'C14'
INFO = {
  'rule': ('all histories of energies, uniform variates and temperatures of the '
           'MH steps of AMAGOLD and SGGMC are executed with a scripted '
           'integrator and compared with a reference implementation (positions, '
           'momentum, model state, streams, potential, ratio, mass); with the '
           'real integrators all accept/reject histories are executed; the '
           'transition matrices induced by all states, data and outcomes of '
           'reversible maps on finite phase spaces are assembled from the real '
           'solver and tested for invariance; the use of the uniform variates '
           'is decided over all keys 0..K-1'),
  'bounds': {'quick': 'histories of length 4 over 9 (energy, variate) symbols '
                      '(3 with mass adaption); real integrators: all 3^3 '
                      'histories; rings with 5 positions x 5 momenta x 2 data; '
                      'K=2048', 'thorough': 'length 5; rings with 7; K=8192'},
  'assumptions': ['the uniform variate is drawn with jax.random.uniform; '
                  'otherwise only the keys 0..K-1 decide the acceptance (6 '
                  'standard deviations)', 'potentials are not NaN']}


class Uniform:
  """Replaces jax.random.uniform for scalars by a scripted value."""

  def __init__(self):
    self.value, self.calls = None, 0

  def __enter__(self):
    self.original = random.uniform

    def uniform(key, shape=(), *args, **kwargs):
      if self.value is None or tuple(shape) not in ((), (1,)):
        return self.original(key, shape, *args, **kwargs)
      self.calls += 1
      # the key is still evaluated
      return jnp.reshape(self.value, shape) + 0.0 * self.original(key)
    jax.random.uniform = uniform
    return self

  def __exit__(self, *args):
    jax.random.uniform = self.original


ENERGIES = (-1.5, -0.4, 0.3)
VARIATES = (1e-6, 0.45, 0.999)
SIGMA = 0.05


def toy_integrator(kind):
  """q' = q + p / m * step_size + t, p' = 2 - p * m; t counts the proposals."""
  state_cls = integrator.LeapfrogState if kind == 'amagold' else \
      integrator.ObaboState

  def init(sample, key=None, mass=None, init_model_state=None, table=None):
    common = dict(positions=sample, momentum={'q': jnp.array([1.0, 0.5])},
                  potential=jnp.array(0.0), model_state=init_model_state,
                  data_state=jnp.array(0), key=jnp.array(1000))
    if kind == 'sggmc':
      common.update(kinetic_energy_start=jnp.array(0.0),
                    kinetic_energy_end=jnp.array(0.0))
    return state_cls(**common)

  def update(state, schedule, mass=None):
    t = state.data_state
    m = 1.0 if mass is None else mass
    energy = SCRIPT['energy']
    new = dict(
      positions={'q': 0.75 * (state.positions['q'] + schedule.step_size *
                              state.momentum['q'] / m) + 0.125 * t},
      momentum={'q': 0.25 * t + 1.0 - 0.5 * state.momentum['q'] * m},
      model_state=None if state.model_state is None else
      state.model_state + 10, data_state=t + 1, key=state.key + 7,
      potential=jnp.asarray(energy if kind == 'amagold' else 5.0 + t))
    if kind == 'sggmc':
      new.update(kinetic_energy_start=jnp.asarray(3.0 + 0.5 * t),
                 kinetic_energy_end=3.0 + 0.5 * t - energy)
    return state_cls(**new)

  def get(state):
    return {'variables': state.positions, 'energy': state.potential,
            'model_state': state.model_state}
  return init, update, get


SCRIPT = {'energy': 0.0}


def full_potential(sample, data_state, full_data_map_fn, state=None):
  """Potential of the positions only; counts its evaluations."""
  assert full_data_map_fn == 'full data map'
  u = 0.3 * jnp.sum(sample['q'] ** 2) + 0.2 * jnp.sum(sample['q'])
  new_state = None if state is None else state + 1
  return u, (data_state + 1, new_state)


def ref_potential(q):
  return 0.3 * float((q ** 2).sum()) + 0.2 * float(q.sum())


def mass_adaption():
  """The mass depends on all samples and their order."""
  return (lambda sample, mass=None: jnp.asarray(2.0 if mass is None else mass),
          lambda state, sample, *a, **k: 0.5 * state + 0.75 + 0.25 * jnp.sin(
            jnp.sum(sample['q'])), lambda state, *a, **k: state)


def make_solver(kind, adapt):
  fn = solver.amagold if kind == 'amagold' else solver.sggmc
  full_map = (lambda **kw: jnp.array(500), 'full data map', None)
  return fn(toy_integrator(kind), full_potential, full_map,
            **({'mass_adaption': mass_adaption()} if adapt else {}))


def cases(tier):
  quick = tier == 'quick'
  out = []
  for kind in ('amagold', 'sggmc'):
    for adapt in (False, True):
      for model in (False, True):
        for first in range(9):
          out.append(dict(mode='history', kind=kind, adapt=adapt, model=model,
                          first=first, length=(3 if adapt else 4) if quick else
                          5))
    for ms in ('none', 'diag'):
      for loader in ('numpy', 'device'):
        out.append(dict(mode='real', kind=kind, mass=ms, loader=loader,
                        length=3 if quick else 5))
    for n in (3, 5) if quick else (3, 5, 7):
      for table in range(3):
        out.append(dict(mode='ring', kind=kind, n=n, table=table))
    out.append(dict(mode='keys', kind=kind, keys=2048 if quick else 8192))
    out.append(dict(mode='limits', kind=kind))
    out.append(dict(mode='temperature', kind=kind))
    out.append(dict(mode='driver', kind=kind))
  return out


def run(case, ctx):
  globals()['run_' + case['mode']](case, ctx)


def make_step(solve, ctx):
  """Jit-compiled update with scripted variates."""
  patch = Uniform()

  def step(state, sched, u, energy):
    SCRIPT['energy'] = energy
    patch.value = u
    try:
      with patch:
        return solve[1](state, sched)
    finally:
      patch.value = None
  return jax.jit(step), patch


class Ref:
  """Reference of a MH step with the toy integrator (double precision)."""

  def __init__(self, kind, adapt, model, q, mass=None):
    self.kind, self.adapt = kind, adapt
    self.q, self.p = onp.array(q, float), onp.array([1.0, 0.5])
    self.m = (2.0 if mass is None else mass) if adapt else 1.0
    self.t, self.key, self.full = 0, 1000, 501
    self.model = (1 if model else None)
    self.u = ref_potential(self.q)
    self.accepted = None

  def step(self, energy, u, h, tau):
    t = self.t
    q = 0.75 * (self.q + h * self.p / self.m) + 0.125 * t
    p = 0.25 * t + 1.0 - 0.5 * self.p * self.m
    new_u = ref_potential(q)
    log_alpha = self.u - new_u + energy
    if self.kind == 'sggmc':
      log_alpha /= tau
    log_alpha = min(log_alpha, 0.0)
    self.margin = abs(log_alpha - math.log(u))
    self.accepted = math.log(u) < log_alpha
    self.ratio = math.exp(log_alpha)
    self.t, self.key, self.full = t + 1, self.key + 7, self.full + 1
    if self.accepted:
      self.q, self.p, self.u = q, p, new_u
      if self.model is not None:
        self.model += 11
    else:
      self.p = -self.p
    if self.adapt:
      self.m = 0.5 * self.m + 0.75 + 0.25 * math.sin(self.q.sum())


def observe(ctx, state, stats, got, ref, what, step_size, momentum=True):
  i = state.integrator_state
  tag = 'accepted' if ref.accepted else 'rejected'
  near = dict(rtol=2e-4, atol=2e-4)
  ctx.close(onp.asarray(got['variables']['q']), ref.q,
            f'{what}: sample after {tag} proposal', **near)
  if momentum:
    ctx.close(onp.asarray(i.momentum['q']), ref.p,
              f'{what}: momentum after {tag} proposal', **near)
  ctx.close(onp.asarray(state.potential), ref.u,
            f'{what}: stored potential after {tag} proposal', **near)
  ctx.check(int(i.data_state) == ref.t and int(i.key) == ref.key,
            f'{what}: data {i.data_state} and key {i.key} instead of {ref.t} '
            f'and {ref.key} after {tag} proposal')
  ctx.check(int(state.full_data_state) == ref.full,
            f'{what}: full data state {state.full_data_state} instead of '
            f'{ref.full}')
  model = got['model_state']
  ctx.check((model is None) == (ref.model is None) and
            (model is None or int(model) == ref.model),
            f'{what}: model state {model} instead of {ref.model} after {tag} '
            f'proposal')
  ctx.close(onp.asarray(got['acceptance_ratio']), ref.ratio,
            f'{what}: acceptance ratio', **near)
  ctx.close(onp.asarray(stats['acceptance_ratio']), ref.ratio,
            f'{what}: acceptance ratio for the scheduler', **near)
  ctx.check(FLOAT(got['step_size']) == FLOAT(step_size),
            f'{what}: step size {got["step_size"]}')
  if ref.adapt:
    ctx.close(onp.asarray(state.mass_state), ref.m, f'{what}: adapted mass',
              **near)


def sched_at(k):
  return scheduler.schedule(
    step_size=jnp.array([0.5, 0.25, 0.75][k % 3]),
    temperature=jnp.array([1.0, 0.5, 2.0][k % 3]),
    burn_in=jnp.array(1.0), accept=jnp.array(True))


def scalars(k):
  return [0.5, 0.25, 0.75][k % 3], [1.0, 0.5, 2.0][k % 3]


def run_history(case, ctx):
  kind, adapt, model = case['kind'], case['adapt'], case['model']
  solve = make_solver(kind, adapt)
  step, patch = make_step(solve, ctx)
  symbols = list(itertools.product(ENERGIES, VARIATES))
  q0 = onp.array([0.5, -0.25], FLOAT)
  kwargs = dict(init_model_state=jnp.array(0)) if model else {}
  if adapt:
    kwargs['initial_mass'] = jnp.array(1.5)
  first = symbols[case['first']]

  def extend(state, ref, history):
    k = len(history)
    for sym in ([first] if k == 0 else symbols):
      new = Ref.__new__(Ref)
      new.__dict__.update(ref.__dict__)
      h, tau = scalars(k)
      new.step(*sym, h, tau)
      if new.margin < 1e-3:
        ctx.note('undecidable')
        continue
      seq = history + (sym,)
      ctx.history = seq
      out, stats = step(state, sched_at(k), sym[1], sym[0])
      if patch.calls == 0:
        ctx.note('variates_not_scripted')
        return
      what = f'{kind} history {seq}'
      observe(ctx, out, stats, solve[2](out), new, what, h)
      ctx.check(not onp.array_equal(onp.asarray(out.key),
                                    onp.asarray(state.key)),
                f'{what}: the key is used again')
      ctx.step()
      ctx.state(kind, adapt, model, seq)
      if len(seq) == case['length']:
        ctx.trace(seq)
      else:
        extend(out, new, seq)
  state = solve[0]({'q': jnp.array(q0)}, key=random.PRNGKey(3), **kwargs)
  ref = Ref(kind, adapt, model, q0, 1.5)
  ctx.close(onp.asarray(state.potential), ref.u, f'{kind} initial potential')
  ctx.check(int(state.full_data_state) == 501, f'{kind} initial full data state')
  extend(state, ref, ())


def real_parts(case, steps=2):
  """Real integrator, potential and data."""
  def log_lik(state, sample, obs):
    return -0.5 * jnp.sum((obs['y'] * 0.1 - sample['w']) ** 2), (
      0.5 * state + obs['x'].astype(FLOAT))

  def log_prior(sample):
    return -0.3 * jnp.sum(sample['w'] ** 2) - 0.1 * sample['b'] ** 2
  cls = NumpyDataLoader if case['loader'] == 'numpy' else DeviceNumpyDataLoader
  loader = cls(**make_dataset(5))
  rd = data.random_reference_data(loader, 1, 2)
  fd = data.full_reference_data(loader, 1, 2)
  pot = potential.minibatch_potential(log_prior, log_lik, has_state=True)
  full = potential.full_potential(log_prior, log_lik, has_state=True)
  mass = {'w': jnp.array([1.5, 0.5]), 'b': jnp.array(2.0)} \
      if case['mass'] == 'diag' else None
  if case['kind'] == 'amagold':
    integ = integrator.reversible_leapfrog(pot, rd, steps=steps, friction=0.3,
                                           const_mass=mass)
    solve = solver.amagold(integ, full, fd)
  else:
    integ = integrator.obabo(pot, rd, steps=steps, friction=0.4,
                             const_mass=mass)
    solve = solver.sggmc(integ, full, fd)
  return solve, integ, full, fd


def run_real(case, ctx):
  """All accept/reject histories with real integrator and potentials."""
  solve, integ, full, fd = real_parts(case)
  step, patch = make_step(solve, ctx)
  propose = jax.jit(lambda s, sc: integ[1](s, sc))
  # the reference is evaluated with stateless device data
  _, _, _, fd = real_parts(dict(case, loader='device'))
  fstate = fd[0]()
  full_eval = jax.jit(lambda s, ms, fs: full(s, fs, fd[1], state=ms))

  def sched(k):
    return scheduler.schedule(
      step_size=jnp.array([0.05, 0.1, 0.02][k % 3]),
      temperature=jnp.array(1.0 if case['kind'] == 'amagold' else
                            [1.0, 0.7][k % 2]), burn_in=jnp.array(1.0),
      accept=jnp.array(True))
  sample = {'w': jnp.array([0.3, -0.2]), 'b': jnp.array(0.5)}

  for history in sequences((1e-30, 0.9999999, 0.5), case['length']):
    ctx.history = history
    state = solve[0](sample, key=random.PRNGKey(11),
                     init_model_state=jnp.array(0.0))
    for k, u in enumerate(history):
      what = f'{case} variates {history} step {k}'
      sc = sched(k)
      before = state.integrator_state
      if case['loader'] == 'device':
        # the proposal can be repeated, because the data is drawn on the device
        prop = propose(before, sc)
        pot_new, (_, ms_new) = full_eval(prop.positions, prop.model_state, fstate)
        if case['kind'] == 'amagold':
          log_alpha = float(state.potential) - float(pot_new) + float(
            prop.potential)
        else:
          log_alpha = -(float(pot_new) - float(state.potential) + float(
            prop.kinetic_energy_end) - float(prop.kinetic_energy_start)
                        ) / float(sc.temperature)
        log_alpha = min(0.0, log_alpha)
      old_pot = float(state.potential)
      state, stats = step(state, sc, u, 0.0)
      if patch.calls == 0:
        ctx.note('variates_not_scripted')
        return
      after = state.integrator_state
      moved = not all(onp.array_equal(a, b) for a, b in zip(
        tree_util.tree_leaves(np_tree(before.positions)),
        tree_util.tree_leaves(np_tree(after.positions))))
      if case['loader'] == 'device':
        if abs(math.log(u) - log_alpha) < 1e-4:
          ctx.note('undecidable')
          break
        accept = math.log(u) < log_alpha
        ctx.check(moved == accept, f'{what}: log u = {math.log(u)}, log alpha = '
                                   f'{log_alpha}, but moved is {moved}')
        ctx.close(onp.asarray(stats['acceptance_ratio']), math.exp(log_alpha),
                  f'{what}: ratio', rtol=2e-3, atol=1e-4)
        if accept:
          for name in ('positions', 'momentum', 'data_state', 'key'):
            ctx.close(np_tree(getattr(after, name)), np_tree(
              getattr(prop, name)), f'{what}: accepted {name}', rtol=1e-4,
                      atol=1e-5)
          ctx.close(onp.asarray(after.model_state), onp.asarray(ms_new),
                    f'{what}: accepted model state', rtol=1e-4)
        else:
          for name in ('data_state', 'key'):
            ctx.close(np_tree(getattr(after, name)), np_tree(
              getattr(prop, name)), f'{what}: {name} after rejection')
      else:
        accept = moved
      if not accept:
        ctx.equal(np_tree(after.positions), np_tree(before.positions),
                  f'{what}: rejected positions')
        ctx.close(np_tree(after.momentum), tree_util.tree_map(
          lambda m: -onp.asarray(m), before.momentum),
                  f'{what}: rejected momentum', rtol=1e-6, atol=0)
        ctx.equal(onp.asarray(after.model_state), onp.asarray(
          before.model_state), f'{what}: rejected model state')
        ctx.check(float(state.potential) == old_pot, f'{what}: potential')
      # the potential belongs to the current sample
      want, _ = full_eval(after.positions, before.model_state, fstate)
      ctx.close(onp.asarray(state.potential), onp.asarray(want),
                f'{what}: potential of the current sample', rtol=1e-4,
                atol=1e-4)
      ctx.check(not onp.array_equal(onp.asarray(after.key), onp.asarray(
        before.key)), f'{what}: integrator key is used again')
      ctx.step()
      ctx.state(case['kind'], case['mass'], case['loader'], history[:k + 1])
    ctx.trace(history)


def ring_maps(case):
  """Reversible leapfrog on the ring Z_n x Z_n with data dependent forces."""
  n = case['n']
  tables = [onp.linspace(0, 1.5, n) ** 2, onp.sin(onp.arange(n) * 2.0) + 1,
            onp.where(onp.arange(n) == 1, 3.0, 0.2)]
  u = tables[case['table']]
  force = onp.array([[(3 * q + 1 + d) % n for q in range(n)] for d in range(2)])
  sym = onp.array([p if p <= n // 2 else p - n for p in range(n)])
  kin = 0.4 * sym ** 2
  return n, u, force, sym, kin


def run_ring(case, ctx):
  """Transition matrix from all states, data and outcomes of the real solver."""
  n, u, force, sym, kin = ring_maps(case)
  kind = case['kind']
  state_cls = integrator.LeapfrogState if kind == 'amagold' else \
      integrator.ObaboState
  ju, jforce, jkin = jnp.array(u), jnp.array(force), jnp.array(kin)

  def init(sample, key=None, mass=None, init_model_state=None):
    raise NotImplementedError

  def update(state, schedule, mass=None):
    q, p = state.positions.astype(int), jnp.mod(state.momentum, n).astype(int)
    f = jforce[state.data_state]
    p1 = jnp.mod(p + f[q], n)
    q1 = jnp.mod(q + p1, n)
    p2 = jnp.mod(p1 + f[q1], n)
    new = dict(positions=q1.astype(FLOAT),
               momentum=jnp.where(p2 <= n // 2, p2, p2 - n).astype(FLOAT),
               potential=jkin[p] - jkin[p2] if kind == 'amagold' else
               jnp.array(0.0), model_state=None, data_state=state.data_state,
               key=state.key)
    if kind == 'sggmc':
      new.update(kinetic_energy_start=jkin[p], kinetic_energy_end=jkin[p2])
    return state_cls(**new)
  get = lambda s: {'variables': s.positions, 'energy': s.potential,
                   'model_state': None}

  def pot(sample, data_state, full_map, state=None):
    return ju[sample.astype(int)], (data_state, state)
  fn = solver.amagold if kind == 'amagold' else solver.sggmc
  solve = fn((init, update, get), pot, (lambda: 0, None, None))
  step, patch = make_step(solve, ctx)
  state0 = solver.AMAGOLDState if kind == 'amagold' else solver.SGGMCState
  for tau in (1.0,) if kind == 'amagold' else (1.0, 0.5, 2.0):
    sc = scheduler.schedule(jnp.array(0.1), jnp.array(tau), jnp.array(1.0),
                            jnp.array(True))
    trans = onp.zeros((n * n, n * n))
    for q, p, d in itertools.product(range(n), range(n), range(2)):
      extra = {} if kind == 'amagold' else dict(
        kinetic_energy_start=jnp.array(0.0), kinetic_energy_end=jnp.array(0.0))
      istate = state_cls(positions=jnp.array(float(q)),
                         momentum=jnp.array(float(sym[p])), potential=0.0,
                         model_state=None, data_state=jnp.array(d),
                         key=random.PRNGKey(0), **extra)
      ratio_t = (jnp.array(0.0),) * (2 if kind == 'amagold' else 3)
      state = state0(full_data_state=0, potential=ju[q], key=random.PRNGKey(1),
                     integrator_state=istate, acceptance_ratio=ratio_t,
                     mass_state=None)
      alpha, ends = None, []
      for v in (1e-30, None):
        if v is None:
          # just above the acceptance ratio
          if alpha >= 0.99999:
            break
          v = alpha + 1e-4 * (1 - alpha)
        out, stats = step(state, sc, v, 0.0)
        if patch.calls == 0:
          ctx.note('variates_not_scripted')
          return
        a = float(stats['acceptance_ratio'])
        ctx.check(alpha is None or abs(a - alpha) < 1e-6,
                  f'{case}: acceptance ratio {a} depends on the variate')
        alpha = a
        i = out.integrator_state
        ends.append((int(i.positions), int(i.momentum) % n))
        ctx.step()
      if alpha > 1e-4 and alpha < 0.99999:
        # just below the acceptance ratio
        out, _ = step(state, sc, alpha * (1 - 1e-4), 0.0)
        i = out.integrator_state
        ctx.check((int(i.positions), int(i.momentum) % n) == ends[0],
                  f'{case} T={tau}: state {(q, p, d)} is not accepted with a '
                  f'variate below the ratio {alpha}')
      src = q * n + p
      trans[src, ends[0][0] * n + ends[0][1]] += 0.5 * alpha
      if len(ends) > 1:
        trans[src, ends[1][0] * n + ends[1][1]] += 0.5 * (1 - alpha)
      ctx.state(case['kind'], n, case['table'], tau, q, p, d)
    pi = onp.array([math.exp(-(u[q] + kin[p]) / tau) for q in range(n)
                    for p in range(n)])
    pi /= pi.sum()
    rows = trans.sum(axis=1)
    ctx.check(abs(rows - 1).max() < 2e-5, f'{case}: probabilities {rows}')
    err = abs(pi @ trans - pi).max() / pi.max()
    ctx.check(err < 5e-5, f'{case} T={tau}: the posterior is not invariant: '
                          f'{short(repr(pi @ trans))} instead of '
                          f'{short(repr(pi))}')
    ctx.trace((case['kind'], n, case['table'], tau), steps=n * n)


def run_keys(case, ctx):
  """Acceptance by the real uniform variates of all keys."""
  kind = case['kind']
  solve = make_solver(kind, False)
  base = solve[0]({'q': jnp.array([0.5, -0.25])}, key=random.PRNGKey(3))
  for energy in (-2.0, -1.0, -0.5, 0.0, 1.0):
    def one(key):
      SCRIPT['energy'] = jnp.array(energy)
      state = base._replace(key=key)
      out, stats = solve[1](state, sched_at(0))
      moved = jnp.any(out.integrator_state.positions['q'] !=
                      state.integrator_state.positions['q'])
      # next decision with the key of the next state
      again, _ = solve[1](base._replace(key=out.key), sched_at(0))
      moved2 = jnp.any(again.integrator_state.positions['q'] !=
                       state.integrator_state.positions['q'])
      return moved, moved2, stats['acceptance_ratio'], out.key
    n = case['keys']
    m1, m2, ratio, keys = jax.jit(jax.vmap(one))(
      jax.vmap(random.PRNGKey)(jnp.arange(n)))
    m1, m2 = onp.asarray(m1).astype(float), onp.asarray(m2).astype(float)
    a = float(ratio[0])
    sigma = math.sqrt(max(a * (1 - a), 1e-12) / n)
    for name, m in (('first', m1), ('second', m2)):
      ctx.check(abs(m.mean() - a) < 6 * sigma + 1e-6,
                f'{kind}: {m.mean()} of the proposals with ratio {a} are '
                f'accepted in the {name} step')
    if 0.05 < a < 0.95:
      corr = ((m1 - a) * (m2 - a)).mean() / (a * (1 - a))
      ctx.check(abs(corr) < 6 / math.sqrt(n), f'{kind}: decisions of subsequent '
                f'steps are correlated: {corr}')
    ctx.check(len(onp.unique(onp.asarray(keys), axis=0)) == n,
              f'{kind}: different keys lead to the same next key')
    ctx.trace((kind, energy), steps=2 * n)
    ctx.note('keys', n)


def run_temperature(case, ctx):
  """Small and large temperatures and step sizes."""
  kind = case['kind']
  solve = make_solver(kind, False)
  step, patch = make_step(solve, ctx)
  q0 = onp.array([0.5, -0.25], FLOAT)
  base = solve[0]({'q': jnp.array(q0)}, key=random.PRNGKey(3))
  for tau in (2e-3, 0.02, 0.2, 7.0, 60.0, 3000.0):
    for h in (1e-4, 0.05, 1.0, 3.0):
      zero = Ref(kind, False, False, q0)
      start = zero.u
      zero.step(0.0, 0.5, h, tau)
      q = 0.75 * (onp.array(q0, float) + h * onp.array([1.0, 0.5]))
      shift = ref_potential(q) - start
      scale = tau if kind == 'sggmc' else 1.0
      for level in (-25.0, -8.0, -2.0, -1.0, -0.3, 0.5, 20.0):
        for u in (1e-9, 0.01, 0.5, 0.9):
          energy = float(FLOAT(shift + level * scale))
          ref = Ref(kind, False, False, q0)
          ref.step(energy, u, h, tau)
          if ref.margin < 5e-3:
            ctx.note('undecidable')
            continue
          sc = scheduler.schedule(jnp.array(h), jnp.array(tau), jnp.array(1.0),
                                  jnp.array(True))
          out, stats = step(base, sc, u, energy)
          if patch.calls == 0:
            ctx.note('variates_not_scripted')
            return
          moved = bool((out.integrator_state.positions['q'] !=
                        base.integrator_state.positions['q']).any())
          what = f'{kind} T={tau} h={h} level {level} variate {u}'
          ctx.check(moved == ref.accepted, f'{what}: accepted is {moved}')
          ctx.close(onp.asarray(stats['acceptance_ratio']), ref.ratio,
                    f'{what}: ratio', rtol=5e-3, atol=1e-9)
          ctx.step()
          ctx.state(kind, tau, h, level, u)
      ctx.trace((kind, tau, h))


def run_limits(case, ctx):
  """Extreme energies; initial state; keys of the initialization."""
  kind = case['kind']
  solve = make_solver(kind, False)
  step, patch = make_step(solve, ctx)
  for energy in (-1e30, -200.0, -math.inf, 200.0, 1e30, math.inf):
    for u in (1e-30, 0.5, 0.9999999):
      state = solve[0]({'q': jnp.array([0.5, -0.25])}, key=random.PRNGKey(1))
      out, stats = step(state, sched_at(0), u, energy)
      if patch.calls == 0:
        ctx.note('variates_not_scripted')
        break
      moved = bool((out.integrator_state.positions['q'] !=
                    state.integrator_state.positions['q']).any())
      ratio = float(stats['acceptance_ratio'])
      ctx.check(moved == (energy > 0), f'{kind}: energy {energy}, variate {u}: '
                                       f'accepted is {moved}')
      ctx.check(ratio == 1.0 if energy > 0 else 0.0 <= ratio < 1e-37,
                f'{kind}: energy {energy}: ratio {ratio}')
      ctx.trace((kind, energy, u), steps=1)
  # different keys lead to different decisions and different integrator keys
  solve, integ, _, _ = real_parts(dict(kind=kind, loader='device', mass='none'))
  sample = {'w': jnp.array([0.3, -0.2]), 'b': jnp.array(0.5)}
  seen = set()
  for k in range(12):
    s = solve[0](sample, key=random.PRNGKey(k), init_model_state=jnp.array(0.))
    seen.add(onp.asarray(s.key).tobytes())
    seen.add(onp.asarray(s.integrator_state.key).tobytes())
    ctx.step()
  ctx.check(len(seen) == 24, f'{kind}: only {len(seen)} different keys of 12 '
                             f'chains (solver and integrator)')
  ctx.trace((kind, 'keys'))


def run_driver(case, ctx):
  """The ratio reaches the schedulers: dual averaging reacts in the driver."""
  kind = case['kind']
  for energy in (-1.5, 0.3):
    solve = make_solver(kind, False)
    got = []
    sched = scheduler.init_scheduler(
      step_size=scheduler.specific_scheduler(
        lambda iterations: jnp.array(0.5),
        lambda state, iteration, acceptance_ratio=-1.0, **kw:
        0.25 + 0.5 * acceptance_ratio,
        lambda state, iteration, **kw: state), progress_bar=False)
    with Uniform() as patch:
      patch.value = jnp.array(1e-6)
      SCRIPT['energy'] = jnp.array(energy)
      state = solve[0]({'q': jnp.array([0.5, -0.25])}, key=random.PRNGKey(1))
      res = solver.mcmc(solve, sched)(state, iterations=5)[0]['samples']
    if patch.calls == 0:
      ctx.note('variates_not_scripted')
      return
    ref, h = Ref(kind, False, False, [0.5, -0.25]), 0.5
    for k in range(5):
      ctx.close(onp.asarray(res['step_size'][k]), h, f'{kind} step size of '
                f'iteration {k}', rtol=1e-4)
      ref.step(energy, 1e-6, h, 1.0)
      ctx.close(onp.asarray(res['acceptance_ratio'][k]), ref.ratio,
                f'{kind}: ratio of iteration {k}', rtol=1e-3)
      ctx.close(onp.asarray(res['variables']['q'][k]), ref.q,
                f'{kind}: sample {k}', rtol=1e-3, atol=1e-4)
      h = 0.25 + 0.5 * ref.ratio
    ctx.trace((kind, energy), steps=5)
