"""C15: Parallel tempering swaps consistently and estimates the noise."""
import math

from mc.lib import *
from mc.checks.c14 import Uniform

PROPERTY = 'C15'
INFO = {
  'rule': ('all histories of potentials, variances and uniform variates of the '
           'swap step are executed with a scripted integrator and compared with '
           'a reference implementation (both complete replica states, variance '
           'estimate, step, order of replicas); with the Langevin integrator '
           'all swap/keep histories are executed and compared with separately '
           'advanced replicas; the use of the uniform variates is decided over '
           'all keys 0..K-1; the recorded samples of whole runs of the driver '
           'are compared with the cold replica'),
  'bounds': {'quick': 'histories of length 3 over 12 symbols for 12 '
                      'combinations of sa_schedule, F, temperatures; Langevin: '
                      'all 3^4 histories; K=2048',
             'thorough': 'length 4; Langevin 3^6; K=8192'},
  'assumptions': ['the uniform variate is drawn with jax.random.uniform; '
                  'otherwise only the keys 0..K-1 decide the swaps (6 standard '
                  'deviations)', 'potentials are not NaN']}

KEY = 'inverted-swap'
HOT = 0.2

# (potential at cold position, at hot position), variances, variates
ENERGIES = ((1.5, 1.0), (0.5, 2.25), (3.0, -1.0))
VARIANCES = ((0.25, 3.0), (2.0, 0.0))
VARIATES = (0.02, 0.7)
CONFIGS = [
  dict(sa='default', F=1.0, ssq=0.0, T=(1.0, 4.0)),
  dict(sa='default', F=2.0, ssq=0.5, T=(1.0, 2.0)),
  dict(sa='const', F=1.0, ssq=0.5, T=(1.0, 4.0)),
  dict(sa='const', F=0.5, ssq=0.0, T=(0.5, 1.0)),
  dict(sa='decay', F=4.0, ssq=1.0, T=(1.0, 1000.0)),
  dict(sa='decay', F=1.0, ssq=0.25, T=(2.0, 3.0)),
  dict(sa='const', F=2.0, ssq=0.5, T=(2.0, 0.5))]
SA = {'default': None, 'const': lambda n: 0.3, 'decay': lambda n: 1 / (n + 1)}
SCRIPT = {}

ToyState = namedtuple('ToyState', ['ident', 'positions', 'potential', 'variance',
                                   'count', 'key', 'model_state'])


def toy_integrator(record=None):
  """Replicas are identified by `ident`; scripted potential and variance."""

  def init(sample, key=None, init_model_state=None, extra=0.0):
    if record is not None:
      record.append(onp.asarray(key).tobytes())
    return ToyState(ident=sample['id'], positions={'q': sample['q'] + extra},
                    potential=jnp.array(0.0), variance=jnp.array(0.0),
                    count=jnp.array(0), key=key, model_state=init_model_state)

  def update(state, schedule):
    hot = schedule.step_size >= HOT
    pick = lambda pair: jnp.where(hot, pair[1], pair[0])
    return ToyState(
      ident=state.ident, positions={
        'q': 0.5 * state.positions['q'] + schedule.step_size +
        0.125 * schedule.temperature * state.ident},
      potential=pick(SCRIPT['pot']), variance=pick(SCRIPT['var']),
      count=state.count + 1, key=state.key,
      model_state=state.model_state + state.ident)

  def get(state):
    return {'variables': state.positions, 'id': state.ident,
            'count': state.count}
  return init, update, get


def make_solver(sa, integ):
  fn = SA[sa]
  return solver.parallel_tempering(integ) if fn is None else \
      solver.parallel_tempering(integ, fn)


def cases(tier):
  quick = tier == 'quick'
  out = []
  for cfg in range(len(CONFIGS)):
    for first in range(len(ENERGIES) * len(VARIANCES)):
      out.append(dict(mode='history', cfg=cfg, first=first,
                      length=3 if quick else 4))
  for cfg in range(len(CONFIGS)):
    out.append(dict(mode='long', cfg=cfg, length=80 if quick else 400))
  for T in (2.0, 50.0):
    for adapt in (False, True):
      out.append(dict(mode='real', T=T, adapt=adapt, length=4 if quick else 6))
  out.append(dict(mode='keys', keys=2048 if quick else 8192))
  for iterations in (4, 7):
    out.append(dict(mode='driver', iterations=iterations))
  out.append(dict(mode='init'))
  return out


def run(case, ctx):
  globals()['run_' + case['mode']](case, ctx)


def scheds(T):
  mk = lambda h, t: scheduler.schedule(
    step_size=jnp.array(h), temperature=jnp.array(t), burn_in=jnp.array(1.0),
    accept=jnp.array(True))
  return mk(0.1, T[0]), mk(HOT, T[1])


class Decision:
  """Compares swap decisions with the criterion.

  All decisions of a case have to follow the criterion. The known finding is
  that all decisions are inverted.
  """

  def __init__(self, ctx):
    self.ctx, self.seen = ctx, set()

  def __call__(self, swapped, criterion, what):
    inverted = swapped != criterion
    self.seen.add(inverted)
    self.ctx.check(len(self.seen) == 1, f'{what}: swapped is {swapped} although '
                   f'the criterion is {criterion}; other decisions are '
                   f'{"not " if inverted else ""}inverted')
    if inverted:
      self.ctx.fail(f'{what}: swapped is {swapped} although log u < log s is '
                    f'{criterion}', key=KEY)


def jit_step(solve, patch):
  def step(state, normal, hot, u, pot, var):
    SCRIPT.update(pot=pot, var=var)
    patch.value = u
    try:
      with patch:
        return solve[1](state, normal, hot)[0]
    finally:
      patch.value = None
  return jax.jit(step)


def toy_ref(rep, h, T, pot, var):
  return dict(ident=rep['ident'], q=0.5 * rep['q'] + h + 0.125 * T * rep['ident'],
              pot=pot, var=var, count=rep['count'] + 1, key=rep['key'],
              model=rep['model'] + rep['ident'])


def observe_rep(ctx, got, want, what):
  ctx.check(int(got.ident) == want['ident'], f'{what}: another replica')
  ctx.close([onp.asarray(got.positions['q']), onp.asarray(got.potential),
             onp.asarray(got.variance)], [want['q'], want['pot'], want['var']],
            f'{what}: position, potential, variance', rtol=1e-5, atol=1e-6)
  ctx.check(int(got.count) == want['count'], f'{what}: {got.count} updates '
            f'instead of {want["count"]}')
  ctx.check(int(got.model_state) == want['model'], f'{what}: model state')
  ctx.check(onp.asarray(got.key).tobytes() == want['key'], f'{what}: key')


def run_history(case, ctx):
  cfg = CONFIGS[case['cfg']]
  patch = Uniform()
  solve = make_solver(cfg['sa'], toy_integrator())
  step = jit_step(solve, patch)
  normal, hot = scheds(cfg['T'])
  sa = SA[cfg['sa']] or (lambda n: 1 / n)
  pairs = list(itertools.product(ENERGIES, VARIANCES))
  decide = Decision(ctx)
  sample = lambda i: {'id': jnp.array(i), 'q': jnp.array(float(i))}
  state = solve[0](sample(1), sample(2), ssq_init=jnp.array(cfg['ssq']),
                   key=random.PRNGKey(5), F=jnp.array(cfg['F']),
                   init_model_state=jnp.array(0))
  reps = [dict(ident=i + 1, q=i + 1.0, count=0, key=onp.asarray(
    state[i].key).tobytes(), model=0) for i in range(2)]
  beta = 1 / cfg['T'][0] - 1 / cfg['T'][1]

  def extend(state, reps, ssq, history):
    k = len(history)
    for sym in itertools.product([pairs[case['first']]] if k == 0 else pairs,
                                 VARIATES):
      (pot, var), u = sym
      seq = history + (sym,)
      ctx.history = seq
      what = f'{cfg} history {seq}'
      w = sa(k + 1)
      new_ssq = (1 - w) * ssq + w * var[0]
      log_s = beta * (pot[0] - pot[1] - beta * new_ssq / cfg['F'])
      if abs(log_s - math.log(u)) < 1e-3:
        ctx.note('undecidable')
        continue
      out = step(state, normal, hot, jnp.array(u), jnp.array(pot),
                 jnp.array(var))
      if patch.calls == 0:
        ctx.note('variates_not_scripted')
        return
      new = [toy_ref(reps[0], 0.1, cfg['T'][0], pot[0], var[0]),
             toy_ref(reps[1], HOT, cfg['T'][1], pot[1], var[1])]
      swapped = int(out[0].ident) != new[0]['ident']
      if swapped:
        new = new[::-1]
      observe_rep(ctx, out[0], new[0], f'{what}: cold replica')
      observe_rep(ctx, out[1], new[1], f'{what}: hot replica')
      ctx.close(onp.asarray(out[2]), new_ssq, f'{what}: variance estimate',
                rtol=1e-4, atol=1e-6)
      got = solve[2](out)
      ctx.check(int(got['id']) == new[0]['ident'] and
                abs(float(got['variables']['q']) - new[0]['q']) < 1e-4,
                f'{what}: sample is not taken from the cold replica')
      decide(swapped, math.log(u) < log_s, what)
      ctx.step()
      ctx.state(case['cfg'], seq)
      if len(seq) == case['length']:
        ctx.trace(seq)
      else:
        extend(out, new, new_ssq, seq)
  extend(state, reps, cfg['ssq'], ())


def run_long(case, ctx):
  """Many steps: the step size of the estimate decays as configured."""
  cfg = CONFIGS[case['cfg']]
  patch = Uniform()
  solve = make_solver(cfg['sa'], toy_integrator())
  step = jit_step(solve, patch)
  normal, hot = scheds(cfg['T'])
  sa = SA[cfg['sa']] or (lambda n: 1 / n)
  decide = Decision(ctx)
  sample = lambda i: {'id': jnp.array(i), 'q': jnp.array(float(i))}
  beta = 1 / cfg['T'][0] - 1 / cfg['T'][1]
  for a in range(1, 5):
    state = solve[0](sample(1), sample(2), ssq_init=jnp.array(cfg['ssq']),
                     key=random.PRNGKey(a), F=jnp.array(cfg['F']),
                     init_model_state=jnp.array(0))
    reps = [dict(ident=i + 1, q=i + 1.0, count=0, key=onp.asarray(
      state[i].key).tobytes(), model=0) for i in range(2)]
    ssq, history = cfg['ssq'], []
    for k in range(case['length']):
      pot = (0.75 * ((k * a) % 7), 0.5 * ((k + a) % 5))
      var = (0.25 * ((3 * k + a) % 8) + (k == 2 * a), 5.0 * (k % 3))
      w = sa(k + 1)
      ssq = (1 - w) * ssq + w * var[0]
      log_s = beta * (pot[0] - pot[1] - beta * ssq / cfg['F'])
      # a variate on either side of the threshold (if possible)
      u = min(max(math.exp(min(log_s, 0.0)) * (0.9, 1.1)[(k // 2 + a) % 2],
                  1e-6), 0.999)
      history.append((pot, var, u))
      ctx.history = history
      what = f'{cfg} long history {a}, step {k}'
      decidable = abs(log_s - math.log(u)) > 1e-3
      state = step(state, normal, hot, jnp.array(u), jnp.array(pot),
                   jnp.array(var))
      if patch.calls == 0:
        ctx.note('variates_not_scripted')
        return
      new = [toy_ref(reps[0], 0.1, cfg['T'][0], pot[0], var[0]),
             toy_ref(reps[1], HOT, cfg['T'][1], pot[1], var[1])]
      swapped = int(state[0].ident) != new[0]['ident']
      reps = new[::-1] if swapped else new
      observe_rep(ctx, state[0], reps[0], f'{what}: cold replica')
      observe_rep(ctx, state[1], reps[1], f'{what}: hot replica')
      ctx.close(onp.asarray(state[2]), ssq, f'{what}: variance estimate',
                rtol=1e-3, atol=1e-5)
      if decidable:
        decide(swapped, math.log(u) < log_s, what)
      ctx.step()
      ctx.state('long', case['cfg'], a, k)
    ctx.trace((case['cfg'], a))


def real_parts(kind='device', adapt=False):
  def log_lik(state, sample, obs):
    return -0.5 * jnp.sum((obs['y'] * 0.1 - sample['w']) ** 2), (
      0.5 * state + obs['x'].astype(FLOAT))

  def log_prior(sample):
    return -0.3 * jnp.sum(sample['w'] ** 2)
  cls = NumpyDataLoader if kind == 'numpy' else DeviceNumpyDataLoader
  rd = data.random_reference_data(cls(**make_dataset(7)),
                                  2 if kind == "numpy" else 1, 3)
  pot = potential.minibatch_potential(log_prior, log_lik, has_state=True)
  integ = integrator.langevin_diffusion(
    pot, rd, adaption.rms_prop() if adapt else None)
  return integ


def run_real(case, ctx):
  """Replicas advance exactly as separate chains between the exchanges."""
  integ = real_parts(adapt=case['adapt'])
  patch = Uniform()
  solve = solver.parallel_tempering(integ)
  step = jit_step(solve, patch)
  advance = jax.jit(integ[1])
  mk = lambda h, t: scheduler.schedule(
    step_size=jnp.array(h), temperature=jnp.array(t), burn_in=jnp.array(1.0),
    accept=jnp.array(True))
  decide = Decision(ctx)
  a, b = {'w': jnp.array([0.3, -0.2])}, {'w': jnp.array([0.6, 0.9])}
  for history in sequences((1e-30, 0.5, 0.9999999), case['length']):
    ctx.history = history
    state = solve[0](a, b, key=random.PRNGKey(9),
                     init_model_state=jnp.array(0.0))
    ssq = 0.0
    for k, u in enumerate(history):
      what = f'{case} variates {history} step {k}'
      normal = mk([0.02, 0.01][k % 2], [1.0, 0.7][k % 2])
      hot = mk(0.03, case['T'])
      cold2, hot2 = advance(state[0], normal), advance(state[1], hot)
      var = float(cold2.variance)
      ssq = (1 - 1 / (k + 1)) * ssq + var / (k + 1)
      beta = 1 / float(normal.temperature) - 1 / case['T']
      log_s = beta * (float(cold2.potential) - float(hot2.potential) -
                      beta * ssq)
      state = step(state, normal, hot, jnp.array(u), jnp.zeros(2), jnp.zeros(2))
      if patch.calls == 0:
        ctx.note('variates_not_scripted')
        return
      swapped = not onp.allclose(state[0].latent_variables['w'],
                                 cold2.latent_variables['w'], rtol=1e-5)
      want = (hot2, cold2) if swapped else (cold2, hot2)
      ctx.close(np_tree(tuple(state[:2])), np_tree(want), f'{what}: replicas',
                rtol=1e-4, atol=1e-5)
      ctx.close(onp.asarray(state[2]), ssq, f'{what}: variance estimate',
                rtol=1e-3, atol=1e-5)
      ctx.close(np_tree(solve[2](state)), np_tree(integ[2](want[0])),
                f'{what}: sample', rtol=1e-4, atol=1e-5)
      ctx.step()
      ctx.state(case['T'], history[:k + 1])
      if abs(log_s - math.log(u)) < 1e-3:
        ctx.note('undecidable')
        continue
      decide(swapped, math.log(u) < log_s, what)
    ctx.trace(history)


def run_keys(case, ctx):
  """Exchanges decided by the real uniform variates of all keys."""
  solve = make_solver('default', toy_integrator())
  normal, hot = scheds((1.0, 2.0))
  sample = lambda i: {'id': jnp.array(i), 'q': jnp.array(float(i))}
  n = case['keys']
  direction = set()
  for log_s in (-3.0, -1.0, -0.3, 0.0, 0.5):
    # variance 0: log_s = 0.5 * (pot_cold - pot_hot)
    def one(key):
      SCRIPT.update(pot=(2 * log_s + 1.0, 1.0), var=(0.0, 0.0))
      state = solve[0](sample(1), sample(2), key=key,
                       init_model_state=jnp.array(0))
      s1, _ = solve[1](state, normal, hot)
      s2, _ = solve[1](s1, normal, hot)
      # exchanged in first and in second step, key of the replicas
      return (s1[0].ident != state[0].ident, s2[0].ident != s1[0].ident,
              state[0].key, state[1].key)
    m1, m2, k1, k2 = map(onp.asarray, jax.jit(jax.vmap(one))(
      jax.vmap(random.PRNGKey)(jnp.arange(n))))
    a = min(1.0, math.exp(log_s))
    sigma = math.sqrt(max(a * (1 - a), 1e-12) / n)
    for name, m in (('first', m1), ('second', m2)):
      if abs(m.mean() - a) < 6 * sigma + 1e-6 and abs(a - 0.5) > 0.1:
        direction.add(False)
      elif abs(1 - m.mean() - a) < 6 * sigma + 1e-6:
        direction.add(True)
        ctx.fail(f'{m.mean()} instead of {a} of the {name} steps are exchanged',
                 key=KEY)
      else:
        ctx.fail(f'{m.mean()} instead of {a} of the {name} steps are exchanged')
    ctx.check(len(direction) == 1, f'{log_s}: only some decisions are inverted')
    if 0.04 < a < 0.96:
      corr = ((m1 - m1.mean()) * (m2 - m2.mean())).mean() / (a * (1 - a))
      ctx.check(abs(corr) < 6 / math.sqrt(n), f'decisions of subsequent steps '
                f'are correlated: {corr}')
    keys = onp.concatenate([k1, k2])
    ctx.check(len(onp.unique(keys, axis=0)) == 2 * n, 'replicas of the same or '
              'different chains use the same key')
    ctx.note('keys', n)
    ctx.trace(('log_s', log_s), steps=2 * n)


def run_driver(case, ctx):
  """Whole runs provide the samples of the cold replica only."""
  integ = toy_integrator()
  patch = Uniform()
  solve = make_solver('const', integ)
  n = case['iterations']
  sample = lambda i: {'id': jnp.array(i), 'q': jnp.array(float(i))}
  for u, pot in itertools.product((0.01, 0.7), ENERGIES):
    decide = Decision(ctx)
    sched = scheduler.init_scheduler(
      step_size=scheduler.specific_scheduler(
        lambda iterations, h=0.1: jnp.array(h),
        lambda state, iteration, **kw: state,
        lambda state, iteration, **kw: state), progress_bar=False)
    with patch:
      patch.value = jnp.array(u)
      SCRIPT.update(pot=pot, var=(0.5, 0.0))
      states = [solve[0](sample(i), sample(i + 1), key=random.PRNGKey(i),
                         init_model_state=jnp.array(0)) for i in (1, 5)]
      res = solver.mcmc(solve, sched)(
        *states, iterations=n, schedulers=[
          {'step_size': {'h': HOT}, 'temperature': {'tau': 3.0}}])
    if patch.calls == 0:
      ctx.note('variates_not_scripted')
      return
    ctx.check(len(res) == 2, f'{len(res)} results for two chains')
    for i, r in zip((1, 5), res):
      r = r['samples']
      reps = [dict(ident=i + j, q=float(i + j), count=0, key=b'', model=0)
              for j in range(2)]
      ssq, beta = 0.0, 1 - 1 / 3.0
      for k in range(n):
        reps = [toy_ref(reps[0], 0.1, 1.0, pot[0], 0.5),
                toy_ref(reps[1], HOT, 3.0, pot[1], 0.0)]
        ssq = 0.7 * ssq + 0.3 * 0.5
        log_s = beta * (pot[0] - pot[1] - beta * ssq)
        swapped = int(r['id'][k]) != reps[0]['ident']
        if swapped:
          reps = reps[::-1]
        what = f'iterations={n} u={u} potentials={pot} chain {i} sample {k}'
        ctx.close(onp.asarray(r['variables']['q'][k]), reps[0]['q'], what,
                  rtol=1e-4)
        ctx.check(int(r['id'][k]) == reps[0]['ident'] and
                  int(r['count'][k]) == k + 1, f'{what}: other replica')
        if abs(log_s - math.log(u)) > 1e-3:
          decide(swapped, math.log(u) < log_s, what)
        ctx.step()
      ctx.trace((n, u, pot, i))


def run_init(case, ctx):
  """Initial replicas, forwarded arguments, distinct keys."""
  seen = []
  solve = make_solver('default', toy_integrator(seen))
  sample = lambda i: {'id': jnp.array(i), 'q': jnp.array(float(i))}
  for k, extra, ssq, F in itertools.product(range(6), (0.0, 3.0), (0.0, 2.0),
                                            (1.0, 5.0)):
    del seen[:]
    state = solve[0](sample(3), sample(8), ssq_init=jnp.array(ssq),
                     key=random.PRNGKey(k), F=jnp.array(F), extra=extra,
                     init_model_state=jnp.array(4))
    what = f'key {k} extra {extra}'
    ctx.check(len(seen) == 2 and seen[0] != seen[1], f'{what}: replicas are '
              f'initialized with the same key')
    for rep, i in zip(state[:2], (3, 8)):
      ctx.check(int(rep.ident) == i and float(rep.positions['q']) == i + extra
                and int(rep.model_state) == 4, f'{what}: initial replica {i}')
    got = solve[2](state)
    ctx.check(int(got['id']) == 3, f'{what}: sample of the tempered chain')
    ctx.step()
    ctx.trace((k, extra, ssq, F))
  # chains initialized without further arguments: replicas differ
  integ = real_parts('numpy')
  solve = solver.parallel_tempering(integ)
  a = {'w': jnp.array([0.3, -0.2])}
  for k in range(4):
    state = solve[0](a, a, key=random.PRNGKey(k),
                     init_model_state=jnp.array(0.0))
    normal, hot = scheds((1.0, 1.5))
    out, _ = solve[1](state, normal, normal)
    ctx.check(not onp.allclose(out[0].latent_variables['w'],
                               out[1].latent_variables['w']),
              f'key {k}: replicas started at the same sample stay identical')
    ctx.trace(k)
