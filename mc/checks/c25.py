"""C25: Programs which share components do not influence each other."""
import base64
import json
import pickle
import subprocess
import sys

from mc.lib import *

PROPERTY = 'C25'
# the compilation of the programs dominates
ENV = {'XLA_FLAGS': '--xla_backend_optimization_level=0 '
                    '--xla_force_host_platform_device_count=2'}
INFO = {
  'rule': ('two MCMC programs which differ in one aspect (or in none) and share '
           'every component which does not depend on it execute all '
           'interleavings of their operations (initialize a state, run it, run '
           'it again); every result is compared with the one of the same program '
           'alone in a fresh process'),
  'bounds': {'quick': 'init and run of two programs (6 interleavings), 18 aspects, '
                      '9 solvers, two loaders: every aspect with two solvers',
             'thorough': 'additionally a repeated run of both initial states (20 '
                         'interleavings), all aspects with all solvers'},
  'assumptions': ['the random numbers of a host data loader depend on the number '
                  'of chains registered before (documented default seeds); the '
                  'reference registers the same number of chains',
                  'operations are executed one after another (concurrent '
                  'mappings: C05)']}

BASE = dict(key=0, start=0, tree=0, iterations=6, burn_in=1, thin=None, step=0.02,
            temperature=1.0, batch=2, cache=2, data=0, model=0, state=False,
            steps=2, friction=0.3, strategy='map', saving=None, chains=1, schedule='poly')
# proposals are accepted and rejected
STEP = dict(amagold=0.15, sggmc=0.3, mass=0.1)
ASPECTS = [{}, dict(key=1), dict(start=1), dict(tree=1), dict(iterations=9),
           dict(burn_in=3), dict(thin=3), dict(step=0.05),
           dict(temperature=0.5), dict(batch=3), dict(cache=4), dict(data=1),
           dict(model=1), dict(state=True), dict(steps=3), dict(friction=0.8),
           dict(strategy='vmap'), dict(saving='memory'), dict(chains=2)]
SOLVERS = ('sgld', 'rms', 'obabo', 'sghmc', 'fisher', 'amagold', 'sggmc', 'mass', 'tempering')


def valid(solver_name, loader, aspect):
  if loader == 'device' and 'cache' in aspect:
    return False
  if solver_name in ('sgld', 'rms', 'tempering') and (
      'steps' in aspect or 'friction' in aspect):
    return False
  if aspect.get('strategy') == 'vmap' and (
      solver_name == 'tempering' or loader == 'host'):
    # no vectorized callbacks
    return False
  return True


def cases(tier):
  quick = tier == 'quick'
  out = []
  combos = list(itertools.product(SOLVERS, ('device', 'host')))
  for i, aspect in enumerate(ASPECTS):
    usable = [c for c in combos if valid(*c, aspect)]
    if quick:
      k = len(usable)
      some = [usable[(5 * i) % k], usable[(5 * i + k // 2 + 1) % k]]
      if 'tree' in aspect:
        some += [(s, 'device') for s in SOLVERS if s not in dict(some)]
      if 'iterations' in aspect or not aspect:
        some += [('sggmc', 'device')]
      usable = some
    for solver_name, loader in usable:
      # a state may be used again if the data is selected on the device
      repeat = loader == 'device' and (not quick or not aspect)
      ops = [0, 1] * (3 if repeat else 2)
      orders = sorted(set(itertools.permutations(ops)))
      if quick and ((solver_name, loader) in usable[2:] or repeat):
        orders = [o for o in orders if o[0] == 0]
      # thinning and a shared collector
      base = dict(thin=(None, 2)[len(out) % 2 or 'iterations' in aspect],
                  saving=(None, 'memory')[len(out) % 3 == 1],
                  schedule=('poly', 'const')[
                    len(out) // 2 % 2 or 'iterations' in aspect])
      if solver_name in STEP:
        base['step'] = STEP[solver_name]
      if solver_name in STEP and base['schedule'] == 'const':
        base['schedule'] = 'adaptive'
      out.append(dict(mode='pair', solver=solver_name, loader=loader, base=base,
                      aspect=aspect, repeat=repeat, orders=orders))
  # the parallel strategies compile their own programs
  for solver_name, strategy in (('rms', 'vmap'), ('obabo', 'pmap')):
    for aspect in (dict(iterations=9), dict(burn_in=3), dict(chains=1),
                   dict(schedule='poly'))[:None if not quick else 2]:
      out.append(dict(mode='parallel', solver=solver_name, loader='device',
                      base=dict(thin=2, schedule='const', strategy=strategy,
                                chains=2),
                      aspect=aspect, repeat=False,
                      orders=[(0, 0, 1, 1), (0, 1, 1, 0), (1, 0, 0, 1)]))
  return out


class Components:
  """Creates every component once for all programs which need the same."""

  def __init__(self):
    self.memo = {}

  def get(self, name, *key):
    if (name, key) not in self.memo:
      self.memo[name, key] = getattr(self, 'make_' + name)(*key)
    return self.memo[name, key]

  def make_loader(self, kind, which):
    x = onp.array([[1.0, 0.5], [-0.5, 1.5], [2.0, -1.0], [0.3, 0.2],
                   [-1.0, -0.7]], FLOAT)
    if which == 1:
      # same shape, other values
      x = 1.5 * x[::-1] + 0.1
    y = (x @ onp.array([0.8, -0.5]) + 0.1 * onp.arange(5)).astype(FLOAT)
    cls = NumpyDataLoader if kind == 'host' else DeviceNumpyDataLoader
    return cls(x=x, y=y)

  def make_random(self, loader, cache, batch):
    return data.random_reference_data(self.get('loader', *loader), cache, batch)

  def make_full_data(self, loader, cache, batch):
    return data.full_reference_data(self.get('loader', *loader), cache, batch)

  def functions(self, model, has_state):
    scale = (1.0, 0.4)[model]

    def lik(*args):
      sample, obs = args[-2:]
      r = obs['y'] - jnp.dot(obs['x'], sample['w']) - jnp.sum(sample['b'])
      out = -0.5 * scale * r ** 2
      if has_state:
        return out * (1 + 0.05 * jnp.sin(args[0])), args[0] + 1
      return out
    prior = lambda s: -0.5 * (jnp.sum(s['w'] ** 2) + jnp.sum(s['b'] ** 2))
    return prior, lik

  def make_potential(self, model, has_state):
    return potential.minibatch_potential(
      *self.functions(model, has_state), strategy='vmap', has_state=has_state)

  def make_full_potential(self, model, has_state):
    return potential.full_potential(
      *self.functions(model, has_state), strategy='vmap', has_state=has_state)

  def make_solver(self, name, loader, cache, batch, model, has_state, steps,
                  friction):
    pot = self.get('potential', model, has_state)
    rd = self.get('random', loader, cache, batch)
    if name in ('sgld', 'rms', 'tempering'):
      langevin = integrator.langevin_diffusion(
        pot, rd, adaption=adaption.rms_prop() if name == 'rms' else None)
      if name == 'tempering':
        return solver.parallel_tempering(langevin)
      return solver.sgmc(langevin)
    if name in ('sghmc', 'fisher'):
      noise = None
      if name == 'fisher':
        noise = adaption.fisher_information(minibatch_potential=pot,
                                            diagonal=True)
        friction = 200 * friction
      return solver.sgmc(integrator.friction_leapfrog(
        pot, rd, steps=steps, friction=friction, noise_model=noise))
    if name == 'amagold':
      return solver.amagold(
        integrator.reversible_leapfrog(pot, rd, steps=steps, friction=friction),
        self.get('full_potential', model, has_state),
        self.get('full_data', loader, cache, batch))
    obabo = integrator.obabo(pot, rd, steps=steps, friction=friction)
    if name == 'obabo':
      return solver.sgmc(obabo)
    return solver.sggmc(obabo, self.get('full_potential', model, has_state),
                        self.get('full_data', loader, cache, batch),
                        mass_adaption=None if name == 'sggmc' else (
                          adaption.mass_matrix(diagonal=True, burn_in=4)))

  def make_scheduler(self, step, burn_in, thin, temperature, kind):
    step_size = scheduler.polynomial_step_size_first_last(
      first=step, last=step / 2)
    burn = scheduler.initial_burn_in(burn_in)
    thinning = None
    if thin is not None:
      thinning = scheduler.random_thinning(step_size, burn, selections=thin)
    if kind == 'const':
      # the state has the same shape for all numbers of iterations
      step_size = scheduler.specific_scheduler(
        lambda iterations: jnp.array(step), lambda state, *a, **kw: state,
        lambda state, *a, **kw: state)
    elif kind == 'adaptive':
      step_size = scheduler.adaptive_step_size(
        burn_in=burn_in + 1, initial_step_size=step, speed_constant=0.5)
    return scheduler.init_scheduler(
      step_size=step_size, burn_in=burn, thinning=thinning,
      temperature=scheduler.constant_temperature(temperature),
      progress_bar=False)

  def make_saving(self, kind):
    return None if kind is None else io.save(io.MemoryCollector())

  def make_mcmc(self, solver_key, scheduler_key, strategy, saving):
    return solver.mcmc(self.get('solver', *solver_key),
                       self.get('scheduler', *scheduler_key), strategy=strategy,
                       saving=self.get('saving', saving))


class Program:

  def __init__(self, comp, solver_name, loader, p):
    self.comp, self.name, self.p = comp, solver_name, p
    self.loader = (loader, p['data'])
    self.solver = (solver_name, self.loader,
                   p['cache'] if loader == 'host' else 1, p['batch'], p['model'],
                   p['state'], p['steps'], p['friction'])
    self.schedule = (p['step'], p['burn_in'], p['thin'], p['temperature'],
                     p['schedule'])

  def init(self):
    p, states = self.p, []
    for c in range(p['chains']):
      k = p['start'] + 2 * c
      b = (jnp.array(0.1 - 0.3 * k), jnp.array([0.1, -0.2 * k]))[p['tree']]
      start = ({'w': jnp.array([0.3, -0.2]) * (k + 1), 'b': b},)
      if self.name == 'tempering':
        start += ({'w': start[0]['w'] + 0.5, 'b': 2 * b},)
      kwargs = dict(key=random.PRNGKey(p['key'] + 10 * c))
      if p['state']:
        kwargs['init_model_state'] = jnp.array(0.5)
      states.append(self.comp.get('solver', *self.solver)[0](*start, **kwargs))
    self.states = states

  def run(self):
    p = self.p
    run = self.comp.get('mcmc', self.solver, self.schedule, p['strategy'],
                        p['saving'])
    more = {}
    if self.name == 'tempering':
      more['schedulers'] = [{'temperature': {'tau': 20.0}}]
    out = run(*self.states, iterations=p['iterations'], **more)
    return [(int(r['sample_count']), r['samples']) for r in out]


def isolated(spec):
  """Results of a single program; executed in a fresh process."""
  out = []
  for before in spec['before']:
    program = Program(Components(), spec['solver'], spec['loader'], spec['p'])
    # the default seeds depend on the number of registered chains
    for _ in range(before):
      other = Program(program.comp, spec['solver'], spec['loader'],
                      dict(spec['p'], chains=1))
      other.init()
    program.init()
    out.append([(n, np_tree(samples)) for n, samples in program.run()])
  return out


def reference(ctx, solver_name, loader, p, before):
  spec = json.dumps(dict(solver=solver_name, loader=loader, p=p, before=before))
  res = subprocess.run([sys.executable, '-m', 'mc.checks.c25', spec],
                       capture_output=True, text=True)
  lines = [l for l in res.stdout.splitlines() if l.startswith('RESULT ')]
  if not lines:
    raise RuntimeError(f'reference failed: {res.stderr[-1500:]}')
  return dict(zip(before, pickle.loads(base64.b64decode(lines[0][7:]))))


def run(case, ctx):
  name, loader, aspect = case['solver'], case['loader'], case['aspect']
  params = [dict(BASE, **case['base']), dict(BASE, **case['base'])]
  params[1].update(aspect)
  ops = [('init', 'run', 'run') if case['repeat'] else ('init', 'run')] * 2
  shared = loader == 'host' and 'data' not in aspect
  # number of chains registered before the ones of the program
  before = [[0, params[1 - k]['chains']] if shared else [0] for k in range(2)]
  want = [reference(ctx, name, loader, params[k], before[k]) for k in range(2)]
  for order in case['orders']:
    comp = Components()
    programs = [Program(comp, name, loader, p) for p in params]
    pos, registered, used, results = [0, 0], 0, [0, 0], []
    what = f'{name} {loader} {aspect or "identical"} order {tuple(order)}'
    for k in order:
      op = ops[k][pos[k]]
      pos[k] += 1
      if op == 'init':
        used[k] = registered if shared else 0
        programs[k].init()
        registered += params[k]['chains']
        continue
      ctx.history = order[:pos[0] + pos[1]]
      got = programs[k].run()
      ref = want[k][used[k]]
      results.append((k, got, ref))
      ctx.check(len(got) == len(ref), f'{what}: {len(got)} results')
      for c, (g, w) in enumerate(zip(got, ref)):
        ctx.check(g[0] == w[0] == len(g[1]['variables']['b']),
                  f'{what}: program {k} chain {c} returns {g[0]} samples instead '
                  f'of {w[0]}')
        ctx.close(np_tree(g[1]), w[1], f'{what}: program {k} chain {c} ({params[k]})',
                  rtol=1e-5, atol=1e-6)
      ctx.step(params[k]['iterations'])
      if any(onp.isnan(x).any() for g in got for x in tree_util.tree_leaves(
          np_tree(g[1]['variables']))):
        ctx.note(f'diverged {name} {aspect}')
    # later operations do not change the results
    for k, got, ref in results:
      for g, w in zip(got, ref):
        ctx.close(np_tree(g[1]), w[1], f'{what}: result of program {k} after the '
                                       f'last operation', rtol=1e-5, atol=1e-6)
    ctx.state(name, loader, str(aspect), str(order))
    ctx.trace((name, loader, str(aspect), str(order)))


if __name__ == '__main__':
  result = isolated(json.loads(sys.argv[1]))
  print('RESULT ' + base64.b64encode(pickle.dumps(result)).decode())
