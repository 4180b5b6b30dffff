"""C26: All execution strategies compute the same chains."""
from mc.lib import *
from mc.checks.c25 import BASE, STEP, Components, Program

PROPERTY = 'C26'
ENV = {'XLA_FLAGS': '--xla_force_host_platform_device_count=4 '
                    '--xla_backend_optimization_level=0'}
INFO = {
  'rule': ('for every solver, loader and configuration the chains are computed '
           'by all strategies (map, vmap, pmap, a Python loop over the compiled '
           'and the plain update function) from the same initial states and '
           'compared sample by sample; all numbers of chains, all orders of the '
           'chains'),
  'bounds': {'quick': '<=3 chains, 6 iterations, single changes of the '
                      'configuration; 3 steps of the plain update '
                      '(6 of the MH solvers)',
             'thorough': '<=4 chains, 12 iterations, pairs of changes'},
  'assumptions': ['vmap of host callbacks is not supported by the installed JAX',
                  'compiled programs agree up to rounding']}

SOLVERS = ('sgld', 'rms', 'obabo', 'sghmc', 'fisher', 'amagold', 'sggmc',
           'mass', 'tempering')
CHANGES = [{}, dict(burn_in=2, thin=2), dict(saving='memory'), dict(state=True),
           dict(schedule='other'), dict(temperature=0.5), dict(tree=1),
           dict(batch=3), dict(steps=3)]


def cases(tier):
  quick = tier == 'quick'
  changes = list(CHANGES)
  if not quick:
    changes += [dict(a, **b) for a, b in itertools.combinations(CHANGES[1:], 2)]
  out = []
  for s, name in enumerate(SOLVERS):
    for c, change in enumerate(changes):
      for l, loader in enumerate(('device', 'host')):
        if quick and (c + s + l) % 3 == 2:
          continue
        change = dict(change)
        if 'schedule' in change:
          change['schedule'] = ('adaptive' if name in STEP
                                else 'const')
        if 'steps' in change and name in ('sgld', 'rms', 'tempering'):
          continue
        out.append(dict(mode='strategies', solver=name, loader=loader,
                        change=change, chains=(3, 2)[c % 2] if quick else 4 - c % 3,
                        iterations=6 if quick else 12))
  return out


def execute(case, p, order=None):
  """Runs all chains from fresh components."""
  program = Program(Components(), case['solver'], case['loader'], p)
  program.init()
  if order is not None:
    program.states = [program.states[k] for k in order]
  return program.run()


def loop(case, p, chain, iterations, update_of):
  """The chain as a loop over the update function of the solver."""
  comp = Components()
  program = Program(comp, case['solver'], case['loader'], p)
  program.init()
  _, update, get = comp.get('solver', *program.solver)
  init, following, read = comp.get('scheduler', *program.schedule)
  update, following, read = map(update_of, (update, following, read))
  states = [init(p['iterations'])[0]]
  if case['solver'] == 'tempering':
    states.append(init(p['iterations'], enabled=False,
                       temperature={'tau': 20.0})[0])
  state, out = program.states[chain], []
  for _ in range(iterations):
    schedules = [read(s) for s in states]
    state, stats = update(state, *schedules)
    if bool(schedules[0].burn_in) and bool(schedules[0].accept):
      out.append(np_tree(get(state)))
    states = [following(s, **(stats or {})) for s in states]
  return out


def run(case, ctx):
  p = dict(BASE, **case['change'])
  p['step'] = STEP.get(case['solver'], p['step'])
  p.update(chains=case['chains'], iterations=case['iterations'])
  n = case['chains']
  what = f"{case['solver']} {case['loader']} {case['change']}"
  want = execute(case, dict(p, strategy='map'))
  want = [(count, np_tree(samples)) for count, samples in want]

  def compare(got, ref, text):
    ctx.check(len(got) == len(ref), f'{what}: {text}: {len(got)} results')
    for c, (g, w) in enumerate(zip(got, ref)):
      samples = np_tree(g[1])
      ctx.check(g[0] == w[0] == len(samples['variables']['b']),
                f'{what}: {text}: chain {c} returns {g[0]} samples instead of '
                f'{w[0]}')
      ctx.close(samples, w[1], f'{what}: {text}: chain {c}', rtol=2e-4,
                atol=1e-5)
    ctx.step(len(got) * case['iterations'])
    ctx.state(what, text)
    ctx.trace((what, text))

  bs = [w[1]['variables']['b'].tobytes() for w in want]
  if any(onp.isnan(w[1]['variables']['b']).any() for w in want):
    ctx.note(f'diverged {what}')
  ctx.check(len(set(bs)) == n, f'{what}: chains are equal')
  ctx.history = 'pmap'
  compare(execute(case, dict(p, strategy='pmap')), want, f'pmap of {n}')
  if case['loader'] == 'device' and case['solver'] != 'tempering':
    ctx.history = 'vmap'
    compare(execute(case, dict(p, strategy='vmap')), want, f'vmap of {n}')
    order = list(range(n))[::-1]
    compare(execute(case, dict(p, strategy='vmap'), order),
            [want[k] for k in order], f'vmap in order {order}')
    compare(execute(case, dict(p, strategy='vmap', chains=1)), want[:1],
            'vmap of 1')
  # the driver is a loop over the update function
  for chain in range(n) if n < 3 else (n - 1,):
    ctx.history = ('loop', chain)
    got = loop(case, p, chain, p['iterations'], jax.jit)
    ctx.check(len(got) == want[chain][0], f'{what}: loop keeps {len(got)} samples')
    for k, g in enumerate(got):
      ctx.close(g, tree_util.tree_map(lambda x: x[k], want[chain][1]),
                f'{what}: sample {k} of a loop over chain {chain}', rtol=2e-4,
                atol=1e-5)
    ctx.step(p['iterations'])
    ctx.trace((what, 'loop', chain))
  ctx.history = 'plain'
  plain = p['iterations'] if case['solver'] in STEP else 3
  got = loop(case, p, 0, plain, lambda fn: fn)
  for k, g in enumerate(got):
    ctx.close(g, tree_util.tree_map(lambda x: x[k], want[0][1]),
              f'{what}: sample {k} of the plain update', rtol=2e-4, atol=1e-5)
  ctx.step(plain)
  ctx.trace((what, 'plain'))
