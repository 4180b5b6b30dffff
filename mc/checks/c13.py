"""C13: the MCMC driver executes and records the chain exactly as specified."""
import contextlib
import io as std_io

from mc.lib import *

PROPERTY = 'C13'
ENV = {'XLA_FLAGS': '--xla_force_host_platform_device_count=3'}
INFO = {
  'rule': ('a solver whose state is a hash of its complete history (initial '
           'state, schedules of all schedulers, order of the updates) is run '
           'through mcmc for all patterns of burn-in and thinning, numbers of '
           'chains, helper schedulers, saving and parallelization strategies; '
           'all returned samples are compared with a reference in plain '
           'Python'),
  'bounds': {'quick': 'map: up to 5 iterations, all 4^n patterns of burn-in and '
                      'thinning up to n=3, 2^n for n=4, 5; up to 3 chains, up '
                      'to 2 helper schedulers; pmap and vmap: up to 3 '
                      'iterations', 'thorough': 'one more iteration'},
  'assumptions': ['vmap of a HostDataLoader is not supported by the installed '
                  'JAX version and raises NotImplementedError; the check '
                  'requires that it raises or returns the right samples']}

HOLD = {}  # tables used by the next initialization of the scheduler
P = 32749


def tables():
  """Specific schedulers which count their updates and read their tables."""
  def step_init(iterations, scale=0):
    return (jnp.array(0), jnp.array(7), jnp.array(scale))

  def step_update(state, iteration, ratio=3, **kw):
    count, acc, scale = state
    return count + 1, (acc * 3 + ratio + iteration) % 1009, scale

  def step_get(state, iteration, **kw):
    count, acc, scale = state
    return (acc + 1024 * (count % 16) + 16384 * (iteration % 16) +
            262144 * scale).astype(FLOAT)

  def burn_init(iterations, table=None):
    table = HOLD['burn'] if table is None else table
    return jnp.array(table, FLOAT), HOLD['kept']

  def thin_init(iterations, table=None):
    table = HOLD['thin'] if table is None else table
    return jnp.array(table, bool), HOLD['kept']
  ident = lambda state, iteration, **kw: state
  look = lambda state, iteration, **kw: state[iteration]
  make = scheduler.specific_scheduler
  return (make(step_init, step_update, step_get),
          make(lambda iterations, tau=2: jnp.array(tau, FLOAT), ident,
               ident),
          make(burn_init, ident, look), make(thin_init, ident, look))


def toy_solver(stats, variant=0):
  def update(state, *schedules):
    h = state['h'] * 31 + state['c'] * 3
    for k, s in enumerate(schedules):
      h = h + (s.step_size.astype(jnp.int32) % P) * (7 + 2 * k)
      h = h + s.temperature.astype(jnp.int32) * (5 + 11 * k)
      h = h + (s.burn_in != 0) * (13 + 6 * k) + s.accept * (29 + 8 * k)
    h = h % P
    new = {'h': h, 'c': state['c'], 'n': state['n'] + 1}
    return new, ({'ratio': h % 5} if stats else None)

  def get(state):
    return {'h': state['h'], 'v': jnp.stack([state['n'], state['c']]) * 0.5,
            'const': jnp.array([1, 2], jnp.int32)}
  return None, update, get


def initial(chain):
  return {'h': jnp.array(100 + 17 * chain), 'c': jnp.array(chain + 1),
          'n': jnp.array(10 * chain)}


def reference(n, chain, burn, thin, helpers, stats):
  """List of kept samples."""
  h, c, count = 100 + 17 * chain, chain + 1, 10 * chain
  scheds = [dict(count=0, acc=7, scale=0, tau=2, burn=burn, thin=thin)]
  for kw in helpers or ():
    scheds.append(dict(count=0, acc=7, tau=kw.get('temperature', {}).get(
      'tau', 2), scale=kw.get('step_size', {}).get('scale', 0),
      burn=kw.get('burn_in', {}).get('table', burn),
      thin=kw.get('thinning', {}).get('table', thin)))
  out = []
  for it in range(n):
    h = h * 31 + c * 3
    for k, s in enumerate(scheds):
      step = (s['acc'] + 1024 * (s['count'] % 16) + 16384 * (it % 16) +
              262144 * s['scale'])
      h = h + step % P * (7 + 2 * k) + s['tau'] * (5 + 11 * k)
      h = h + bool(s['burn'][it]) * (13 + 6 * k)
      h = h + bool(s['thin'][it]) * (29 + 8 * k)
    h = h % P
    count += 1
    if burn[it] and thin[it]:
      out.append((h, count, c))
    for s in scheds:
      s['count'] += 1
      s['acc'] = (s['acc'] * 3 + (h % 5 if stats else 3) + it) % 1009
  return out


def stack(samples):
  n = len(samples)
  return {'h': onp.array([s[0] for s in samples], onp.int32),
          'v': onp.array([[s[1], s[2]] for s in samples],
                         FLOAT).reshape(n, 2) * FLOAT(0.5),
          'const': onp.array([[1, 2]] * n, onp.int32).reshape(n, 2)}


HELPERS = {0: None, 1: [{'temperature': {'tau': 9}}],
           2: [{'step_size': {'scale': 3}},
               {'temperature': {'tau': 4}, 'step_size': {'scale': 1}}]}


def helper_args(number, burn, thin):
  """Helper schedulers, the last of which has own burn-in and thinning."""
  if not HELPERS[number]:
    return HELPERS[number]
  out = [dict(kw) for kw in HELPERS[number]]
  # Only the main scheduler decides which samples are kept
  out[-1]['burn_in'] = {'table': [int(not b) for b in burn]}
  out[(number + 1) % len(out)]['thinning'] = {
    'table': [bool(t) != bool(i % 2) for i, t in enumerate(thin)]}
  return out


class Saving:
  def __init__(self, kind):
    self.kind, self.file, self.chains = kind, None, 0
    if kind == 'none':
      self.saving = None
    elif kind == 'no_save':
      self.saving = io.no_save()
    elif kind == 'memory':
      self.saving = io.save(io.MemoryCollector())
    elif kind == 'hdf5':
      self.file = h5_mem()
      self.saving = io.save(io.HDF5Collector(self.file))

  def verify(self, ctx, results, wanted, what):
    ctx.check(len(results) == len(wanted), f'{what}: {len(results)} results for '
                                           f'{len(wanted)} chains')
    for i, (res, samples) in enumerate(zip(results, wanted)):
      want = stack(samples)
      ctx.check(int(res['sample_count']) == len(samples),
                f'{what}: chain {i} counts {res["sample_count"]} instead of '
                f'{len(samples)} samples')
      if self.kind == 'hdf5':
        got = {k: onp.array(self.file[f'/chain~{self.chains}/{k}'])
               for k in want}
      else:
        got = np_tree(res['samples'])
      why = tree_diff(got, want, dtype=True)
      ctx.check(why is None, f'{what}: chain {i}: {why}', got=short(got),
                want=short(want))
      self.chains += 1


def cases(tier):
  quick = tier == 'quick'
  out = []
  for saving in ('none', 'no_save', 'memory', 'hdf5'):
    for helpers in (0, 1, 2):
      for stats in (False, True):
        for n in (1, 2, 3, 4, 5) if quick else (1, 2, 3, 4, 5, 6):
          if quick and (n > 3 and (helpers == 1 or saving == 'no_save')):
            continue
          out.append(dict(mode='map', saving=saving, helpers=helpers,
                          stats=stats, n=n))
  for strategy in ('pmap', 'vmap'):
    for saving in ('none', 'memory', 'hdf5'):
      for n in ((1, 2, 3) if saving != 'hdf5' else (2,)) if quick else (
          1, 2, 3, 4):
        for chains in (1, 2, 3):
          out.append(dict(mode='parallel', strategy=strategy, saving=saving,
                          n=n, chains=chains))
  for strategy in ('map', 'pmap', 'vmap'):
    out.append(dict(mode='bar', strategy=strategy))
    for loader in ('host', 'device'):
      out.append(dict(mode='data', strategy=strategy, loader=loader))
    out.append(dict(mode='real', strategy=strategy))
  out.append(dict(mode='default'))
  out.append(dict(mode='isolated'))
  for strategy in ('map', 'pmap', 'vmap'):
    out.append(dict(mode='scalars', strategy=strategy))
    out.append(dict(mode='many', strategy=strategy))
  return out


def make_run(saving, stats, strategy, bar=False):
  step, temp, burn, thin = tables()
  sched = scheduler.init_scheduler(step_size=step, temperature=temp,
                                   burn_in=burn, thinning=thin,
                                   progress_bar=bar)
  return solver.mcmc(toy_solver(stats), sched, strategy=strategy,
                     saving=saving.saving)


def set_tables(burn, thin):
  HOLD.update(burn=burn, thin=thin,
              kept=sum(bool(b and t) for b, t in zip(burn, thin)))


def patterns(n):
  if n <= 3:
    for p in sequences(range(4), n):
      yield [int(x & 1) for x in p], [bool(x & 2) for x in p]
  else:
    for p in sequences((False, True), n):
      first = n // 2
      yield [int(i >= first - sum(p) % 2) for i in range(n)], list(p)


def run(case, ctx):
  globals()['run_' + case['mode']](case, ctx)


def run_map(case, ctx):
  n, stats = case['n'], case['stats']
  saving = Saving(case['saving'])
  program = make_run(saving, stats, 'map')
  for count, (burn, thin) in enumerate(patterns(n)):
    chains = [0, 1, 2][:1 + count % 3]
    if count % 2:
      chains = chains[::-1]
    set_tables(burn, thin)
    helpers = helper_args(case['helpers'], burn, thin)
    ctx.history = (burn, thin, chains)
    what = f'{case} burn_in={burn} accept={thin} chains={chains}'
    if helpers is None:
      res = program(*[initial(c) for c in chains], iterations=n)
    else:
      res = program(*[initial(c) for c in chains], iterations=n,
                    schedulers=helpers)
    saving.verify(ctx, res, [reference(n, c, burn, thin, helpers, stats)
                             for c in chains], what)
    ctx.state(case['helpers'], stats, burn, thin, tuple(chains))
    ctx.trace((burn, thin, chains), steps=n * len(chains))
  if saving.file:
    saving.file.close()


def run_parallel(case, ctx):
  n, k = case['n'], case['chains']
  saving = Saving(case['saving'])
  configs = [(True, 0), (False, 2)] if k == 2 else [(True, 1)]
  for stats, n_helpers in configs:
    program = make_run(saving, stats, case['strategy'])
    pats = list(sequences((False, True), n))
    for i, thin in enumerate(pats):
      burn = [1] * n if i % 2 else [0] + [1] * (n - 1)
      chains = ([0, 1, 2] if i % 3 else [2, 0, 1])[:k]
      set_tables(burn, thin)
      helpers = helper_args(n_helpers, burn, thin)
      ctx.history = (burn, thin, chains)
      what = f'{case} burn_in={burn} accept={thin} chains={chains}'
      res = program(*[initial(c) for c in chains], iterations=n,
                    schedulers=helpers)
      saving.verify(ctx, res, [reference(n, c, burn, thin, helpers, stats)
                               for c in chains], what)
      ctx.state(case['strategy'], stats, n_helpers, thin, tuple(chains))
      ctx.trace((burn, thin, chains), steps=n * k)
  if saving.file:
    saving.file.close()


def run_bar(case, ctx):
  """The progress bar does not influence the chains."""
  for kind in ('none', 'memory'):
    saving = Saving(kind)
    program = make_run(saving, True, case['strategy'], bar=True)
    for n_helpers in (0, 1):
      for n, k in ((3, 2), (4, 1)):
        burn, thin = [0] + [1] * (n - 1), [True] * (n - 1) + [n == 3]
        set_tables(burn, thin)
        helpers = helper_args(n_helpers, burn, thin)
        with contextlib.redirect_stdout(std_io.StringIO()):
          res = program(*[initial(c) for c in range(k)], iterations=n,
                        schedulers=helpers)
          saving.verify(ctx, res, [reference(n, c, burn, thin, helpers, True)
                                   for c in range(k)],
                        f'{case} {kind} progress bar, {n_helpers} helpers')
          jax.effects_barrier()
        ctx.trace((kind, n_helpers, n, k), steps=n * k)


def run_default(case, ctx):
  """Default number of iterations; iterations of other types; long runs."""
  n = 100000
  saving = Saving('memory')
  program = make_run(saving, True, 'map')
  burn, thin = onp.ones(n), onp.zeros(n, bool)
  thin[[0, 17, 4096, 65536, n - 1]] = True
  set_tables(list(burn), list(thin))
  res = program(initial(0), initial(2))
  saving.verify(ctx, res, [reference(n, c, burn, thin, None, True)
                           for c in (0, 2)], 'default number of iterations')
  ctx.trace('default', steps=2 * n)
  for it in (3, onp.int64(3), 3.0):
    for kind in ('none', 'memory'):
      saving = Saving(kind)
      set_tables([0, 1, 1], [True] * 3)
      res = make_run(saving, False, 'map')(initial(1), iterations=it)
      saving.verify(ctx, res, [reference(3, 1, [0, 1, 1], [True] * 3, None,
                                         False)], f'iterations={it!r}')
      ctx.trace(repr(it), steps=3)
  # one thousand chains' worth of samples are never truncated
  n = 1537
  for kind in ('none', 'memory'):
    saving = Saving(kind)
    set_tables([1] * n, [True] * n)
    res = make_run(saving, True, 'map')(initial(1), iterations=n)
    saving.verify(ctx, res, [reference(n, 1, [1] * n, [1] * n, None, True)],
                  f'{n} iterations')
    ctx.trace(n, steps=n)


def run_many(case, ctx):
  """Long runs and many chains."""
  strategy = case['strategy']
  for n, chains in ((1037, 2), (3, 12 if strategy != 'pmap' else 3)):
    for kind in ('none', 'memory') if strategy != 'pmap' or n < 99 else (
        'none',):
      saving = Saving(kind)
      thin = [(3 * i) % 7 < 4 for i in range(n)]
      burn = [0] + [1] * (n - 1)
      set_tables(burn, thin)
      helpers = helper_args(1, burn, thin)
      ids = [(5 * c + 2) % 13 for c in range(chains)]
      res = make_run(saving, True, strategy)(
        *[initial(c) for c in ids], iterations=n, schedulers=helpers)
      saving.verify(ctx, res, [reference(n, c, burn, thin, helpers, True)
                               for c in ids], f'{case} {kind} {n} iterations')
      ctx.trace((kind, n, chains), steps=n * chains)


def run_isolated(case, ctx):
  """Runs of the same driver do not influence each other."""
  for kind in ('none', 'memory', 'hdf5'):
    saving = Saving(kind)
    program = make_run(saving, True, 'map')
    for seq in sequences(range(4), 3):
      for op in seq:
        n = 2 + op % 2
        burn, thin = [1] * n, [op < 2] + [True] * (n - 1)
        helpers = helper_args(op % 3, burn, thin)
        chains = [op % 3, (op + 1) % 3][:1 + op // 2]
        set_tables(burn, thin)
        ctx.history = seq
        res = program(*[initial(c) for c in chains], iterations=n,
                      schedulers=helpers)
        saving.verify(ctx, res, [reference(n, c, burn, thin, helpers, True)
                                 for c in chains], f'{kind} runs {seq}')
        ctx.step(n)
      ctx.state('isolated', kind, seq)
      ctx.trace(seq)


def run_data(case, ctx):
  """Chains with own data states of one data loader."""
  strategy = case['strategy']
  for cache in (1, 2, 3) if case['loader'] == 'host' else (1,):
    n, mb = 5, 2
    if case['loader'] == 'host':
      loader = ToyHostLoader()
      init, draw, _ = data.random_reference_data(loader, cache, mb)
    else:
      loader = DeviceNumpyDataLoader(**make_dataset(6, 'one'))
      init, draw, _ = data.random_reference_data(loader, cache, mb)

    def update(state, sched):
      new, batch = draw(state['data'])
      leaf = batch['v'] if 'v' in batch else batch['x']
      return {'data': new, 'h': (state['h'] * 31 + leaf.sum()) % P}, None

    def streams(states):
      """Reference: each chain draws on its own."""
      out = []
      for state in states:
        d, h, res = state['data'], 5, []
        for _ in range(n):
          d, batch = jax.jit(draw)(d)
          leaf = batch['v'] if 'v' in batch else batch['x']
          h = (h * 31 + int(leaf.sum())) % P
          res.append(h)
        out.append(res)
      return out
    make = lambda: [{'data': init(key=jax.random.PRNGKey(k))
                     if case['loader'] == 'device' else init(),
                     'h': jnp.array(5)} for k in range(3)]
    if case['loader'] == 'device':
      states = make()
      want = streams(states)
    else:
      states = make()
      ref = ToyHostLoader()
      for _ in range(3):
        ref.register_random_pipeline(cache_size=1, mb_size=mb)
      want = []
      for c in range(3):
        h, res = 5, []
        for t in range(n):
          h = (h * 31 + int(ref.batch(c, t, mb)[0]['v'].sum())) % P
          res.append(h)
        want.append(res)
    program = solver.mcmc((None, update, lambda s: {'h': s['h']}),
                          scheduler.init_scheduler(progress_bar=False),
                          strategy=strategy)
    try:
      res = program(*states, iterations=n)
    except NotImplementedError:
      ctx.check(strategy == 'vmap' and case['loader'] == 'host',
                f'{case} not implemented')
      ctx.note('vmap_of_host_data_rejected')
      ctx.trace(('rejected', cache))
      continue
    for c in range(3):
      got = [int(x) for x in res[c]['samples']['h']]
      ctx.check(got == want[c], f'{case} cache={cache} chain {c}: {got} instead '
                                f'of {want[c]}')
    ctx.state(case['loader'], strategy, cache)
    ctx.trace((case['loader'], strategy, cache), steps=3 * n)


def run_real(case, ctx):
  """A complete stack, compared with the sequential iteration of its update."""
  def log_lik(sample, obs):
    return -0.5 * jnp.sum((obs['y'] * 0.01 - sample['w']) ** 2)

  def log_prior(sample):
    return -0.1 * jnp.sum(sample['w'] ** 2)
  loader = DeviceNumpyDataLoader(**make_dataset(7))
  rd = data.random_reference_data(loader, 1, 3)
  pot = potential.minibatch_potential(log_prior, log_lik)
  integ = integrator.langevin_diffusion(pot, rd)
  sol = solver.sgmc(integ)
  step = scheduler.polynomial_step_size(a=0.01, b=1., gamma=0.33)
  burn = scheduler.initial_burn_in(3)
  sched = scheduler.init_scheduler(
    step_size=step, burn_in=burn, progress_bar=False,
    thinning=scheduler.random_thinning(step, burn, 4))
  n = 9
  states = [sol[0]({'w': jnp.array([0.1 * c, 1.0])},
                   key=random.PRNGKey(c)) for c in range(3)]
  update = jax.jit(sol[1])
  want = []
  for state in states:
    s, _ = sched[0](n)
    out = []
    for _ in range(n):
      sc = sched[2](s)
      state, _ = update(state, sc)
      if float(sc.burn_in) and bool(sc.accept):
        out.append(np_tree(sol[2](state)))
      s = sched[1](s)
    want.append(tree_util.tree_map(lambda *x: onp.stack(x), *out))
  for kind in ('none', 'no_save', 'memory'):
    saving = Saving(kind)
    program = solver.mcmc(sol, sched, strategy=case['strategy'],
                          saving=saving.saving)
    for order in ((0, 1, 2), (2, 0, 1), (1,)):
      res = program(*[states[c] for c in order], iterations=n)
      ctx.check(len(res) == len(order), f'{case} {len(res)} results')
      for i, c in enumerate(order):
        ctx.check(int(res[i]['sample_count']) == 4,
                  f'{case} {kind}: {res[i]["sample_count"]} samples')
        ctx.close(np_tree(res[i]['samples']), want[c],
                  f'{case} {kind} chains {order}: chain {c}', rtol=1e-3,
                  atol=1e-4)
      ctx.trace((kind, order), steps=n * len(order))


def run_scalars(case, ctx):
  """Initial states of python, numpy and jax scalars give the same samples."""
  def update(state, sched):
    return {'q': 0.5 * state['q'] + sched.step_size, 'n': state['n'] + 1,
            'none': None}, None
  solve = (lambda q, n: {'q': q, 'n': n, 'none': None}, update,
           lambda state: dict(state))
  convert = {'python': (float, int), 'numpy': (onp.float32, onp.int32),
             'jax': (jnp.float32, jnp.int32)}
  for kinds in itertools.product(convert, repeat=2):
    for saving in ('none', 'no_save', 'memory'):
      strategy = io.no_save() if saving == 'no_save' else io.save(
        io.MemoryCollector()) if saving == 'memory' else None
      sched = scheduler.init_scheduler(
        step_size=scheduler.polynomial_step_size_first_last(0.5, 0.25),
        progress_bar=False)
      states = [solve[0](convert[kinds[0]][0](q), convert[kinds[1]][1](n))
                for q, n in ((1.5, 3), (-2.0, 7))]
      res = solver.mcmc(solve, sched, strategy=case['strategy'],
                        saving=strategy)(*states, iterations=3)
      get_sched = scheduler.init_scheduler(
        step_size=scheduler.polynomial_step_size_first_last(0.5, 0.25),
        progress_bar=False)
      st, _ = get_sched[0](3)
      steps = []
      for k in range(3):
        steps.append(float(get_sched[2](st).step_size))
        st = get_sched[1](st)
      for (q, n), r in zip(((1.5, 3), (-2.0, 7)), res):
        want = []
        for h in steps:
          q = 0.5 * q + h
          want.append(q)
        what = f"{case['strategy']} {saving} leaves {kinds}"
        ctx.close(onp.asarray(r['samples']['q']), onp.array(want),
                  f'{what}: samples', rtol=1e-5)
        ctx.equal(onp.asarray(r['samples']['n']), n + 1 + onp.arange(3),
                  f'{what}: counter')
      ctx.trace((case['strategy'], kinds, saving), steps=6)
