"""C11: the scheduler keeps exactly the announced samples after burn-in."""
import math

from mc.lib import *

PROPERTY = 'C11'
INFO = {
  'rule': ('all combinations of number of iterations, burn-in, selections, step '
           'size schedule (including all patterns of vanishing step sizes) and '
           'keys are initialized and executed; the kept iterations are compared '
           'with the announced number, the eligible iterations and the other '
           'executions with the same key. Reachability and proportionality are '
           'decided over all keys 0..K-1 by comparing the counts with the '
           'exact inclusion probabilities of a weighted draw without '
           'replacement'),
  'bounds': {'quick': 'iterations <=6 (no thinning: <=12), all burn-ins up to '
                      'iterations+2, all selections, 4 keys; K=4096 for 14 '
                      'weightings; up to 2000 iterations',
             'thorough': 'iterations <=8, 8 keys; K=16384'},
  'assumptions': ['thinning is given the burn-in and step size schedule which '
                  'are used by the scheduler (documented requirement)',
                  'counts over all keys 0..K-1 may deviate from the exact '
                  'probability by 6 standard deviations']}


def table_step_size(values=None):
  """Schedule with the given step sizes."""
  return scheduler.specific_scheduler(
    lambda iterations, values=values: jnp.asarray(values, jnp.float32)[
      :iterations],
    lambda state, iteration, **kw: state,
    lambda state, iteration, **kw: state[iteration])


def schedule_of(kind, n):
  """Returns (scheduler, reference values)."""
  its = onp.arange(n)
  if kind == 'const':
    return scheduler.polynomial_step_size(a=0.1, b=1., gamma=0.), 0.1 + 0 * its
  if kind == 'poly':
    return (scheduler.polynomial_step_size(a=0.1, b=2., gamma=0.5),
            0.1 * (2. + its) ** -0.5)
  if kind == 'steep':
    return (scheduler.polynomial_step_size(a=2., b=0.01, gamma=4.),
            2. * (0.01 + its) ** -4.)
  if kind == 'firstlast':
    return (scheduler.polynomial_step_size_first_last(1e-1, 1e-4, 0.33),
            1e-1 + 0 * its)
  raise ValueError(kind)


def cases(tier):
  quick = tier == 'quick'
  top = 6 if quick else 8
  out = [dict(mode='burn', n=n) for n in range(0, 13 if quick else 20)]
  for n in range(1, top + 1):
    for kind in ('const', 'poly', 'steep', 'firstlast'):
      out.append(dict(mode='thin', n=n, kind=kind, keys=3 if quick else 8))
    for burn in range(0, n):
      out.append(dict(mode='zeros', n=n, burn=burn, keys=2 if quick else 4))
  for w in range(len(WEIGHTS)):
    for k in (1, 2, 3):
      out.append(dict(mode='weights', w=w, k=k, keys=4096 if quick else 16384))
  out.append(dict(mode='large'))
  out.append(dict(mode='keys'))
  for n in (1000, 6000, 20000):
    out.append(dict(mode='many', n=n))
  return out


WEIGHTS = [[1., 1., 1., 1.], [1., 2., 3., 4.], [4., 3., 2., 1.],
           [1., 0., 2., 0., 5.], [0.5, 0.25, 0.125, 0.0625, 0.03125],
           [1e-3, 1e-3, 2e-3, 4e-3], [100., 10., 50., 40.],
           [0., 0., 1., 1., 2., 4.], [1e-6, 3e-6, 2e-6, 1e-6],
           [2., 1., 1., 1., 1., 1., 1., 8.]]


def run(case, ctx):
  globals()['run_' + case['mode']](case, ctx)


class Runner:
  """Runs a scheduler over all iterations (compiled once per instance)."""

  def __init__(self, sched):
    self.init, update, get = sched

    def program(state, its):
      def body(s, _):
        out = get(s)
        return update(s), (out.burn_in, out.accept)
      return lax.scan(body, state, its)[1]
    self.program = jax.jit(program)

  def kept(self, n, **kwargs):
    state, static = self.init(n, **kwargs)
    burn_in, accept = self.program(state, jnp.arange(n))
    burn_in, accept = onp.asarray(burn_in), onp.asarray(accept)
    ones = set(onp.unique(onp.concatenate([burn_in.ravel().astype(float),
                                           accept.ravel().astype(float)])))
    assert accept.shape in ((n,), (n, 1)), accept.shape
    return (burn_in.reshape(n) * accept.reshape(n)).astype(bool), static, \
      burn_in.reshape(n), ones


def run_burn(case, ctx):
  """No thinning: all iterations after the burn-in are kept."""
  n = case['n']
  default = Runner(scheduler.init_scheduler(progress_bar=False))
  if n == 0:
    # nothing is executed
    _, static = default.init(0)
    ctx.check(static.samples_collected == 0, f'{static} for no iterations')
    ctx.trace('empty')
    return
  runners = {burn: Runner(scheduler.init_scheduler(
    burn_in=scheduler.initial_burn_in(burn), progress_bar=False))
    for burn in (0, 3)}
  own = scheduler.init_scheduler(burn_in=scheduler.initial_burn_in(),
                                 progress_bar=False)
  for burn in range(-1, n + 3):
    for form in (int, onp.int64, jnp.int32):
      for name, runner in [('default', default)] + list(runners.items()):
        ctx.history = (n, burn, form.__name__, name)
        kept, static, b, vals = runner.kept(n, burn_in={'n': form(burn)})
        want = onp.arange(n) >= burn
        what = f'iterations={n} burn_in={burn} (initial {name})'
        ctx.check((kept == want).all(), f'{what}: kept {kept}')
        ctx.check(vals <= {0., 1.}, f'{what}: values {vals}')
        ctx.check((b.astype(bool) == want).all(), f'{what}: burn_in is {b}')
        announced = int(static.samples_collected)
        ctx.check(announced == want.sum() and float(
          static.samples_collected) == announced,
                  f'{what}: {static.samples_collected} samples announced, '
                  f'{want.sum()} kept')
        ctx.state('burn', n, burn)
        ctx.trace((n, burn), steps=n)
  # burn-in given on construction
  for burn in range(0, n + 3, max(1, n // 3)):
    runner = Runner(scheduler.init_scheduler(
      burn_in=scheduler.initial_burn_in(burn), progress_bar=False))
    kept, static, _, _ = runner.kept(n)
    want = onp.arange(n) >= burn
    ctx.check((kept == want).all() and int(static.samples_collected) ==
              want.sum(), f'iterations={n}, initial_burn_in({burn}): kept '
                          f'{kept}, announced {static}')
    ctx.trace((n, burn, 'constructed'), steps=n)


def verify_selection(ctx, kept, static, eligible, selections, what):
  ctx.check(int(static.samples_collected) == selections,
            f'{what}: {static.samples_collected} samples announced instead of '
            f'{selections}')
  ctx.check(kept.sum() == selections, f'{what}: {kept.sum()} iterations kept '
                                      f'instead of {selections}: {kept}')
  ctx.check(not (kept & ~eligible).any(), f'{what}: kept {kept}, but only '
                                          f'{eligible} are eligible')


def rejected(ctx, fn, what):
  try:
    res = fn()
  except Exception:  # pylint: disable=broad-except
    return
  ctx.fail(f'{what}: not rejected, {short(repr(res))}')


def run_thin(case, ctx):
  """All burn-ins, selections and keys."""
  n = case['n']
  step_size, values = schedule_of(case['kind'], n)
  for burn in range(0, n + 2):
    burn_in = scheduler.initial_burn_in(burn)
    eligible = (onp.arange(n) >= burn) & (values > 0)
    thinning = scheduler.random_thinning(step_size, burn_in, 1)
    sched = scheduler.init_scheduler(step_size=step_size, burn_in=burn_in,
                                     thinning=thinning, progress_bar=False)
    runner = Runner(sched)
    for k in range(0, n + 2):
      what = f'{case} burn_in={burn} selections={k}'
      if k > eligible.sum():
        rejected(ctx, lambda: runner.init(n, thinning={'selections': k}), what)
        rejected(ctx, lambda: scheduler.random_thinning(
          step_size, burn_in, k).init(n), what)
        ctx.trace((n, burn, k, 'rejected'))
        continue
      found = set()
      for key in range(case['keys']):
        ctx.history = (n, burn, k, key)
        kept, static, _, _ = runner.kept(
          n, thinning={'selections': k, 'key': random.PRNGKey(key)})
        verify_selection(ctx, kept, static, eligible, k, f'{what} key={key}')
        found.add(tuple(kept))
        ctx.state(n, case['kind'], burn, tuple(kept))
        ctx.trace((n, burn, k, key), steps=n)
      # the same key, selections and schedules given on construction
      again = scheduler.random_thinning(step_size, burn_in, k,
                                        key=random.PRNGKey(case['keys'] - 1))
      state, count = again.init(n)
      kept2 = onp.array([bool(again.get(state, i)) for i in range(n)])
      ctx.check((kept2 == kept).all() and int(count) == k,
                f'{what}: the selection {kept2} with the same key differs from '
                f'{kept}')
      # the selection does not change during the run
      for i in range(n):
        state = again.update(state, i)
      kept2 = onp.array([bool(again.get(state, i)) for i in range(n)])
      ctx.check((kept2 == kept).all(), f'{what}: the selection changes during '
                                       f'the run')


def run_zeros(case, ctx):
  """All patterns of vanishing step sizes."""
  n, burn = case['n'], case['burn']
  step_size = table_step_size(onp.ones(n))
  burn_in = scheduler.initial_burn_in(burn)
  for pattern in sequences((0., 1., 0.01), n):
    if (n > 4 or ctx.tier == 'quick') and sum(
        p == 0.01 for p in pattern) > (0 if n > 4 else 1):
      continue
    eligible = (onp.arange(n) >= burn) & (onp.array(pattern) > 0)
    count = int(eligible.sum())
    own = table_step_size(pattern)
    thinning = scheduler.random_thinning(own, burn_in, 1)
    what = f'{case} step sizes {pattern}'
    rejected(ctx, lambda: thinning.init(n, selections=count + 1), what)
    for k in sorted({1, count // 2, count} - {0}):
      if k > count:
        continue
      all_kept = over_keys(thinning, n, range(17, 17 + case['keys']),
                           selections=k)
      _, announced = thinning.init(n, selections=k) if k == count else (0, k)
      for key, kept in enumerate(all_kept):
        ctx.history = (pattern, k, key)
        verify_selection(ctx, kept, scheduler.static_information(announced),
                         eligible, k, f'{what} selections={k} key={key}')
        ctx.state('zeros', n, burn, tuple(kept))
        ctx.trace((pattern, k, key), steps=n)


def over_keys(thinning, n, keys, compiled=False, **kwargs):
  """The kept iterations (boolean mask) for all keys."""
  def selected(key):
    state, _ = thinning.init(n, key=key, **kwargs)
    return jnp.stack([jnp.asarray(thinning.get(state, i)).astype(
      jnp.int32).reshape(()) for i in range(n)])
  keys = jnp.stack([random.PRNGKey(k) for k in keys]) if len(keys) < 50 else \
    jax.vmap(random.PRNGKey)(jnp.asarray(keys))
  for wrap in ([jax.jit] if compiled else []) + [lambda f: f]:
    try:
      got = wrap(jax.vmap(selected))(keys)
      break
    except Exception:  # pylint: disable=broad-except
      pass
  else:
    # not traceable: one by one
    got = onp.stack([onp.asarray(selected(x)) for x in keys[:400]])
  return onp.asarray(got).astype(bool)


def inclusion(weights, k):
  """Exact inclusion probabilities of k weighted draws without replacement."""
  w = onp.asarray(weights, float)
  n = len(w)
  prob = onp.zeros(n)

  def rec(taken, p):
    if len(taken) == k:
      for i in taken:
        prob[i] += p
      return
    rest = sum(w[i] for i in range(n) if i not in taken)
    for i in range(n):
      if i not in taken and w[i] > 0:
        rec(taken + [i], p * w[i] / rest)
  rec([], 1.)
  return prob


def run_weights(case, ctx):
  weights, k, n_keys = WEIGHTS[case['w']], case['k'], case['keys']
  n = len(weights)
  for burn in (0, 1):
    w = [x if i >= burn else 0. for i, x in enumerate(weights)]
    if sum(x > 0 for x in w) < k:
      continue
    thinning = scheduler.random_thinning(
      table_step_size(weights), scheduler.initial_burn_in(burn), k)

    got = over_keys(thinning, n, range(n_keys), compiled=True)
    n_keys = len(got)
    what = f'step sizes {weights} burn_in={burn} selections={k}'
    ctx.check((got.sum(axis=1) == k).all(),
              f'{what}: {sorted(set(got.sum(axis=1)))} iterations kept')
    expected = inclusion(w, k)
    counts = got.sum(axis=0)
    for i in range(n):
      if expected[i] == 0:
        ctx.check(counts[i] == 0, f'{what}: iteration {i} is selected')
        continue
      sigma = math.sqrt(n_keys * expected[i] * (1 - expected[i]))
      ctx.check(counts[i] > 0, f'{what}: iteration {i} is never selected')
      ctx.check(abs(counts[i] - n_keys * expected[i]) <= 6 * sigma + 1e-6,
                f'{what}: iteration {i} is selected {counts[i]} times by '
                f'{n_keys} keys instead of {n_keys * expected[i]:.1f}')
    for row in onp.unique(got, axis=0):
      ctx.state(case['w'], k, tuple(row))
    ctx.trace((weights, burn, k), steps=n_keys * n)
    ctx.note('keys', n_keys)


def run_large(case, ctx):
  """Many iterations and extreme step sizes."""
  for n, burn, k in [(1000, 0, 1000), (1000, 100, 900), (1000, 100, 899),
                     (2000, 1999, 1), (2000, 500, 17), (257, 1, 255)]:
    for kind, step in [('const', scheduler.polynomial_step_size(0.01, 1., 0.)),
                       ('poly', scheduler.polynomial_step_size(1e-3, 1., 0.33)),
                       ('steep', scheduler.polynomial_step_size(1., 1., 4.)),
                       ('fl', scheduler.polynomial_step_size_first_last(
                         1e-2, 1e-8, 0.33))]:
      b = scheduler.initial_burn_in(burn)
      runner = Runner(scheduler.init_scheduler(
        step_size=step, burn_in=b, progress_bar=False,
        thinning=scheduler.random_thinning(step, b, k)))
      for key in range(3):
        kept, static, _, _ = runner.kept(n, thinning={
          'key': random.PRNGKey(key)})
        verify_selection(ctx, kept, static, onp.arange(n) >= burn, k,
                         f'{kind} iterations={n} burn_in={burn} selections={k}')
        ctx.trace((kind, n, burn, k, key), steps=n)
      rejected(ctx, lambda: runner.init(n, thinning={
        'selections': n - burn + 1}), f'{n} {burn}')


def run_many(case, ctx):
  """The weighting for many iterations."""
  n = case['n']
  burn_in = scheduler.initial_burn_in(n // 10)
  # vanishing step sizes are never selected, larger ones more often
  table = onp.where(onp.arange(n) % 2 == 0, 3., 1.)
  table[n // 2: n // 2 + n // 5] = 0.
  k = n // 10
  thinning = scheduler.random_thinning(table_step_size(table), burn_in, k)
  eligible = (onp.arange(n) >= n // 10) & (table > 0)
  for key in range(3):
    state, static = thinning.init(n, key=random.PRNGKey(key))
    kept = onp.asarray(jax.vmap(lambda i: jnp.asarray(
      thinning.get(state, i)).astype(jnp.int32).reshape(()))(
        jnp.arange(n))).astype(bool)
    verify_selection(ctx, kept, scheduler.static_information(static), eligible,
                     k, f'{case} key {key}')
    # between the fractions of draws with replacement and uniform draws
    heavy = kept[::2].sum()
    ctx.check(0.62 * k < heavy < 0.82 * k, f'{case} key {key}: {heavy} of {k} '
              f'selected iterations have the larger step size')
    late = kept[n // 2:].sum()
    ctx.check(0.28 * k < late < 0.57 * k, f'{case} key {key}: {late} of {k} '
              f'selected iterations are in the second half')
    ctx.trace((n, key), steps=n)


def run_keys(case, ctx):
  """Different keys: different selections; schedules given at initialization."""
  step = scheduler.polynomial_step_size(0.1, 1., 0.1)
  b = scheduler.initial_burn_in(2)
  runner = Runner(scheduler.init_scheduler(
    step_size=step, burn_in=b, progress_bar=False,
    thinning=scheduler.random_thinning(step, b, 6,
                                       key=random.PRNGKey(3))))
  seen = {}
  for key in range(24):
    kept, static, _, _ = runner.kept(14, thinning={'key': random.PRNGKey(key)})
    seen[key] = tuple(kept)
    ctx.trace(('key', key), steps=14)
  ctx.check(len(set(seen.values())) > 16, f'24 keys: only '
                                          f'{len(set(seen.values()))} selections')
  kept, _, _, _ = runner.kept(14)
  ctx.check(tuple(kept) == seen[3], 'key given on construction is not used')
  # without a key
  first = [scheduler.random_thinning(step, b, 6).init(14) for _ in range(2)]
  got = [tuple(bool(scheduler.random_thinning(step, b, 6).get(s, i))
               for i in range(14)) for s, _ in first]
  ctx.check(got[0] == got[1] and sum(got[0]) == 6 and not any(got[0][:2]),
            f'default key: {got}')
  # each chain with own burn-in and step sizes
  for burn in range(0, 10):
    other = scheduler.initial_burn_in(burn)
    for pattern in (onp.ones(14), onp.arange(14) % 2 * 1.,
                    onp.where(onp.arange(14) > 11, 1., 0.)):
      eligible = (onp.arange(14) >= burn) & (pattern > 0)
      k = int(min(4, eligible.sum()))
      kept, static, _, _ = runner.kept(
        14, burn_in={'n': burn}, thinning={
          'burn_in_schedule': other, 'selections': k,
          'step_size_schedule': table_step_size(pattern),
          'key': random.PRNGKey(burn)})
      verify_selection(ctx, kept, static, eligible, k,
                       f'own schedules burn_in={burn} {pattern}')
      ctx.trace(('own', burn), steps=14)
