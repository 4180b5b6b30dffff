"""C12: scheduled step sizes and temperatures follow their definition."""
import contextlib
import io as std_io
import math
import re

from mc.lib import *

PROPERTY = 'C12'
INFO = {
  'rule': ('all combinations of coefficients, number of iterations, overrides '
           'at initialization and composition with other schedulers (including '
           'the progress bar) are executed and every iteration is compared with '
           'a double precision reference; the adaptive step size is driven with '
           'all sequences of acceptance ratios; each line printed by the '
           'progress bar is compared with the executed history'),
  'bounds': {'quick': 'iterations 1-9, 25, 400 and 3000; adaption of 700 steps; acceptance ratios {0, .3, 1} '
                      'up to length 5 and all burn-ins; all 2^5 compositions of '
                      'schedulers',
             'thorough': 'iterations 1-16, acceptance sequences up to length 7'},
  'assumptions': ['single precision: relative tolerance 2e-5 (2e-4 for the '
                  'adaptive step size)']}


def cases(tier):
  quick = tier == 'quick'
  its = list(range(1, 10 if quick else 17)) + [25, 400, 3000]
  out = [dict(mode='poly', n=n) for n in its]
  out += [dict(mode='fl', n=n) for n in its]
  out += [dict(mode='temp')]
  for burn in range(0, (5 if quick else 7) + 2):
    out.append(dict(mode='adaptive', burn=burn, length=5 if quick else 7))
  for burn in (0, 1, 255, 256, 600, 699, 700, 2000):
    out.append(dict(mode='adaptive_long', burn=burn, length=700))
  for step in ('none', 'poly', 'fl', 'adaptive'):
    for temp in (False, True):
      for bar in (False, True):
        out.append(dict(mode='compose', step=step, temp=temp, bar=bar))
  for n in (1, 2, 3, 5, 8) if quick else range(1, 13):
    out.append(dict(mode='bar', n=n))
  out.append(dict(mode='bar_long'))
  out.append(dict(mode='bar_vmap'))
  return out


def run(case, ctx):
  globals()['run_' + case['mode']](case, ctx)


def unroll(specific, state, n, **kwargs):
  """Values of a specific scheduler at all iterations."""
  @jax.jit
  def program(state):
    def body(s, i):
      out = specific.get(s, i)
      return specific.update(s, i, **kwargs), out
    return lax.scan(body, state, jnp.arange(n))[1]
  return onp.asarray(program(state)).reshape(n)


def values(ctx, got, want, what, rtol=2e-5):
  got, want = onp.asarray(got, onp.float64), onp.asarray(want, onp.float64)
  if ctx.precision is not None:
    rtol = 1e-8
  bad = ~(onp.abs(got - want) <= rtol * onp.abs(want))
  ctx.check(not bad.any(), lambda: f'{what}: iteration {bad.argmax()} has '
            f'{got[bad.argmax()]!r} instead of {want[bad.argmax()]!r}',
            got=short(got), want=short(want))


def poly(n, a, b, g):
  return a * (b + onp.arange(n)) ** (-float(g))


def first_last(n, first, last, g):
  first, last, g = (float(FLOAT(x)) for x in (first, last, g))
  if first == last or n == 1:
    return onp.full(n, first)
  # first * (1 + n / b) ** -g
  binv = math.expm1(math.log(first / last) / g) / (n - 1)
  return first * (1 + onp.arange(n) * binv) ** -g


def run_poly(case, ctx):
  n = case['n']
  default = scheduler.polynomial_step_size()
  values(ctx, unroll(default, default.init(n), n), poly(n, 1., 1., 0.33),
         f'default polynomial, {n} iterations')
  shared = scheduler.polynomial_step_size(a=0.7, b=1.5, gamma=0.4)
  for a in (1, 1.0, 0.05, 1e-6, 25.):
    for b in (1, 1.0, 0.01, 3, 100.):
      for g in (0.0, 0.33, 1, 0.5, 2):
        ctx.history = (n, a, b, g)
        what = f'polynomial_step_size({a}, {b}, {g}), {n} iterations'
        want = poly(n, a, b, g)
        own = scheduler.polynomial_step_size(a=a, b=b, gamma=g)
        state = own.init(n)
        values(ctx, [own.get(state, i) for i in {0, n // 2, n - 1}],
               [want[i] for i in {0, n // 2, n - 1}], what)
        if (a, b) in ((1.0, 1.0), (0.05, 3)) or n == 7:
          values(ctx, unroll(own, state, n), want, what)
          values(ctx, unroll(shared, shared.init(n, a=a, b=b, gamma=g), n),
                 want, what + ' given at initialization')
        ctx.state('poly', n, a, b, g)
        ctx.trace((n, a, b, g), steps=n)
  # single parameters given at initialization
  base = dict(a=0.7, b=1.5, gamma=0.4)
  for name, val in (('a', 2.), ('b', 0.5), ('gamma', 1.)):
    values(ctx, unroll(shared, shared.init(n, **{name: val}), n),
           poly(n, *[dict(base, **{name: val})[k] for k in ('a', 'b', 'gamma')]),
           f'only {name} overridden, {n} iterations')
    ctx.trace((n, name), steps=n)
  values(ctx, unroll(shared, shared.init(n), n), poly(n, 0.7, 1.5, 0.4),
         f'parameters given before, {n} iterations')


def run_fl(case, ctx):
  n = case['n']
  shared = scheduler.polynomial_step_size_first_last(first=0.3, last=0.1,
                                                     gamma=0.5)
  default = scheduler.polynomial_step_size_first_last()
  values(ctx, unroll(default, default.init(n), n), onp.ones(n),
         f'default first and last step, {n} iterations')
  for first, last in [(1.0, 0.1), (0.05, 0.001), (1, 1), (2, 1), (1e-4, 1e-5),
                      (0.01, 0.01), (0.1, 0.0999), (1e-2, 1e-6), (30., 2.),
                      (1e-8, 5e-9)]:
    for g in (0.33, 1.0, 0.5, 2, 0.1):
      ctx.history = (n, first, last, g)
      what = f'first={first} last={last} gamma={g}, {n} iterations'
      want = first_last(n, first, last, g)
      own = scheduler.polynomial_step_size_first_last(first, last, g)
      got = unroll(own, own.init(n), n)
      values(ctx, got, want, what, rtol=2e-4)
      ctx.check(got[0] >= got[-1], f'{what}: increases from {got[0]} to '
                                   f'{got[-1]}')
      if g in (0.33, 2):
        values(ctx, unroll(shared, shared.init(
          n, first=jnp.array(first), last=jnp.array(last), gamma=jnp.array(g)),
                           n), want, what + ' at initialization', rtol=2e-4)
      ctx.state('fl', n, first, last, g)
      ctx.trace((n, first, last, g), steps=n)
  for name, val in (('first', 2.), ('last', 0.01), ('gamma', 1.)):
    args = dict(dict(first=.3, last=.1, gamma=.5), **{name: val})
    values(ctx, unroll(shared, shared.init(n, **{name: val}), n),
           first_last(n, args['first'], args['last'], args['gamma']),
           f'only {name} overridden, {n} iterations', rtol=2e-4)
  values(ctx, unroll(shared, shared.init(n), n), first_last(n, .3, .1, .5),
         'parameters given before', rtol=2e-4)
  # increasing step sizes are rejected
  try:
    scheduler.polynomial_step_size_first_last(0.1, 0.2, 0.33).init(n)
  except Exception:  # pylint: disable=broad-except
    pass
  else:
    ctx.fail('increasing step sizes are not rejected')


def run_temp(case, ctx):
  for tau in (1.0, 0.0, 2, 0.01, 100.):
    own = scheduler.constant_temperature(tau)
    other = scheduler.constant_temperature(3.)
    default = scheduler.constant_temperature()
    for n in (1, 2, 7):
      values(ctx, unroll(own, own.init(n), n), onp.full(n, tau), f'tau={tau}')
      values(ctx, unroll(other, other.init(n, tau=tau), n), onp.full(n, tau),
             f'tau={tau} at initialization')
      values(ctx, unroll(other, other.init(n), n), onp.full(n, 3.), 'tau=3')
      values(ctx, unroll(default, default.init(n), n), onp.ones(n), 'default')
      ctx.state('temp', tau, n)
      ctx.trace((tau, n), steps=4 * n)


def dual_averaging(ratios, burn_in, initial=0.05, t0=100., kappa=0.75,
                   gamma=0.05, target=0.02):
  """Step sizes of iterations 0..len(ratios) (reference, double precision)."""
  x_bar, h_bar, mu = math.log(initial), 0.0, math.log(10 * initial)
  out = [math.exp(x_bar)]
  for it, ratio in enumerate(ratios):
    m = it + 1
    h_bar = (1 - 1 / (m + t0)) * h_bar + (target - ratio) / (m + t0)
    x = mu - math.sqrt(m) / gamma * h_bar
    if it < burn_in:
      x_bar = m ** -kappa * x + (1 - m ** -kappa) * x_bar
    out.append(math.exp(x_bar))
  return out


def run_adaptive(case, ctx):
  """All sequences of acceptance ratios."""
  burn, length = case['burn'], case['length']
  params = [dict(), dict(initial_step_size=0.3, stabilization_constant=10,
                         decay_constant=0.6, speed_constant=0.2,
                         target_acceptance_rate=0.5)]
  names = dict(initial_step_size='initial', stabilization_constant='t0',
               decay_constant='kappa', speed_constant='gamma',
               target_acceptance_rate='target')
  # each parameter has its own effect
  params += [{k: v} for k, v in params[1].items()]
  for p in params:
    ref_kw = {names[k]: v for k, v in p.items()}
    own = scheduler.adaptive_step_size(burn_in=burn, **p)
    # all defaults differ
    other = scheduler.adaptive_step_size(
      burn_in=burn + 1, initial_step_size=1., stabilization_constant=3,
      decay_constant=0.9, speed_constant=1., target_acceptance_rate=0.8)
    state = own.init(length)
    full = dict(dict(initial_step_size=0.05, stabilization_constant=100,
                     decay_constant=0.75, speed_constant=0.05,
                     target_acceptance_rate=0.02), **p)
    state2 = other.init(length, burn_in=burn, **full)

    @partial(jax.jit, static_argnums=2)
    def program(state, ratios, sched=own):
      def body(s, x):
        i, r = x
        s = sched.update(s, i, acceptance_ratio=r, unused=0.0)
        return s, sched.get(s, i + 1)
      first = sched.get(state, 0)
      n = ratios.shape[0]
      out = lax.scan(body, tree_util.tree_map(jnp.asarray, state),
                     (jnp.arange(n), ratios))[1]
      return jnp.concatenate([first.reshape(1), out.reshape(n)])
    for n in range(1, length + 1):
      if n < length and len(p) == 1:
        continue
      for ratios in sequences((0.0, 0.3, 1.0), n):
        ctx.history = (p, burn, ratios)
        want = dual_averaging(ratios, burn, **ref_kw)
        what = f'adaptive burn_in={burn} {p} ratios {ratios}'
        got = program(state, jnp.array(ratios))
        values(ctx, got, want, what, rtol=3e-4)
        got = onp.asarray(got)
        ctx.check((got[min(burn, n):] == got[min(burn, n)]).all(),
                  f'{what}: step size changes after the burn-in: {got}')
        if n == length and len(p) != 1:
          values(ctx, program(state2, jnp.array(ratios), other), want,
                 what + ' at initialization', rtol=3e-4)
        ctx.state('adaptive', burn, len(p), ratios)
        ctx.trace((burn, ratios), steps=n)


def run_adaptive_long(case, ctx):
  """Long periodic sequences of acceptance ratios."""
  burn, length = case['burn'], case['length']
  for p, ref_kw in ((dict(), dict()), (
      dict(initial_step_size=0.3, stabilization_constant=10, decay_constant=0.6,
           speed_constant=0.5, target_acceptance_rate=0.5),
      dict(initial=0.3, t0=10., kappa=0.6, gamma=0.5, target=0.5))):
    sched = scheduler.adaptive_step_size(burn_in=burn, **p)

    @jax.jit
    def program(ratios, sched=sched):
      def body(s, x):
        i, r = x
        out = sched.get(s, i)
        return sched.update(s, i, acceptance_ratio=r), out
      return lax.scan(body, tree_util.tree_map(jnp.asarray, sched.init(length)),
                      (jnp.arange(length), ratios))[1]
    for period in ((0.02,), (0.5,), (0.0, 0.0, 0.05), (1.0, 0.0),
                   (0.3, 0.6, 0.45, 0.7)):
      target = ref_kw.get('target', 0.02)
      ratios = [period[i % len(period)] for i in range(length)]
      # the log of the step size stays in the range of single precision
      want = dual_averaging(ratios, burn, **ref_kw)[:length]
      logs = onp.log(onp.maximum(want, 1e-300))
      ok = onp.abs(logs) < 60
      got = onp.asarray(program(jnp.array(ratios))).reshape(length)
      n = length if ok.all() else int(onp.argmin(ok))
      values(ctx, got[:n], want[:n], f'adaptive burn_in={burn} {p} {period}, '
             f'target {target}', rtol=2e-2)
      ctx.state('adaptive_long', burn, len(p), period)
      ctx.trace((burn, period), steps=n)


NUMBERS = re.compile(r'-?\d+')


def run_compose(case, ctx):
  """The composition does not change the values of the single schedulers."""
  n, burn_default = 6, 2
  ratios = [0.9, 0.0, 0.4, 1.0, 0.2, 0.7]
  for with_burn in (False, True):
    for with_thin in (False, True):
      step_default, step_kw = None, {}
      if case['step'] == 'none':
        want_default = want_own = onp.ones(n)
      elif case['step'] == 'poly':
        step_default = scheduler.polynomial_step_size(0.1, 2.0, 0.5)
        step_kw = dict(a=0.4, gamma=1.0)
        want_default, want_own = poly(n, .1, 2., .5), poly(n, .4, 2., 1.)
      elif case['step'] == 'fl':
        step_default = scheduler.polynomial_step_size_first_last(0.2, 0.1, 0.5)
        step_kw = dict(last=0.02)
        want_default = first_last(n, .2, .1, .5)
        want_own = first_last(n, .2, .02, .5)
      else:
        step_default = scheduler.adaptive_step_size(burn_in=3)
        step_kw = dict(initial_step_size=0.4, burn_in=5,
                       stabilization_constant=7, decay_constant=0.6,
                       speed_constant=0.3, target_acceptance_rate=0.4)
        want_default = dual_averaging(ratios, 3)[:n]
        want_own = dual_averaging(ratios, 5, initial=0.4, t0=7., kappa=0.6,
                                  gamma=0.3, target=0.4)[:n]
      temp = scheduler.constant_temperature(0.5) if case['temp'] else None
      tau = 0.5 if case['temp'] else 1.0
      burn = scheduler.initial_burn_in(burn_default) if with_burn else None
      static_step = scheduler.polynomial_step_size(1., 1., 0.)
      thin_burn = scheduler.initial_burn_in(burn_default if with_burn else 0)
      thin = scheduler.random_thinning(static_step, thin_burn, 3) if with_thin \
          else None
      init, update, get = scheduler.init_scheduler(
        step_size=step_default, temperature=temp, burn_in=burn, thinning=thin,
        progress_bar=case['bar'], **({'progress_bar_steps': 3} if case['bar']
                                     else {}))
      step = jax.jit(lambda s, r: update(s, acceptance_ratio=r, other=jnp.ones(
        2)))
      chains = [('default', {}, want_default, tau)]
      if step_kw:
        chains.append(('step size', {'step_size': step_kw}, want_own, tau))
      chains.append(('temperature', {'temperature': {'tau': 0.125}},
                     want_default, 0.125))
      if step_kw:
        chains.append(('both', {'temperature': {'tau': 4.0},
                                'step_size': step_kw}, want_own, 4.0))
      # chains are initialized first and executed alternately
      states, notes = [], []
      with contextlib.redirect_stdout(std_io.StringIO()):
        for name, kw, _, _ in chains:
          states.append(init(n, **kw)[0])
        for i in range(n):
          for c, (name, kw, want, want_tau) in enumerate(chains):
            sched = get(states[c])
            what = (f'{case} burn_in={with_burn} thinning={with_thin} chain '
                    f'with own {name}, iteration {i}')
            notes.append((onp.asarray(sched.step_size), want[i],
                          what + ' step size'))
            notes.append((onp.asarray(sched.temperature), want_tau,
                          what + ' temperature'))
            b = 1.0 if not with_burn or i >= burn_default else 0.0
            notes.append((onp.asarray(sched.burn_in), b, what + ' burn-in'))
            if i % 2:
              states[c] = step(states[c], ratios[i])
            else:
              states[c] = update(states[c], acceptance_ratio=ratios[i],
                                 other=jnp.ones(2))
            ctx.step()
        jax.effects_barrier()
      for got, want, what in notes:
        ctx.check(got.shape in ((), (1,)), f'{what}: shape {got.shape}')
        values(ctx, [got.reshape(())], [want], what, rtol=3e-4)
      ctx.state(case['step'], case['temp'], case['bar'], with_burn, with_thin)
      ctx.trace((case['step'], with_burn, with_thin))


def verify_lines(ctx, text, n, kept, announced, want_its, what):
  """Each line has the form [Step i/n](p%) Collected c of t samples..."""
  lines = [l for l in text.splitlines() if l.strip()]
  its = []
  for line in lines:
    nums = [int(x) for x in NUMBERS.findall(line)]
    ctx.check(len(nums) == 5, f'{what}: progress bar prints {line!r}')
    i, total, percent, collected, samples = nums
    ctx.check(total == n and 0 <= i < n, f'{what}: {line!r} for {n} iterations')
    ctx.check(percent == round(i / n * 100), f'{what}: {line!r}')
    ctx.check(samples == announced, f'{what}: {line!r}, but {announced} samples '
                                    f'are collected')
    ctx.check(collected == sum(kept[:i + 1]),
              f'{what}: {line!r}, but {sum(kept[:i + 1])} samples are kept up '
              f'to iteration {i}: {kept}')
    its.append(i)
  ctx.check(its == sorted(set(its)), f'{what}: lines of iterations {its}')
  if want_its is not None:
    ctx.check(its == want_its, f'{what}: printed in iterations {its} instead of '
                               f'{want_its}')


def run_bar(case, ctx):
  """All burn-ins and selections of the kept iterations."""
  n = case['n']
  table = scheduler.specific_scheduler(
    lambda iterations, kept=(): (jnp.array(kept), int(sum(kept))),
    lambda state, it, **kw: state, lambda state, it, **kw: state[it])
  for steps in sorted({1, 2, n, n + 3}):
    init, update, get = scheduler.init_scheduler(
      burn_in=scheduler.initial_burn_in(), thinning=table,
      progress_bar_steps=steps)

    @jax.jit
    def program(state):
      def body(s, _):
        g = get(s)
        return update(s), (g.step_size, g.temperature)
      return lax.scan(body, state, jnp.arange(n))[1]
    patterns = list(sequences((False, True), n)) if n <= 5 else [
      tuple(bool((c >> (i % 5)) & 1) for i in range(n)) for c in range(32)]
    for pattern in patterns:
      for burn in {0, n // 2}:
        state, static = init(n, thinning={'kept': pattern},
                             burn_in={'n': burn})
        kept = [bool(p) and i >= burn for i, p in enumerate(pattern)]
        buf = std_io.StringIO()
        with contextlib.redirect_stdout(buf):
          jax.block_until_ready(program(tree_util.tree_map(jnp.asarray, state)))
          jax.effects_barrier()
        what = f'{n} iterations, {steps} lines, burn_in={burn} {pattern}'
        ctx.history = (n, steps, burn, pattern)
        verify_lines(ctx, buf.getvalue(), n, kept, static.samples_collected,
                     [i for i in range(n) if i % (n // steps) == 0]
                     if steps <= n else None, what)
        ctx.check(buf.getvalue() != '', f'{what}: nothing is printed')
        ctx.state('bar', n, steps, burn, pattern)
        ctx.trace((n, steps, burn, pattern), steps=n)


def run_bar_long(case, ctx):
  """Default frequency, disabled progress bar, several chains in parallel."""
  for n, burn in ((20, 3), (40, 0), (57, 30), (400, 10), (5, 1)):
    init, update, _ = scheduler.init_scheduler(
      burn_in=scheduler.initial_burn_in(burn))
    own, upd2, _ = scheduler.init_scheduler(
      burn_in=scheduler.initial_burn_in(burn), progress_bar=False)
    kept = [i >= burn for i in range(n)]
    for name, (a, b, kw) in {'default': (init, update, {}),
                             'disabled': (init, update, {'enabled': False}),
                             'without': (own, upd2, {})}.items():
      state, static = a(n, **kw)
      buf = std_io.StringIO()
      with contextlib.redirect_stdout(buf):
        out = jax.jit(lambda s: lax.fori_loop(0, n, lambda i, s: b(s), s))(
          tree_util.tree_map(jnp.asarray, state))
        jax.block_until_ready(out)
        jax.effects_barrier()
      if name == 'default':
        verify_lines(ctx, buf.getvalue(), n, kept, static.samples_collected,
                     [i for i in range(n) if i % (n // 20) == 0] if n >= 20
                     else None, f'{n} iterations')
      else:
        ctx.check(buf.getvalue() == '', f'{name}: {buf.getvalue()!r} printed')
      ctx.trace((n, name), steps=n)


def run_bar_vmap(case, ctx):
  """Vectorized chains: the lines of all chains are printed."""
  table = scheduler.specific_scheduler(
    lambda iterations, kept=(): (jnp.array(kept), int(sum(kept))),
    lambda state, it, **kw: state, lambda state, it, **kw: state[it])
  for n, steps in ((3, 3), (4, 2), (5, 1)):
    init, update, get = scheduler.init_scheduler(thinning=table,
                                                 progress_bar_steps=steps)
    program = jax.jit(jax.vmap(lambda s: lax.scan(
      lambda s, _: (update(s), get(s).step_size), s, jnp.arange(n))[1]))
    for seed in range(6):
      kept = [[bool((seed + 3 * c + i * (c + 1)) % 3) for i in range(n)]
              for c in range(3)]
      enabled = [True, seed % 2 == 0, True]
      states = [init(n, thinning={'kept': k}, enabled=jnp.array(e))[0]
                for k, e in zip(kept, enabled)]
      states = tree_util.tree_map(lambda *x: jnp.stack(
        [jnp.asarray(y) for y in x]), *states)
      buf = std_io.StringIO()
      with contextlib.redirect_stdout(buf):
        jax.block_until_ready(program(states))
        jax.effects_barrier()
      got = sorted(tuple(int(x) for x in NUMBERS.findall(line))
                   for line in buf.getvalue().splitlines())
      want = sorted((i, n, round(i / n * 100), sum(kept[c][:i + 1]),
                     sum(kept[c])) for c in range(3) for i in range(n)
                    if i % (n // steps) == 0 and enabled[c])
      ctx.check(got == want, f'vectorized chains, {n} iterations, {kept}: '
                             f'prints {got} instead of {want}')
      ctx.trace((n, steps, seed), steps=3 * n)
