"""C17: Integrators follow their update equations with fresh data and noise."""
import math

from mc.lib import *

PROPERTY = 'C17'
INFO = {
  'rule': ('all histories of schedules (step size, temperature) and passed '
           'masses are executed call by call with the real integrators; the '
           'normal variates are recorded when they are drawn and every state is '
           'compared with a double precision reference of the update equations '
           'driven by the recorded variates and the known stream of batches; '
           'the compiled and vectorized integrators are compared with the same '
           'reference; the effective noise of all keys 0..K-1 is extracted from '
           'the states and tested for distinctness, moments and correlations'),
  'bounds': {'quick': 'histories of length 3 (2 for several steps) over 3 '
                      'symbols, 1 to 4 integration steps, 4 sample pytrees, 4 kinds of mass; K=2048',
             'thorough': 'length 4; K=8192'},
  'assumptions': ['noise is drawn with jax.random.normal in the order of the '
                  'update equations, in the order of the leaves; otherwise only '
                  'the extracted noise of the keys 0..K-1 decides',
                  'double precision reference with relative tolerance 2e-3 '
                  'after several steps']}

# -- samples ----------------------------------------------------------------
TREES = ('dict', 'single', 'nested', 'scalars')


def make_sample(name):
  val = lambda *shape, o=0: jnp.asarray(onp.sin(
    1.0 + o + onp.arange(int(onp.prod(shape, initial=1)))).reshape(shape),
                                        dtype=FLOAT)
  return {'dict': lambda: {'w': val(2), 'b': val(o=4)},
          'single': lambda: val(3),
          'nested': lambda: [val(2, 2), {'z': val(1, o=7), 'a': (val(o=9),)}],
          'scalars': lambda: (val(), val(o=2))}[name]()


def flat(tree):
  leaves = tree_util.tree_leaves(tree)
  return onp.concatenate([onp.asarray(x, float).reshape(-1) for x in leaves])


def unflat(vec, like):
  leaves, treedef = tree_util.tree_flatten(like)
  out, k = [], 0
  for leaf in leaves:
    n = int(onp.prod(onp.shape(leaf), initial=1))
    out.append(jnp.asarray(onp.asarray(vec[k:k + n], FLOAT).reshape(
      onp.shape(leaf))))
    k += n
  return treedef.unflatten(out)


# -- data and potential -----------------------------------------------------
def batch_fn():
  """The t-th batch contains t."""
  def get(state, information=False):
    batch = {'t': state.astype(FLOAT)}
    info = data.MiniBatchInformation(observation_count=10, batch_size=2,
                                     mask=jnp.ones(2, dtype=bool))
    return state + 1, (batch, info) if information else batch
  return (lambda start=0: jnp.array(start, dtype=jnp.int32)), get, None


def coeffs(t, n, np):
  i = np.arange(n)
  return 0.6 + 0.3 * np.sin(t + 0.5 * i), np.cos(1.3 * t + i)


def toy_potential(sample, reference_data, state=None, mask=None,
                  likelihoods=False):
  t = reference_data[0]['t']
  leaves = tree_util.tree_leaves(sample)
  q = jnp.concatenate([jnp.reshape(x, (-1,)) for x in leaves])
  a, c = coeffs(t, q.shape[0], jnp)
  value = jnp.sum(0.5 * a * q ** 2 + c * q + 0.02 * q ** 4)
  new_state = None
  if state is not None:
    value = value + 0.1 * state * jnp.sum(q)
    new_state = 0.5 * state + 0.3 * jnp.sin(jnp.sum(q)) + 0.1 * t
  if likelihoods:
    return value, (jnp.stack([t, value, 2 * t + 1]), new_state)
  return value, new_state


def zero_potential(sample, reference_data, state=None, mask=None,
                   likelihoods=False):
  value = sum(jnp.sum(0.0 * x) for x in tree_util.tree_leaves(sample))
  return value, (jnp.zeros(3), state) if likelihoods else state


class World:
  """Reference of data, potential and noise."""

  def __init__(self, start, model, noise):
    self.t, self.m, self.noise, self.pos = start, model, noise, 0

  def evaluate(self, q):
    """Value and gradient with the next batch."""
    a, c = coeffs(float(self.t), len(q), onp)
    value = (0.5 * a * q ** 2 + c * q + 0.02 * q ** 4).sum()
    grad = a * q + c + 0.08 * q ** 3
    if self.m is not None:
      value += 0.1 * self.m * q.sum()
      grad = grad + 0.1 * self.m
      self.m = 0.5 * self.m + 0.3 * math.sin(q.sum()) + 0.1 * self.t
    self.liks = onp.array([self.t, value, 2 * self.t + 1.0])
    self.t += 1
    return value, grad

  def draw(self, n):
    out = self.noise[self.pos:self.pos + n]
    self.pos += n
    if len(out) < n:
      raise IndexError('noise')
    return out


class Recorder:
  """Records all variates and keys passed to jax.random.normal."""

  def __init__(self):
    self.values, self.keys = [], []

  def __enter__(self):
    self.original = random.normal

    def normal(key, shape=(), *args, **kwargs):
      value = self.original(key, shape, *args, **kwargs)
      if not isinstance(value, jax.core.Tracer):
        self.values.append(onp.asarray(value, float).reshape(-1))
        self.keys.append(onp.asarray(key).tobytes())
      return value
    jax.random.normal = normal
    return self

  def __exit__(self, *args):
    jax.random.normal = self.original

  def flat(self):
    return onp.concatenate(self.values) if self.values else onp.zeros(0)


# -- references of the update equations -------------------------------------
class Mass:
  """Mass as vector or matrix over the flattened sample."""

  def __init__(self, inv, sqrt):
    self.inv, self.sqrt = inv, sqrt

  def minv(self, v):
    return self.inv @ v if self.inv.ndim == 2 else self.inv * v

  def msqrt(self, v):
    return self.sqrt @ v if self.sqrt.ndim == 2 else self.sqrt * v


def ref_langevin(world, s, h, T, _):
  q = s['q']
  noise = world.draw(len(q))
  value, grad = world.evaluate(q)
  s.update(q=q - h * grad + math.sqrt(2 * T * h) * noise, potential=value,
           variance=world.liks.var())


def ref_obabo(world, s, h, T, mass, steps, friction):
  for _ in range(steps):
    perm = math.exp(-friction * h)
    refresh = lambda p: math.sqrt(perm) * p + math.sqrt((1 - perm) * T) * \
        mass.msqrt(world.draw(len(p)))
    kin = lambda p: 0.5 * p @ mass.minv(p)
    p = refresh(s['p'])
    s['start'] += kin(p)
    u0, grad = world.evaluate(s['q'])
    p = p - 0.5 * h * grad
    s['q'] = s['q'] + h * mass.minv(p)
    u1, grad = world.evaluate(s['q'])
    p = p - 0.5 * h * grad
    s['end'] += kin(p)
    s['p'] = refresh(p)
    s['potential'] = 0.5 * (u0 + u1)


def ref_reversible(world, s, h, T, mass, steps, friction):
  q, p, energy = s['q'], s['p'], 0.0
  for k in range(steps):
    q = q + (0.5 if k == 0 else 1.0) * h * mass.minv(p)
    noise = mass.msqrt(world.draw(len(p)))
    _, grad = world.evaluate(q)
    new = ((1 - h * friction) * p - h * grad +
           math.sqrt(4 * friction * h) * noise) / (1 + h * friction)
    energy += 0.5 * h * (p + new) @ mass.minv(grad)
    p = new
  if steps == 0:
    q = q + 0.5 * h * mass.minv(p)
  q = q + 0.5 * h * mass.minv(p)
  s.update(q=q, p=p, potential=energy)


def ref_friction(world, s, h, T, mass, steps, friction):
  q, n = s['q'], len(s['q'])
  p = mass.msqrt(world.draw(n))
  for _ in range(steps):
    v = mass.minv(p)
    q = q + h * v
    noise = world.draw(n)
    value, grad = world.evaluate(q)
    p = p - h * friction * v - h * grad + onp.sqrt(2 * h * friction) * noise
    s['potential'] = value
  s.update(q=q, p=p)


KINDS = ('langevin', 'obabo', 'reversible', 'friction')
SYMBOLS = ((0.1, 1.0), (0.3, 0.5), (0.02, 3.0))
OTHER = {'extreme': ((0.1, 1e-4), (0.05, 0.0), (0.001, 60.0)),
         'small': ((0.02, 1.0), (0.01, 0.5), (0.005, 3.0))}
FRICTION = {'obabo': 0.8, 'reversible': 0.35, 'friction': 0.6}


def make_friction(case, sample):
  """Friction of the integrator and as vector."""
  n = len(flat(sample))
  if case['kind'] == 'friction' and case.get('friction') == 'tree':
    vec = 0.3 + 0.2 * onp.arange(n)
    return unflat(vec, sample), vec
  f = FRICTION[case['kind']]
  return f, f


def make_mass(name, sample):
  """Mass passed to the constructor, to the update and its reference."""
  n = len(flat(sample))
  diag = 0.5 + 0.75 * (onp.arange(n) % 3)
  if name == 'none':
    return None, None, Mass(onp.ones(n), onp.ones(n))
  if name == 'const':
    return unflat(diag, sample), None, Mass(1 / diag, onp.sqrt(diag))
  if name == 'diag':
    # passed masses take precedence
    other = unflat(2.5 + diag, sample)
    return other, integrator.init_mass(unflat(diag, sample)), Mass(
      1 / diag, onp.sqrt(diag))
  root = onp.tril(onp.fromfunction(lambda i, j: 0.3 / (1 + i + j), (n, n))) + \
      onp.diag(0.8 + 0.1 * onp.arange(n))
  cov = root @ root.T
  inv = onp.linalg.inv(cov)
  Tensor = util.Tensor
  mat = adaption.MassMatrix(
    inv=Tensor(ndim=2, tensor=jnp.asarray(inv, FLOAT)),
    sqrt=Tensor(ndim=2, tensor=jnp.asarray(root, FLOAT)))
  return None, mat, Mass(inv, root)


def make_integrator(case, sample, pot=toy_potential, data_fn=None, **kw):
  kind = case['kind']
  data_fn = data_fn or batch_fn()
  if kind == 'langevin':
    return integrator.langevin_diffusion(pot, data_fn, **kw)
  const, _, _ = make_mass(case['mass'], sample)
  friction, _ = make_friction(case, sample)
  fn = {'obabo': integrator.obabo, 'reversible': integrator.reversible_leapfrog,
        'friction': integrator.friction_leapfrog}[kind]
  if const is not None:
    kw['const_mass'] = const
  return fn(pot, data_fn, steps=case['steps'], friction=friction, **kw)


def cases(tier):
  quick = tier == 'quick'
  out = []
  for kind in KINDS:
    masses = ('none',) if kind == 'langevin' else ('none', 'const', 'diag',
                                                   'dense')
    for mass in masses:
      for tree in TREES:
        for steps in (1,) if kind == 'langevin' else (1, 2, 3, 4):
          if quick and (steps > 2 and tree in ('single', 'scalars') or
                        steps == 4 and mass in ('const', 'diag')):
            continue
          k = TREES.index(tree) + steps
          out.append(dict(mode='history', kind=kind, mass=mass, tree=tree,
                          steps=steps, model=bool(k % 2), friction='tree' if
                          k % 3 == 0 else 'scalar',
                          length=(3 if steps == 1 and tree in (
                            'dict', 'scalars') else 2) if quick else 4))
      # many steps, extreme temperatures; many calls
      for steps, symbols in ((1, 'extreme'), (3, 'extreme'), (20, 'small')):
        if kind == 'langevin' and steps > 1:
          continue
        out.append(dict(mode='history', kind=kind, mass=mass, tree='dict',
                        steps=steps, model=steps == 3, friction='scalar',
                        length=2 if quick else 3, symbols=symbols))
      if mass in ('none', 'dense'):
        out.append(dict(mode='history', kind=kind, mass=mass, tree='dict',
                        steps=1, model=True, friction='scalar',
                        length=24 if quick else 80, symbols='small',
                        branching=1))
      out.append(dict(mode='vmap', kind=kind, mass=mass, tree='dict', steps=2,
                      model=True))
    out.append(dict(mode='keys', kind=kind, keys=2048 if quick else 8192,
                    mass='none', steps=1))
    out.append(dict(mode='init', kind=kind))
    for loader in ('numpy', 'device'):
      out.append(dict(mode='real', kind=kind, mass='none', steps=3,
                      loader=loader))
  for ndim in (1, 2):
    for tree in TREES[::2] if quick else TREES:
      out.append(dict(mode='adaption', kind='langevin', ndim=ndim, tree=tree))
      out.append(dict(mode='adaption', kind='friction', ndim=ndim, tree=tree))
  return out


def run(case, ctx):
  globals()['run_' + case['mode']](case, ctx)


def sched(h, T):
  return scheduler.schedule(step_size=jnp.array(h), temperature=jnp.array(T),
                            burn_in=jnp.array(1.0), accept=jnp.array(True))


def positions(kind, state):
  return state.latent_variables if kind == 'langevin' else state.positions


def advance(case, world, s, h, T, mass, friction):
  kind = case['kind']
  if kind == 'langevin':
    ref_langevin(world, s, h, T, mass)
  else:
    globals()['ref_' + kind](world, s, h, T, mass, case['steps'], friction)


def compare(ctx, case, state, s, world, what, get=None, rtol=1e-3, atol=1e-3):
  kind = case['kind']
  near = lambda got, want, name: ctx.close(
    onp.asarray(got, float), onp.asarray(want, float), f'{what}: {name}',
    rtol=rtol, atol=atol)
  near(flat(positions(kind, state)), s['q'], 'positions')
  if kind != 'langevin':
    near(flat(state.momentum), s['p'], 'momentum')
  near(state.potential, s['potential'], 'potential')
  if kind == 'langevin':
    near(state.variance, s['variance'], 'variance')
  if kind == 'obabo':
    near(state.kinetic_energy_start, s['start'], 'initial kinetic energy')
    near(state.kinetic_energy_end, s['end'], 'final kinetic energy')
  ctx.check(int(state.data_state) == world.t, f'{what}: next batch is '
            f'{state.data_state} instead of {world.t}')
  ctx.check((state.model_state is None) == (world.m is None),
            f'{what}: model state {state.model_state}')
  if world.m is not None:
    near(state.model_state, world.m, 'model state')
  if get is not None:
    got = get(state)
    ctx.equal(np_tree(got['variables']), np_tree(positions(kind, state)),
              f'{what}: returned variables')
    want = -s['potential'] if kind == 'langevin' else s['potential']
    near(got['likelihood' if kind == 'langevin' else 'energy'], want,
         'returned energy')
    ctx.equal(np_tree(got['model_state']), np_tree(state.model_state),
              f'{what}: returned model state')


def start_ref(case, state, sample):
  s = dict(q=flat(sample), p=0 * flat(sample), potential=0.0, start=0.0,
           end=0.0, variance=1.0)
  if case['kind'] != 'langevin':
    s['p'] = flat(state.momentum)
  return s


def run_history(case, ctx):
  kind = case['kind']
  sample = make_sample(case['tree'])
  n = len(flat(sample))
  integ = make_integrator(case, sample)
  _, passed, ref_mass = make_mass(case['mass'], sample)
  friction = None if kind == 'langevin' else make_friction(case, sample)[1]
  kw = {} if passed is None else {'mass': passed}
  jitted = jax.jit(lambda state, sc: integ[1](state, sc, **kw))
  model = jnp.array(0.4) if case['model'] else None
  start = 3

  rec0 = Recorder()
  with jax.disable_jit(), rec0:
    state = integ[0](sample, key=random.PRNGKey(7), batch_kwargs={
      'start': start}, init_model_state=model)
  s = start_ref(case, state, sample)
  if kind == 'reversible' and len(rec0.flat()) == n:
    const, _, _ = make_mass(case['mass'], sample)
    d = onp.ones(n) if const is None else onp.sqrt(flat(const))
    ctx.close(s['p'], d * rec0.flat(), f'{case}: initial momentum', rtol=1e-4)
  if kind == 'obabo':
    ctx.check(not s['p'].any(), f'{case}: initial momentum {s["p"]}')

  symbols = OTHER.get(case.get('symbols'), SYMBOLS)

  def extend(state, jstate, s, world_args, keys, history):
    for sym in symbols if len(history) < case.get('branching', 99) else (
        symbols[len(history) * 2 % 3],):
      seq = history + (sym,)
      ctx.history = seq
      what = f'{case} history {seq}'
      rec = Recorder()
      with jax.disable_jit(), rec:
        out = integ[1](state, sched(*sym), **kw)
      noise = rec.flat()
      world = World(*world_args, noise)
      new = dict(s)
      scripted = True
      try:
        advance(case, world, new, *sym, ref_mass, friction)
      except IndexError:
        scripted = False
      if world.pos != len(noise):
        scripted = False
      jout = jitted(jstate, sched(*sym))
      if not scripted:
        # noise is not drawn as expected
        ctx.note('noise_not_recorded')
        ctx.close(np_tree(jout), np_tree(out), f'{what}: compiled', rtol=1e-3,
                  atol=1e-3)
        return
      used = keys | set(rec.keys)
      ctx.check(len(used) == len(keys) + len(rec.keys), f'{what}: noise is '
                f'drawn repeatedly with the same key')
      compare(ctx, case, out, new, world, what, integ[2])
      compare(ctx, case, jout, new, world, f'{what}: compiled', integ[2])
      ctx.step()
      ctx.state(tuple(case.items()), seq)
      # continue with the states of the implementation
      new.update(q=flat(positions(kind, out)))
      if kind != 'langevin':
        new.update(p=flat(out.momentum))
      if len(seq) == case['length']:
        ctx.trace(seq)
      else:
        extend(out, jout, new, (world.t, world.m), used, seq)
  extend(state, state, s, (start, None if model is None else 0.4),
         set(rec0.keys), ())


def run_vmap(case, ctx):
  """Vectorized chains equal the single chains."""
  sample = make_sample(case['tree'])
  integ = make_integrator(case, sample)
  _, passed, _ = make_mass(case['mass'], sample)
  kw = {} if passed is None else {'mass': passed}
  chains = []
  for c in range(3):
    first = tree_util.tree_map(lambda x: x + 0.3 * c, sample)
    chains.append(integ[0](first, key=random.PRNGKey(c), batch_kwargs={
      'start': 5 * c}, init_model_state=jnp.array(0.1 * c)))
  single = jax.jit(lambda s, h, T: integ[1](s, sched(1.0, 1.0)._replace(
    step_size=h, temperature=T), **kw))
  many = jax.jit(jax.vmap(lambda s, h, T: integ[1](s, sched(1.0, 1.0)._replace(
    step_size=h, temperature=T), **kw)))
  for seq in sequences(range(3), 2):
    states = list(chains)
    stacked = tree_util.tree_map(lambda *x: jnp.stack(x), *chains)
    for k in seq:
      hs = jnp.array([SYMBOLS[(k + c) % 3][0] for c in range(3)])
      ts = jnp.array([SYMBOLS[(k + c) % 3][1] for c in range(3)])
      states = [single(s, hs[c], ts[c]) for c, s in enumerate(states)]
      stacked = many(stacked, hs, ts)
      for c, s in enumerate(states):
        ctx.close(np_tree(tree_util.tree_map(lambda x: x[c], stacked)),
                  np_tree(s), f'{case} schedules {seq} chain {c}', rtol=1e-3,
                  atol=1e-4)
      ctx.step(3)
    ctx.trace(seq)


def effective_noise(kind, state, out, h, T, friction):
  """Noise of one call (one step, zero potential, unit mass), per element."""
  ravel = lambda tree: jnp.concatenate(
    [jnp.reshape(x, (-1,)) for x in tree_util.tree_leaves(tree)])
  q0, q1 = ravel(positions(kind, state)), ravel(positions(kind, out))
  if kind == 'langevin':
    return [(q1 - q0) / jnp.sqrt(2 * T * h)]
  p0, p1 = ravel(state.momentum), ravel(out.momentum)
  if kind == 'obabo':
    perm = jnp.exp(-friction * h)
    v = (q1 - q0) / h
    scale = jnp.sqrt((1 - perm) * T)
    return [(v - jnp.sqrt(perm) * p0) / scale, (p1 - jnp.sqrt(perm) * v) / scale]
  if kind == 'reversible':
    return [(p1 * (1 + h * friction) - (1 - h * friction) * p0) / jnp.sqrt(
      4 * friction * h)]
  v = (q1 - q0) / h
  return [v, (p1 - v * (1 - h * friction)) / jnp.sqrt(2 * h * friction)]


def run_keys(case, ctx):
  kind, n = case['kind'], case['keys']
  sample = tree_util.tree_map(jnp.zeros_like, {'w': jnp.zeros(2), 'b':
                                               jnp.zeros(()), 'c':
                                               jnp.zeros((2,))})
  friction = FRICTION.get(kind)
  integ = make_integrator(case, sample, pot=zero_potential)
  for h, T in ((0.25, 1.0), (0.5, 2.0)):
    def one(key):
      state = integ[0](sample, key=key)
      out, noise = [], []
      if kind == 'reversible':
        noise.append(jnp.concatenate([jnp.reshape(x, (-1,)) for x in
                                      tree_util.tree_leaves(state.momentum)]))
      for _ in range(3):
        new = integ[1](state, sched(h, T))
        noise += effective_noise(kind, state, new, h, T, friction)
        state = new
      return jnp.stack(noise), state.key
    noise, keys = jax.jit(jax.vmap(one))(jax.vmap(random.PRNGKey)(
      jnp.arange(n)))
    noise = onp.asarray(noise, float).reshape(n, -1)
    what = f'{kind} step size {h} temperature {T}'
    bound = 6 / math.sqrt(n)
    mean, var = noise.mean(0), noise.var(0)
    ctx.check(abs(mean).max() < bound, f'{what}: mean of the noise {mean}')
    ctx.check(abs(var - 1).max() < bound * math.sqrt(2), f'{what}: variance of '
              f'the noise {var}')
    kurt = ((noise - mean) ** 4).mean(0) / var ** 2
    ctx.check(abs(kurt - 3).max() < 6 * math.sqrt(24 / n) + 0.1,
              f'{what}: noise is not normal, kurtosis {kurt}')
    corr = onp.corrcoef(noise.T) - onp.eye(noise.shape[1])
    i, j = onp.unravel_index(abs(corr).argmax(), corr.shape)
    ctx.check(abs(corr).max() < bound, f'{what}: the variates {i} and {j} of '
              f'{noise.shape[1]} (calls x elements) have the correlation '
              f'{corr[i, j]}')
    rows = {r.tobytes() for r in noise.round(3)}
    ctx.check(len(rows) == n, f'{what}: chains with different keys share noise')
    ctx.check(len(onp.unique(onp.asarray(keys), axis=0)) == n,
              f'{what}: keys of different chains become equal')
    ctx.trace((kind, h, T), steps=3 * n)
  ctx.note('keys', n)


def run_init(case, ctx):
  """Initial states: forwarded arguments, reproducible, defaults."""
  kind = case['kind']
  case = dict(case, mass='none', steps=2, friction='scalar')
  compiled = {}
  for tree, start, model in itertools.product(TREES, (None, 0, 4),
                                              (None, 0.0, 2.0)):
    sample = make_sample(tree)
    if tree not in compiled:
      integ = make_integrator(case, sample)
      compiled[tree] = integ, jax.jit(integ[1])
    integ, step = compiled[tree]
    what = f'{kind} {tree} start {start} model {model}'
    kw = {} if start is None else {'batch_kwargs': {'start': start}}
    if model is not None:
      kw['init_model_state'] = jnp.array(model)
    state = integ[0](sample, key=random.PRNGKey(3), **kw)
    ctx.equal(np_tree(positions(kind, state)), np_tree(sample),
              f'{what}: initial positions')
    ctx.check(int(state.data_state) == (start or 0), f'{what}: data state')
    ctx.check((state.model_state is None) == (model is None) and
              (model is None or float(state.model_state) == model),
              f'{what}: model state')
    ctx.check(float(state.potential) == 0.0, f'{what}: initial potential')
    again = integ[0](sample, key=random.PRNGKey(3), **kw)
    other = integ[0](sample, key=random.PRNGKey(4), **kw)
    sc = sched(0.1, 1.0)
    a, b, c = step(state, sc), step(again, sc), step(other, sc)
    ctx.equal(np_tree(a), np_tree(b), f'{what}: not reproducible')
    ctx.check(not onp.allclose(flat(positions(kind, a)),
                               flat(positions(kind, c))),
              f'{what}: chains with other keys are equal')
    # without a key
    default = integ[0](sample, **kw)
    step(default, sc)
    got = integ[2](state)
    ctx.equal(np_tree(got['variables']), np_tree(sample), f'{what}: variables')
    ctx.step(3)
    ctx.trace((tree, start, model))


def run_adaption(case, ctx):
  """Manifold of Langevin diffusion and noise model of friction leapfrog."""
  ndim, kind = case['ndim'], case['kind']
  Tensor = util.Tensor
  for tree in (case['tree'],):
    sample = make_sample(tree)
    n = len(flat(sample))
    ravel = lambda t: jnp.concatenate([jnp.reshape(x, (-1,)) for x in
                                       tree_util.tree_leaves(t)])
    from jax import flatten_util
    unravel = flatten_util.ravel_pytree(sample)[1]
    base = onp.diag(0.5 + 0.25 * onp.arange(n)) + (
      0.0 if ndim == 1 else 0.05 * onp.tril(onp.ones((n, n))))

    def tensor(mat):
      return Tensor(ndim=2, tensor=mat) if ndim == 2 else Tensor(
        ndim=1, tensor=unravel(jnp.diagonal(mat)))

    def init(x0, scale=1.0):
      return {'count': jnp.array(0.0), 'sum': 0 * ravel(x0),
              'scale': jnp.array(scale)}

    def update(state, x, grad, *args, **kwargs):
      return {'count': state['count'] + 1, 'scale': state['scale'],
              'sum': state['sum'] + ravel(x) + 0.5 * ravel(grad)}
    seen = []

    def factor(state, x, grad):
      return state['scale'] * (1.0 + 0.1 * jnp.tanh(jnp.sum(state['sum'])) +
                               0.1 * jnp.tanh(jnp.sum(ravel(x))) + 0.05 *
                               jnp.tanh(jnp.sum(ravel(grad)))) + \
          0.01 * state['count']

    def get_manifold(state, x, grad, *args, **kwargs):
      seen.append((len(args), tuple(sorted(kwargs))))
      f = factor(state, x, grad)
      mat = jnp.asarray(base, FLOAT)
      return adaption.Manifold(
        g_inv=tensor(f * mat), sqrt_g_inv=tensor(jnp.sqrt(f) * mat),
        gamma=Tensor(ndim=1, tensor=unravel(f * jnp.arange(1.0, n + 1))))

    def get_noise(state, x, grad, friction, mini_batch=None, step_size=None,
                  model_state=None):
      f = factor(state, x, grad) + 0.01 * ravel(friction)[0] + 0.1 * step_size \
          + 0.02 * mini_batch[0]['t'] + 0.03 * model_state
      return adaption.NoiseModel(cb_diff_sqrt=tensor(f * jnp.asarray(
        base, FLOAT)), b_sqrt=tensor(jnp.asarray(base, FLOAT)))
    sub = dict(kind=kind, mass='none', steps=2, friction='scalar')
    if kind == 'langevin':
      integ = make_integrator(sub, sample, adaption=(init, update, get_manifold))
    else:
      integ = make_integrator(sub, sample, noise_model=(init, update, get_noise))

    def ref_factor(a, q, grad):
      return a['scale'] * (1 + 0.1 * math.tanh(a['sum'].sum()) + 0.1 * math.tanh(
        q.sum()) + 0.05 * math.tanh(grad.sum())) + 0.01 * a['count']

    def ref_update(a, q, grad):
      a['count'] += 1
      a['sum'] = a['sum'] + q + 0.5 * grad

    jitted = jax.jit(integ[1])
    for scale, seq in itertools.product((1.0, 2.0), sequences(SYMBOLS, 2)):
      if kind == 'friction' and scale != 1.0:
        continue
      kw = {'adaption_kwargs': {'scale': scale}} if kind == 'langevin' else {}
      with jax.disable_jit():
        state = integ[0](sample, key=random.PRNGKey(5), init_model_state=
                         jnp.array(0.4), **kw)
      a = {'count': 0, 'sum': onp.zeros(n), 'scale': scale}
      s, wargs = start_ref(sub, state, sample), (0, 0.4)
      for h, T in seq:
        what = f'{case} {tree} history {seq}'
        rec = Recorder()
        with jax.disable_jit(), rec:
          out = integ[1](state, sched(h, T))
        world = World(*wargs, rec.flat())
        q = s['q']
        try:
          if kind == 'langevin':
            noise = world.draw(n)
            value, grad = world.evaluate(q)
            ref_update(a, q, grad)
            f = ref_factor(a, q, grad)
            s.update(q=q + h * f * onp.arange(1.0, n + 1) - h * f * base @ grad +
                     math.sqrt(2 * T * h * f) * base @ noise, potential=value,
                     variance=world.liks.var())
          else:
            friction = FRICTION['friction']
            p = world.draw(n)
            for _ in range(2):
              noise = world.draw(n)
              v, q = p, q + h * p
              m, t = world.m, world.t
              value, grad = world.evaluate(q)
              ref_update(a, q, grad)
              f = ref_factor(a, q, grad) + 0.01 * friction + 0.1 * h + 0.02 * t
              p = p - h * friction * v - h * grad
              # evaluated with the state of the model before the step
              p = p + math.sqrt(2 * h) * (f + 0.03 * m) * (base @ noise)
            s.update(q=q, p=p, potential=value)
        except IndexError:
          ctx.note('noise_not_recorded')
          return
        compare(ctx, sub, out, s, world, what, integ[2], rtol=2e-3, atol=2e-3)
        jout = jitted(state, sched(h, T))
        compare(ctx, sub, jout, s, world, f'{what}: compiled', rtol=2e-3,
                atol=2e-3)
        state, wargs = out, (world.t, world.m)
        s['q'] = flat(positions(kind, out))
        ctx.step()
      ctx.state(tree, scale, seq)
      ctx.trace((tree, scale, seq))


def run_real(case, ctx):
  """Real potential and data loader: the stream of batches is consumed."""
  kind, n_obs, mb = case['kind'], 7, 2
  rows = make_dataset(n_obs)
  cls = NumpyDataLoader if case['loader'] == 'numpy' else DeviceNumpyDataLoader

  def log_lik(state, sample, obs):
    r = 0.1 * obs['y'] - sample['w']
    return (-0.5 * jnp.sum(r ** 2) * 0.3 - 0.05 * state * sample['b'],
            0.5 * state + 0.1 * obs['x'].astype(FLOAT))
  log_prior = lambda sample: -0.3 * jnp.sum(sample['w'] ** 2) - 0.1 * \
      sample['b'] ** 2
  pot = potential.minibatch_potential(log_prior, log_lik, strategy='vmap',
                                      has_state=True)
  cache = 1 if case['loader'] == 'device' else 3
  rd = data.random_reference_data(cls(**rows), cache, mb)
  # the reference stream
  rd2 = data.random_reference_data(cls(**rows), 1, mb)
  sample = {'w': jnp.array([0.3, -0.2]), 'b': jnp.array(0.5)}
  integ = make_integrator(dict(case, friction='scalar'), sample, pot, rd)
  batch_kw = {'seed': 11} if case['loader'] == 'numpy' else {
    'key': random.PRNGKey(11)}

  class RealWorld(World):
    def evaluate(self, q):
      self.ds, batch = rd2[1](self.ds)
      x, y = onp.asarray(batch['x'], float), onp.asarray(batch['y'], float)
      b, w = q[0], q[1:]
      r = 0.1 * y - w
      lk = -0.15 * (r ** 2).sum(-1) - 0.05 * self.m * b
      scale = n_obs / mb
      value = -(scale * lk.sum() - 0.3 * (w ** 2).sum() - 0.1 * b ** 2)
      gw = -(scale * 0.3 * r.sum(0) - 0.6 * w)
      gb = -(-scale * mb * 0.05 * self.m - 0.2 * b)
      self.m = 0.5 * self.m + 0.1 * x[0]
      self.liks = lk
      self.t += 1
      return value, onp.concatenate([[gb], gw])
  mass = Mass(onp.ones(3), onp.ones(3))
  for eager in (True, False):
    state = integ[0](sample, key=random.PRNGKey(2), batch_kwargs=batch_kw,
                     init_model_state=jnp.array(0.3))
    ds = rd2[0](**batch_kw)
    s, m = start_ref(case, state, sample), 0.3
    for k, (h, T) in enumerate(((0.02, 1.0), (0.05, 0.5), (0.02, 2.0))):
      what = f'{case} eager {eager} call {k}'
      if eager:
        rec = Recorder()
        with jax.disable_jit(), rec:
          out = integ[1](state, sched(h, T))
        RECORDED[k] = rec.flat()
      else:
        out = jax.jit(integ[1])(state, sched(h, T))
      world = RealWorld(0, m, RECORDED[k])
      world.ds = ds
      try:
        advance(case, world, s, h, T, mass, FRICTION.get(kind))
      except IndexError:
        ctx.note('noise_not_recorded')
        return
      ds, m = world.ds, world.m
      near = lambda got, want, name: ctx.close(
        onp.asarray(got, float), onp.asarray(want, float), f'{what}: {name}',
        rtol=2e-3, atol=2e-3)
      near(flat(positions(kind, out)), s['q'], 'positions')
      near(out.potential, s['potential'], 'potential')
      near(out.model_state, m, 'model state')
      if kind == 'langevin':
        near(out.variance, s['variance'], 'variance')
      ctx.check(world.t == (1 if kind == 'langevin' else case['steps'] * (
        2 if kind == 'obabo' else 1)), f'{what}: batches')
      state = out
      ctx.step()
    ctx.trace((kind, eager))


RECORDED = {}
