"""C03: caching on the device never changes the sequence of batches."""
import math
import warnings

from mc.lib import *

PROPERTY = 'C03'
ENV = {'XLA_FLAGS': '--xla_force_host_platform_device_count=3'}
INFO = {
  'rule': ('one case per configuration of data loaders, caches and chains; in '
           'each case all interleavings of draws (single, scan, several '
           'chains in one program, pmap) are executed through the real batch '
           'functions; each batch, mask and batch information and the number '
           'of calls of the data loader are compared with a twin data loader '
           'that is read directly'),
  'bounds': {'quick': '<=3 chains, <=3 data loaders, cache<=4 (linear runs up to '
                      '300), batch<=3, all '
                      'interleavings up to length 8 (2 chains) / 5 (3 chains)',
             'thorough': 'cache<=6, batch<=4, lengths 11 / 7'},
  'assumptions': ['draws are not mapped with vmap (see C13)']}


def cases(tier):
  quick = tier == 'quick'
  out = []
  # one data loader, two chains
  for cache in ([1, 2, 3, 4] if quick else [1, 2, 3, 4, 5, 6]):
    for mb in ([1, 3] if quick else [1, 2, 3, 4]):
      for kind in ('toy', 'toymask', 'shuffle', 'epochs', 'draw'):
        out.append(dict(mode='inter', loaders=[(kind, cache, mb)],
                        chains=[0, 0], length=(2 * cache + 2 if cache <= 3 else
                                               7) if quick else
                        min(2 * cache + 3, 11)))
  # several data loaders and caches
  for a, b in [(1, 1), (1, 2), (2, 3), (3, 2), (1, 4)]:
    for k1, k2 in [('toy', 'toymask'), ('epochs', 'toy'), ('shuffle', 'draw'),
                   ('deep', 'epochs')]:
      out.append(dict(mode='inter', loaders=[(k1, a, 2), (k2, b, 3)],
                      chains=[0, 1], length=7 if quick else 9))
      out.append(dict(mode='inter', loaders=[(k1, a, 2), (k2, b, 3)],
                      chains=[0, 1, 0], length=5 if quick else 7))
  out.append(dict(mode='inter', loaders=[('toy', 2, 2), ('toy', 1, 1),
                                         ('toymask', 3, 2)],
                  chains=[0, 1, 2], length=5 if quick else 7))
  for cache in (1, 2, 3, 5):
    for mb in (1, 2):
      for kind in ('toy', 'toymask', 'epochs', 'shuffle', 'deep', 'wide'):
        out.append(dict(mode='programs', kind=kind, cache=cache, mb=mb))
        out.append(dict(mode='eager', kind=kind, cache=cache, mb=mb))
  for cache in (1, 2, 3):
    for kind in ('toy', 'epochs'):
      out.append(dict(mode='pmap', kind=kind, cache=cache, mb=2))
      out.append(dict(mode='release', kind=kind, cache=cache, mb=2))
      out.append(dict(mode='shared', kind=kind, cache=cache, mb=2))
  for n in (1, 2, 5):
    out.append(dict(mode='device', n=n))
  for cache in (16, 100, 127, 128, 130, 255, 257, 300):
    for kind in ('shuffle', 'toymask'):
      out.append(dict(mode='long', kind=kind, cache=cache, mb=2))
  return out


KW = {'shuffle': dict(shuffle=True), 'deep': dict(shuffle=True),
      'wide': dict(),
      'epochs': dict(shuffle=True, in_epochs=True), 'draw': {}, 'toy': {},
      'toymask': {}}


def wide_dataset(n):
  i = onp.arange(n)
  return {'i64': i.astype(onp.int64) + 1, 'f64': (i + 0.5)[:, None, None],
          'h': (i + 1).astype(onp.float16), 'u': (i + 1).astype(onp.uint32)}


class Twin:
  """A data loader, and a second one which tells the expected batches."""

  def __init__(self, kind, cache, mb, base=0, n=5):
    self.kind, self.cache, self.mb, self.calls = kind, cache, mb, []
    self.n = n
    if kind in ('toy', 'toymask'):
      self.n = 64
      self.loader = ToyHostLoader(64, base, 'some' if kind == 'toymask'
                                  else 'none')
      self.twin = ToyHostLoader(64, base, 'some' if kind == 'toymask'
                                else 'none')
    else:
      ds = wide_dataset(n) if kind == 'wide' else make_dataset(
        n, 'deep' if kind == 'deep' else 'std', offset=base)
      self.loader, self.twin = NumpyDataLoader(**ds), NumpyDataLoader(**ds)
    real, calls = self.loader.get_batches, self.calls

    def counted(chain_id):
      calls.append(int(chain_id))
      return real(chain_id)
    self.loader.get_batches = counted
    self.streams = {}
    with warnings.catch_warnings():
      warnings.simplefilter('ignore')
      self.init, self.get, self.release = data.random_reference_data(
        self.loader, cache, mb)
    self.info_fn = jax.jit(partial(self.get, information=True))
    self.plain_fn = jax.jit(self.get)

  def start(self, init=None, cache=None, mb=None):
    chain = self.twin.register_random_pipeline(
      cache_size=cache or self.cache, mb_size=mb or self.mb, **KW[self.kind])
    before = len(self.calls)
    state = (init or self.init)(**KW[self.kind])
    self.streams[chain] = []
    return chain, state, before

  def expected(self, chain, t, cache=None):
    s = self.streams[chain]
    while len(s) <= t:
      b, m = self.twin.get_batches(chain)
      b = np_tree(b)
      mb = next(iter(b.values())).shape[1]
      for k in range(cache or self.cache):
        s.append(({x: v[k] for x, v in b.items()},
                  onp.ones(mb, bool) if m is None
                  else onp.asarray(m)[k]))
    return s[t]

  def verify(self, ctx, chain, t, batch, info, what, cache=None):
    want, mask = self.expected(chain, t, cache)
    ctx.equal({k: onp.asarray(v) for k, v in batch.items()},
              {k: onp.asarray(jnp.asarray(v)) for k, v in want.items()},
              f'{what}: batch {t} of chain {chain}')
    for k, v in want.items():
      ctx.check(batch[k].dtype == jax.dtypes.canonicalize_dtype(v.dtype),
                f'{what}: dtype of {k} is {batch[k].dtype}')
    if info is not None:
      ctx.equal(onp.asarray(info.mask).astype(bool), mask,
                f'{what}: mask of batch {t} of chain {chain}')
      ctx.check(int(info.observation_count) == self.n and
                int(info.batch_size) == batch[k].shape[0],
                f'{what}: batch information {info}')
    ctx.step()

  def count(self, ctx, chain, t, what, cache=None):
    """Number of calls of the data loader after t draws."""
    cache = cache or self.cache
    want = max(1, math.ceil(t / cache))
    got = self.calls.count(chain)
    ctx.check(got == want, f'{what}: the data loader has been called {got} '
                           f'times instead of {want} times for {t} batches')


def run(case, ctx):
  globals()['run_' + case['mode']](case, ctx)


def run_inter(case, ctx):
  twins = [Twin(k, c, m, base=7 * i, n=5 + i)
           for i, (k, c, m) in enumerate(case['loaders'])]
  for seq in sequences(range(len(case['chains'])), case['length']):
    if seq[0] > 0 and len(set(case['chains'])) == 1 and len(case['chains']) < 3:
      continue                      # symmetric
    ctx.history = seq
    runs = []
    for i in case['chains']:
      chain, state, _ = twins[i].start()
      runs.append([twins[i], chain, state, 0])
    for k, c in enumerate(seq):
      tw, chain, state, t = runs[c]
      if (k + t) % 2:
        state, (batch, info) = tw.info_fn(state)
      else:
        (state, batch), info = tw.plain_fn(state), None
      what = f'{case} {seq} step {k}'
      tw.verify(ctx, chain, t, batch, info, what)
      runs[c][2:] = [state, t + 1]
      for tw2, ch2, _, t2 in runs:
        tw2.count(ctx, ch2, t2, what)
      ctx.state(str(case['loaders']), tuple(case['chains']),
                tuple(r[3] for r in runs))
    for tw, _, _, _ in runs:
      tw.streams.clear()
      tw.calls.clear()
    ctx.trace(seq)
  for tw in twins:
    tw.release()


def run_programs(case, ctx):
  """Draws in scan, fori_loop, while_loop, cond and nested programs."""
  cache = case['cache']
  tw = Twin(case['kind'], cache, case['mb'])
  get = partial(tw.get, information=True)

  def scan(k):
    return jax.jit(lambda s: lax.scan(lambda s, _: get(s), s, None, length=k))

  def single(s):
    s, out = tw.info_fn(s)
    return s, tree_util.tree_map(lambda x: jnp.asarray(x)[None], out)

  def unrolled(k):
    def fn(s):
      outs = []
      for _ in range(k):
        s, o = get(s)
        outs.append(o)
      return s, tree_util.tree_map(
        lambda *x: jnp.stack([jnp.asarray(y) for y in x]), *outs)
    return jax.jit(fn)

  def nested(k):
    def fn(s):
      def outer(s, _):
        return lax.scan(lambda s, _: get(s), s, None, length=2)
      s, out = lax.scan(outer, s, None, length=k)
      return s, tree_util.tree_map(
        lambda x: jnp.asarray(x).reshape((-1,) + x.shape[2:]), out)
    return jax.jit(fn)

  def conditional():
    # only every second iteration draws a batch
    def fn(s):
      _, proto = jax.eval_shape(get, s)
      zero = tree_util.tree_map(lambda x: jnp.zeros(x.shape, x.dtype), proto)

      def body(s, i):
        return lax.cond(i % 2 == 0, lambda s: tree_util.tree_map(
          jnp.asarray, get(s)), lambda s: (s, zero), s)
      s, out = lax.scan(body, s, jnp.arange(6))
      return s, tree_util.tree_map(lambda x: x[::2], out)
    return jax.jit(fn)

  def fori(k):
    def fn(s):
      _, proto = jax.eval_shape(get, s)
      buf = tree_util.tree_map(lambda x: jnp.zeros((k,) + x.shape, x.dtype),
                               proto)

      def body(i, carry):
        s, buf = carry
        s, o = get(s)
        return s, tree_util.tree_map(lambda b, x: b.at[i].set(x), buf, o)
      return lax.fori_loop(0, k, body, (s, buf))
    return jax.jit(fn)
  progs = {'single': (1, single), 'scan2': (2, scan(2)),
           'scan+1': (cache + 1, scan(cache + 1)),
           'unrolled': (3, unrolled(3)), 'nested': (4, nested(2)),
           'cond': (3, conditional()), 'fori': (cache + 2, fori(cache + 2))}
  length = 2 if ctx.tier == 'quick' else 3
  for seq in sequences(sorted(progs), length):
    ctx.history = seq
    chain, state, _ = tw.start()
    t = 0
    for name in seq:
      k, fn = progs[name]
      state, (batch, info) = fn(state)
      batch, info = np_tree(batch), np_tree(info)
      for j in range(k):
        tw.verify(ctx, chain, t + j, {x: v[j] for x, v in batch.items()},
                  tree_util.tree_map(lambda v: v[j], info), f'{case} {seq}')
      t += k
      tw.count(ctx, chain, t, f'{case} {seq}')
      ctx.state(case['kind'], cache, t % cache, name)
    ctx.trace(seq)
  # two chains drawn in one program, in both orders
  two = jax.jit(lambda a, b: lax.scan(
    lambda s, _: (lambda x, y: ((x[0], y[0]), (x[1], y[1])))(
      get(s[0]), get(s[1])), (a, b), None, length=cache + 2))
  for first in range(3):
    (c1, s1, _), (c2, s2, _) = tw.start(), tw.start()
    for t in range(first):
      s1, (b, i) = tw.info_fn(s1)
      tw.verify(ctx, c1, t, b, i, 'two chains')
    _, out = two(s1, s2)
    for chain, off, (b, i) in [(c1, first, np_tree(out[0])),
                               (c2, 0, np_tree(out[1]))]:
      for j in range(cache + 2):
        tw.verify(ctx, chain, off + j, {x: v[j] for x, v in b.items()},
                  tree_util.tree_map(lambda v: v[j], i), f'{case} two chains')
      tw.count(ctx, chain, off + cache + 2, 'two chains')
    ctx.trace()
  tw.release()


def run_eager(case, ctx):
  tw = Twin(case['kind'], case['cache'], case['mb'])
  for mode in ('eager', 'disabled', 'mixed'):
    chain, state, _ = tw.start()
    for t in range(2 * case['cache'] + 2):
      what = f'{case} {mode}'
      ctx.history = (mode, t)
      if mode == 'mixed' and t % 2:
        state, (b, i) = tw.info_fn(state)
      elif mode == 'disabled':
        with jax.disable_jit():
          state, (b, i) = tw.get(state, information=True)
      else:
        state, (b, i) = tw.get(state, information=True)
      tw.verify(ctx, chain, t, b, i, what)
      tw.count(ctx, chain, t + 1, what)
      ctx.state(mode, case['kind'], case['cache'], t % case['cache'])
    ctx.trace(what)
  tw.release()


def run_long(case, ctx):
  """Large caches and long runs."""
  tw = Twin(case['kind'], case['cache'], case['mb'])
  length = 2 * case['cache'] + 3
  fn = jax.jit(lambda s: lax.scan(
    lambda s, _: tw.get(s, information=True), s, None, length=length))
  chain, state, _ = tw.start()
  for rep in range(2):
    state, (b, info) = np_tree(fn(state))
    for k in range(length):
      t = rep * length + k
      tw.verify(ctx, chain, t, {x: v[k] for x, v in b.items()},
                tree_util.tree_map(lambda x: x[k], info), f'{case}')
      ctx.state('long', case['kind'], case['cache'], t % case['cache'])
    tw.count(ctx, chain, (rep + 1) * length, f'{case}')
  ctx.trace(f'{case}')
  tw.release()


def run_pmap(case, ctx):
  """Each device draws from its own chain."""
  cache = case['cache']
  for n_dev in (2, 3):
    for ahead in sequences(range(cache + 1), n_dev):
      ctx.history = (n_dev, ahead)
      tw = Twin(case['kind'], cache, case['mb'])
      fn = jax.pmap(lambda s: lax.scan(
        lambda s, _: tw.get(s, information=True), s, None, length=3),
        devices=jax.devices()[:n_dev])
      states, chains = [], []
      for d in range(n_dev):
        chain, s, _ = tw.start()
        for t in range(ahead[d]):
          s, (b, i) = tw.info_fn(s)
          tw.verify(ctx, chain, t, b, i, f'{case} {ahead}')
        states.append(s)
        chains.append(chain)
      stack = tree_util.tree_map(lambda *x: jnp.stack(x), *states)
      for rep in range(2):
        stack, (b, i) = fn(stack)
        b, i = np_tree(b), np_tree(i)
        for d in range(n_dev):
          for j in range(3):
            tw.verify(ctx, chains[d], ahead[d] + 3 * rep + j,
                      {x: v[d, j] for x, v in b.items()},
                      tree_util.tree_map(lambda v: v[d, j], i),
                      f'{case} pmap {ahead} device {d}')
      for d in range(n_dev):
        tw.count(ctx, chains[d], ahead[d] + 6, f'{case} pmap {ahead}')
      ctx.state('pmap', cache, ahead)
      ctx.trace((n_dev, ahead))
      tw.release()
      if n_dev == 3 and ctx.tier == 'quick' and cache > 1 and sum(ahead) > 4:
        break


def run_release(case, ctx):
  """Release of a data loader at any time leaves the others usable."""
  cache = case['cache']
  for when in range(2 * cache + 3):
    for drawn in range(cache + 2):
      ctx.history = (when, drawn)
      a = Twin(case['kind'], cache, case['mb'])
      b = Twin('toymask', 1 + cache % 2, 2, base=50)
      (ca, sa, _), (cb, sb, _) = a.start(), b.start()
      for t in range(drawn):
        sb, (x, i) = b.info_fn(sb)
        b.verify(ctx, cb, t, x, i, f'{case}')
      for t in range(2 * cache + 3):
        if t == when:
          b.release()
        sa, (x, i) = a.info_fn(sa)
        a.verify(ctx, ca, t, x, i, f'{case} released after {when}')
        a.count(ctx, ca, t + 1, f'{case}')
      # new chains and loaders can be created
      ca, sa, _ = a.start()
      sa, (x, i) = a.info_fn(sa)
      a.verify(ctx, ca, 0, x, i, f'{case} new chain after release')
      a.release()
      ctx.state('release', cache, when, drawn)
      ctx.trace((when, drawn))
      if when > cache and drawn == 1:
        break


def run_shared(case, ctx):
  """Two caches (and a full data map) on the same data loader."""
  tw = Twin(case['kind'], case['cache'], case['mb'])
  cache2, mb2 = 3 - case['cache'] % 2, 1
  with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    init2, get2, release2 = data.random_reference_data(tw.loader, cache2, mb2)
    init3, map3, release3 = data.full_reference_data(tw.loader, 2, 2)
  fn2 = jax.jit(partial(get2, information=True))
  fn3 = jax.jit(lambda s: map3(
    lambda b, m, c: (b, c), s, jnp.array(0), masking=True))
  want3 = None
  length = 6 if ctx.tier == 'quick' else 8
  for seq in sequences(range(3), length):
    if seq[0] != min(seq) or (case['kind'] == 'toy' and seq.count(2) > 2):
      continue
    ctx.history = seq
    c1, s1, _ = tw.start()
    c2, s2, _ = tw.start(init2, cache2, mb2)
    s3 = init3()
    tw.twin.register_ordered_pipeline(cache_size=2, mb_size=2)
    t = [0, 0]
    for op in seq:
      if op == 0:
        s1, (b, i) = tw.info_fn(s1)
        tw.verify(ctx, c1, t[0], b, i, f'{case} {seq}')
        t[0] += 1
      elif op == 1:
        s2, (b, i) = fn2(s2)
        tw.verify(ctx, c2, t[1], b, i, f'{case} {seq}', cache=cache2)
        t[1] += 1
      else:
        s3, (res, _) = fn3(s3)
        res = np_tree(res)
        want3 = want3 or res
        ctx.equal(res, want3, f'{case} {seq}: full data map')
      ctx.state('shared', case['cache'], tuple(t))
    tw.count(ctx, c1, t[0], f'{case} {seq}')
    tw.count(ctx, c2, t[1], f'{case} {seq}', cache=cache2)
    tw.streams.clear()
    tw.calls.clear()
    ctx.trace(seq)
  release2()
  c1, s1, _ = tw.start()
  for t in range(case['cache'] + 2):
    s1, (b, i) = tw.info_fn(s1)
    tw.verify(ctx, c1, t, b, i, f'{case} after releasing the second cache')
  release3()
  tw.release()


def run_device(case, ctx):
  """Device data: draws of several states do not influence each other."""
  n = case['n']
  for variant in ('std', 'deep', 'wide'):
    ds = wide_dataset(n) if variant == 'wide' else make_dataset(n, variant)
    loader = DeviceNumpyDataLoader(**ds)
    for mb in range(1, n + 1):
      init, get, release = data.random_reference_data(loader, 1, mb)
      fn = jax.jit(partial(get, information=True))
      ref = []
      for c in range(2):
        s = loader.init_random_data(key=random.PRNGKey(c))
        out = []
        for _ in range(8):
          s, o = loader.get_random_data(s, mb)
          out.append(np_tree(o))
        ref.append(out)
      for seq in sequences((0, 1), 6):
        ctx.history = seq
        states = [init(key=random.PRNGKey(c)) for c in range(2)]
        t = [0, 0]
        for c in seq:
          states[c], out = fn(states[c])
          ctx.equal(np_tree(out), ref[c][t[c]], f'{case} {seq}: batch {t}')
          t[c] += 1
          ctx.step()
          ctx.state('device', n, mb, tuple(t))
        ctx.trace(seq)
      _, scanned = lax.scan(lambda s, _: get(s, information=True),
                            init(key=random.PRNGKey(1)), None, length=8)
      scanned = np_tree(scanned)
      for k in range(8):
        ctx.equal(tree_util.tree_map(lambda v: v[k], scanned), ref[1][k],
                  f'{case}: batch {k} in scan')
      release()
