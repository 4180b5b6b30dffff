"""C19: Pytree utilities are exact."""
import uuid as std_uuid
from unittest import mock

from mc.lib import *

PROPERTY = 'C19'
ENV = {'XLA_FLAGS': '--xla_force_host_platform_device_count=3'}
INFO = {
  'rule': ('all pytrees of a grammar (containers up to depth 2 over leaves of '
           'different shapes and dtypes) are stacked, split, mapped and '
           'multiplied with the real functions and compared with the operation '
           'on each pytree or on the flattened pytrees; all 128-bit patterns of '
           'four words out of boundary words and all patterns of one or two '
           'bits are passed through JaxUUID, jit, vmap and host callbacks'),
  'bounds': {'quick': 'depth 2, containers of at most 2 children, lists of up to '
                      '3 pytrees; 7^4 + 128 + 8128 patterns',
             'thorough': 'all leaf types at depth 2, lists of up to 4 pytrees'},
  'assumptions': ['pytrees have at least one leaf', 'matrix products: leaves of '
                  'one dtype', 'values for which the arithmetic is exact']}

CHUNKS = 16
WORDS = (0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x000000ff, 0x12345678)

Pair = namedtuple('Pair', ['first', 'second'])

# shape, dtype
LEAVES = (((), 'float32'), ((2,), 'float32'), ((2, 3), 'float32'),
          ((1,), 'int32'), ((), 'bool'), ((0,), 'float32'), ((2,), 'uint8'),
          ((3,), 'float16'), ((1, 2, 1), 'int16'), ((2, 2, 2), 'float32'),
          ((3, 1, 2), 'int32'), ((1, 2, 3), 'float32'),
          ((2, 1, 2, 2), 'float32'), ((1, 1, 1, 1), 'int32'),
          ((2, 2), 'int32'), ((0, 2), 'float32'), ((4, 1), 'float16'))

if WORKER:
  @tree_util.register_pytree_node_class
  class Custom:
    def __init__(self, child, aux):
      self.child, self.aux = child, aux

    def tree_flatten(self):
      return (self.child,), self.aux

    @classmethod
    def tree_unflatten(cls, aux, children):
      return cls(children[0], aux)


def cases(tier):
  quick = tier == 'quick'
  out = []
  for chunk in range(CHUNKS):
    for mode in ('stack', 'map', 'ops'):
      out.append(dict(mode=mode, chunk=chunk, length=3 if quick else 4,
                      full=not quick))
  for first in range(len(WORDS)):
    out.append(dict(mode='uuid', first=first))
  out.append(dict(mode='bits', pairs=True))
  out.append(dict(mode='unique'))
  return out


def containers(children, pairs):
  yield from ({'a': c} for c in children)
  yield from ((c,) for c in children)
  yield from ([c] for c in children)
  if WORKER:
    yield from (Custom(c, 'aux') for c in children)
  for k, (c, d) in enumerate(pairs):
    yield {'b': c, 'a': d}
    yield ((c, d), [c, d], Pair(c, d), {'x': c, 'n': None, 'y': d},
           (c, None, d), [(), c, {}, d])[k % 6]


def grammar(leaves):
  """All trees; leaf positions hold indices of LEAVES."""
  # all leaves on their own and next to each other
  trees = list(range(len(LEAVES)))
  trees += [{'a': i, 'b': [(i + 1) % len(LEAVES)]} for i in range(len(LEAVES))]
  trees += [(i, (i + 3) % len(LEAVES)) for i in range(len(LEAVES))]
  one = list(containers(leaves, itertools.product(leaves, repeat=2)))
  trees += one
  some = one[::7] + list(leaves[:2])
  trees += list(containers(one[::3], [p for k, p in enumerate(
    itertools.product(some, repeat=2)) if k % 5 == 0]))
  return trees


def value(leaf, k, pos):
  shape, dtype = LEAVES[leaf]
  size = int(onp.prod(shape))
  v = (onp.arange(size) + 1) * (k + 1) + 3 * pos
  if dtype == 'bool':
    v = (v % 2 == 0)
  elif dtype != 'uint8':
    v = v - 7
  return v.reshape(shape).astype(dtype)


def build(tree, k):
  """The k-th tree of the structure."""
  leaves, struct = tree_util.tree_flatten(tree)
  return tree_util.tree_unflatten(struct, [
    value(l, k, pos) for pos, l in enumerate(leaves)])


def chunk_of(trees, chunk):
  return [(i, t) for i, t in enumerate(trees) if i % CHUNKS == chunk]


def same(ctx, got, want, what, rtol=0, dtypes=True):
  ctx.check(tree_util.tree_structure(got) == tree_util.tree_structure(want),
            f'{what}: structure {tree_util.tree_structure(got)} instead of '
            f'{tree_util.tree_structure(want)}')
  for g, w in zip(tree_util.tree_leaves(got), tree_util.tree_leaves(want)):
    g, w = onp.asarray(g), onp.asarray(w)
    ctx.check(g.shape == w.shape and (not dtypes or g.dtype == w.dtype),
              f'{what}: {g.dtype}{g.shape} instead of {w.dtype}{w.shape}')
    ok = (onp.array_equal(g, w) if not rtol else
          onp.allclose(g, w, rtol=rtol, atol=1e-6))
    ctx.check(ok, f'{what}: {g!r} instead of {w!r}')


def run(case, ctx):
  globals()['run_' + case['mode']](case, ctx)


def run_stack(case, ctx):
  trees = grammar(range(len(LEAVES)) if case['full'] else range(7))
  for i, tree in chunk_of(trees, case['chunk']):
    for n in range(1, case['length'] + 1):
      # all orders of the list elements
      for order in itertools.permutations(range(n)):
        if n == 3 and i % 3 and order[0] != 2 or n == 4 and order[0] != 2:
          continue
        pytrees = [build(tree, k) for k in order]
        ctx.history = (i, order)
        what = f'tree {tree} order {order}'
        stacked = util.pytree_list_to_leaves(pytrees)
        want = tree_util.tree_map(lambda *x: onp.stack(x), *pytrees)
        same(ctx, stacked, want, f'{what}: stacked')
        split = util.pytree_leaves_to_list(stacked)
        ctx.check(len(split) == n, f'{what}: {len(split)} pytrees')
        for k, (s, w) in enumerate(zip(split, pytrees)):
          same(ctx, s, w, f'{what}: element {k}')
        # split of host arrays and stacking once more
        again = util.pytree_list_to_leaves(util.pytree_leaves_to_list(want))
        same(ctx, again, want, f'{what}: stacked again')
        ctx.step(2)
        ctx.trace((i, order))
    ctx.state(str(tree))


def functions():
  f32 = lambda x: jnp.asarray(x).astype(jnp.float32)

  def loop(tree):
    total = sum(jnp.sum(f32(x)) for x in tree_util.tree_leaves(tree))
    return {'count': lax.while_loop(
      lambda c: (c[0] < total) & (c[1] < 50), lambda c: (c[0] + 3.0, c[1] + 1),
      (jnp.array(0.0), jnp.array(0)))[1], 'total': total}

  def branch(tree):
    total = sum(jnp.sum(f32(x)) for x in tree_util.tree_leaves(tree))
    return lax.cond(total > 0, lambda t: t, lambda t: tree_util.tree_map(
      jnp.zeros_like, t), tree)
  return {
    'identity': lambda t: t,
    'leafwise': lambda t: tree_util.tree_map(lambda x: f32(x) * 2 + 1, t),
    'nested': lambda t: {'in': t, 'sums': [jnp.sum(f32(x)) for x in
                                           tree_util.tree_leaves(t)]},
    'flip': lambda t: tuple(jnp.flip(f32(x), 0) if x.ndim else -f32(x)
                            for x in tree_util.tree_leaves(t)),
    'constant': lambda t: (jnp.arange(3), tree_util.tree_leaves(t)[0]),
    'loop': loop, 'branch': branch}


def run_map(case, ctx):
  trees = grammar(range(len(LEAVES)) if case['full'] else range(7))
  trees = trees if case['full'] else trees[::3]
  fns = functions()
  for j, (i, tree) in enumerate(chunk_of(trees, case['chunk'])):
    for fname, fn in fns.items():
      mapped = util.list_vmap(fn)
      pmapped = util.list_pmap(fn) if (j + case['chunk']) % 9 == 0 else None
      for n in range(1, case['length'] + 1):
        order = tuple((k * 2 + 1) % n for k in range(n)) if n % 2 else tuple(
          reversed(range(n)))
        pytrees = [build(tree, k) for k in order]
        ctx.history = (fname, order)
        want = [fn(tree_util.tree_map(jnp.asarray, p)) for p in pytrees]
        todo = [('list_vmap', mapped)]
        if pmapped is not None and n <= 3:
          todo.append(('list_pmap', pmapped))
        for name, m in todo:
          what = f'{name} of {fname}, tree {tree}, order {order}'
          got = m(*pytrees)
          ctx.check(isinstance(got, (list, tuple)) and len(got) == n,
                    f'{what}: {len(got)} results')
          for k in range(n):
            same(ctx, got[k], want[k], f'{what}: result {k}', rtol=1e-6)
          ctx.step()
          ctx.trace((name, fname, str(tree), order))
    ctx.state('map', str(tree))


def run_ops(case, ctx):
  trees = grammar(range(len(LEAVES)) if case['full'] else range(7))
  f = lambda t: onp.concatenate([onp.reshape(onp.asarray(x), -1).astype(float)
                                 for x in tree_util.tree_leaves(t)] + [
                                   onp.zeros(0)])
  for i, tree in chunk_of(trees, case['chunk']):
    leaves = tree_util.tree_leaves(tree)
    dtypes = {LEAVES[l][1] for l in leaves}
    to_np = lambda t: tree_util.tree_map(onp.asarray, t)
    for k, l in itertools.product(range(case['length']), repeat=2):
      a, b = build(tree, k), build(tree, l)
      ctx.history = (k, l)
      what = f'tree {tree} values {k} {l}'
      if 'bool' not in dtypes and 'uint8' not in dtypes:
        like = lambda fn: tree_util.tree_map(lambda x, y: fn(x, y).astype(
          x.dtype), a, b)
        same(ctx, util.tree_add(a, b), like(onp.add), f'{what}: sum')
        same(ctx, util.tree_multiply(a, b), like(onp.multiply),
             f'{what}: product')
        ctx.step(2)
      want = float(onp.dot(f(a), f(b)))
      if 'bool' in dtypes:
        # the product of bools is a bool
        want = want
      if 'uint8' not in dtypes:
        got = util.tree_dot(a, b)
        ctx.check(onp.shape(got) == () and float(got) == want,
                  f'{what}: scalar product {got} instead of {want}')
        ctx.check(float(jax.jit(util.tree_dot)(a, b)) == want if k == l == 1
                  else True, f'{what}: compiled scalar product')
      for alpha in (0, -2, 3.0, onp.float32(0.5), jnp.array(-1.5),
                    jnp.array(2)) if l == 0 else ():
        got = util.tree_scale(alpha, a)
        ctx.check(tree_util.tree_structure(got) == tree_util.tree_structure(a),
                  f'{what}: structure of the scaled pytree')
        if 'uint8' not in dtypes:
          ctx.check(onp.array_equal(f(got), float(alpha) * f(a)),
                    f'{what}: {f(a)} scaled by {alpha}: {f(got)}')
          for g, x in zip(tree_util.tree_leaves(got), tree_util.tree_leaves(a)):
            ctx.check(onp.shape(g) == onp.shape(x), f'{what}: shape')
          t0 = util.tensor_matmul(util.Tensor(ndim=0, tensor=alpha), a)
          same(ctx, t0, got, f'{what}: tensor of dimension 0')
        ctx.step()
      if dtypes in ({'float32'}, {'float16'}):
        t1 = util.tensor_matmul(util.Tensor(ndim=1, tensor=a), b)
        same(ctx, t1, like(onp.multiply), f'{what}: tensor of dimension 1')
        n = len(f(a))
        if n:
          for shift, m in enumerate((onp.eye(n), onp.roll(onp.eye(n), 1, 0),
                                     onp.arange(n * n).reshape(n, n) % 5 - 1)):
            want = m @ f(b)
            for name, fn in (('matrix', util.tree_matmul),
                             ('tensor of dimension 2', lambda m, v:
                              util.tensor_matmul(util.Tensor(
                                ndim=2, tensor=m), v))):
              mm = jnp.asarray(m.astype(next(iter(dtypes))))
              got = fn(mm, b)
              ctx.check(onp.array_equal(f(got), want),
                        f'{what}: {name} {shift}: {f(got)} instead of {want}')
              same(ctx, tree_util.tree_map(jnp.zeros_like, got),
                   tree_util.tree_map(onp.zeros_like, b), f'{what}: {name}')
              ctx.step()
      ctx.trace((str(tree), k, l))
    ctx.state('ops', str(tree))
  for ndim in (3, -1):
    try:
      util.tensor_matmul(util.Tensor(ndim=ndim, tensor=jnp.ones(2)), jnp.ones(2))
    except NotImplementedError:
      continue
    ctx.check(False, f'tensor of dimension {ndim} accepted')


# -- uuids ------------------------------------------------------------------
def uuid_paths(ctx):
  from jax.experimental import io_callback
  from jax_sgmc.util.uuid import JaxUUID
  ids = lambda u: onp.asarray(u.as_int32s)
  host = []

  def on_host(u):
    host.append(u.as_uuid.int)
    return u

  def callback(u):
    return io_callback(on_host, tree_util.tree_map(
      lambda x: jax.ShapeDtypeStruct(x.shape, x.dtype), u), u, ordered=False)
  jit = jax.jit(lambda u: u)
  call = jax.jit(callback)
  branch = jax.jit(lambda c, u, v: lax.cond(c, lambda a: a[0], lambda a: a[1],
                                            (u, v)))
  return JaxUUID, ids, host, jit, call, branch


def words(n):
  return [(n >> s) & 0xffffffff for s in range(0, 128, 32)]


def run_patterns(ctx, patterns, deep):
  JaxUUID, ids, host, jit, call, branch = uuid_paths(ctx)
  # generate the pattern via the standard library
  called = []

  def make(n):
    with mock.patch.object(std_uuid, 'uuid4', lambda: (
        called.append(n), std_uuid.UUID(int=n))[1]):
      return JaxUUID()
  make(1)
  if not called:
    # the layout of the words is not known
    ctx.note('not_uuid4')
    make = lambda n: JaxUUID(ints=onp.array(words(n), onp.uint32))
    if make(5 + (7 << 32) + (9 << 96)).as_uuid.int != 5 + (7 << 32) + (9 << 96):
      return
  seen = {}
  for k, n in enumerate(patterns):
    u = make(n)
    ctx.history = hex(n)
    ctx.check(u.as_uuid == std_uuid.UUID(int=n),
              f'{n:032x}: converted to {u.as_uuid}')
    ctx.check(str(u) == str(std_uuid.UUID(int=n)), f'{n:032x}: {u}')
    again = JaxUUID(ints=u.as_int32s)
    ctx.check(again.as_uuid.int == n, f'{n:032x}: from int32: {again}')
    leaves, struct = tree_util.tree_flatten(u)
    back = tree_util.tree_unflatten(struct, leaves)
    ctx.check(back.as_uuid.int == n, f'{n:032x}: flattened: {back}')
    ctx.check(seen.setdefault(u.as_uuid, n) == n, f'{n:032x}: not unique')
    ctx.step(3)
    if deep or k % 16 == 0:
      for name, v in (('jit', jit(u)), ('device', jax.device_put(u)),
                      ('branch', branch(True, u, make(n ^ 1))),
                      ('other branch', branch(False, make(n ^ (1 << 127)), u))):
        ctx.check(v.as_uuid.int == n, f'{n:032x}: {name}: {v}')
      host.clear()
      v = call(u)
      ctx.check(v.as_uuid.int == n, f'{n:032x}: returned from the host: {v}')
      ctx.check(host == [n], f'{n:032x}: host received {host}')
      ctx.step(5)
    ctx.state(n)
    ctx.trace(n)
  # vectorized
  for start in range(0, len(patterns), 64):
    part = patterns[start:start + 64]
    stacked = util.pytree_list_to_leaves([make(n) for n in part])
    out = util.pytree_leaves_to_list(jax.vmap(lambda u: u)(stacked))
    for n, v in zip(part, out):
      ctx.check(v.as_uuid.int == n, f'{n:032x}: vectorized: {v}')
    ctx.step()


def run_uuid(case, ctx):
  first = WORDS[case['first']]
  patterns = [sum(w << s for w, s in zip((first,) + rest, (96, 64, 32, 0)))
              for rest in itertools.product(WORDS, repeat=3)]
  run_patterns(ctx, patterns, deep=True)


def run_bits(case, ctx):
  patterns = [1 << a for a in range(128)]
  patterns += [(1 << a) | (1 << b) for a in range(128) for b in range(a)]
  run_patterns(ctx, patterns, deep=False)


def run_unique(case, ctx):
  JaxUUID, ids, host, jit, call, branch = uuid_paths(ctx)
  seen = set()
  for k in range(2000):
    u = JaxUUID()
    n = u.as_uuid.int
    ctx.check(n not in seen, f'uuid {n:032x} generated again')
    seen.add(n)
    if k % 20 == 0:
      v = call(jit(u))
      ctx.check(v.as_uuid.int == n and u.as_uuid.int == n,
                f'{n:032x}: changed to {v} and {u}')
    ctx.step()
  ctx.trace('unique')
