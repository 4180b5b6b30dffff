"""C08: exactly the kept samples are saved by every saving strategy."""
import glob
import json
import shutil
import subprocess
import sys
import tempfile
from collections import namedtuple

from mc.lib import *

PROPERTY = 'C08'
ENV = {'XLA_FLAGS': '--xla_force_host_platform_device_count=3'}
INFO = {
  'rule': ('all sequences of keep decisions are executed through every saving '
           'strategy and collector for a set of sample pytrees, for single '
           'chains (scan, step by step, eager) and for all pairs of sequences '
           'of chains saved one after another, interleaved, with pmap and '
           'vmap; returned samples, counts and the files are compared '
           'with the list of kept samples'),
  'bounds': {'quick': 'sequences <=5 for 6 pytrees and 8 strategies; pairs of '
                      'sequences of length 3, triples of length 2; all '
                      'pairs of pytrees at one collector',
             'thorough': 'sequences <=7; pairs of length 4, triples of length '
                         '3'},
  'assumptions': ['keys of dictionaries are strings without "/"',
                  'asynchronous processing (outfeed) is executed for a subset '
                  'of the cases without controlling its schedule; C09 covers '
                  'the schedules']}

Point = namedtuple('Point', ['z', 'a', 'm'])
STRATEGIES = ['no_save', 'memory', 'npz', 'hdf5', 'json0', 'json1', 'json2',
              'json3']
TREES = ['mixed', 'named', 'bare', 'list', 'wide', 'single']


def cases(tier):
  quick = tier == 'quick'
  out = []
  for strategy in STRATEGIES:
    for tree in TREES:
      out.append(dict(mode='patterns', strategy=strategy, tree=tree,
                      length=(5 if tree in ('mixed', 'named') else 4)
                      if quick else 7))
    for tree in ('mixed', 'named', 'list'):
      out.append(dict(mode='chains', strategy=strategy, tree=tree,
                      length=3 if quick else 4, inter=True))
      out.append(dict(mode='eager', strategy=strategy, tree=tree, length=3))
    out.append(dict(mode='chains', strategy=strategy, tree='mixed',
                    length=2 if quick else 3, inter=False))
    out.append(dict(mode='pmap', strategy=strategy, tree='mixed', devices=2,
                    length=2 if quick else 3))
    if not (quick and strategy in ('json0', 'json2')):
      out.append(dict(mode='pmap', strategy=strategy, tree='named', devices=3,
                      length=2))
  for tree in TREES:
    out.append(dict(mode='vmap', strategy='no_save', tree=tree, chains=2,
                    length=3 if quick else 4))
  out.append(dict(mode='vmap', strategy='no_save', tree='mixed', chains=3,
                  length=2 if quick else 3))
  for strategy in STRATEGIES[1:]:
    for tree in ('mixed', 'named') if strategy == 'memory' else ('mixed',):
      out.append(dict(mode='vmap', strategy=strategy, tree=tree, chains=2,
                      length=3 if strategy == 'memory' or not quick else 2))
  for strategy in ('memory', 'npz', 'json2'):
    out.append(dict(mode='vmap', strategy=strategy, tree='single', chains=3,
                    length=2 if strategy == 'memory' else 1))
  for strategy in ('memory', 'npz', 'hdf5', 'json2'):
    out.append(dict(mode='async', strategy=strategy, tree='mixed'))
  out.append(dict(mode='capacity', tree='mixed'))
  for strategy in ('memory', 'npz', 'hdf5', 'json0', 'json2'):
    out.append(dict(mode='mixed', strategy=strategy, count=2))
    if strategy == 'memory' or not quick:
      out.append(dict(mode='mixed', strategy=strategy, count=3))
  return out


def make_sample(tree, chain, k):
  """The sample of iteration k (k and chain may be tracers)."""
  v = 10 * (jnp.asarray(k, jnp.int32) + 1) + 200 * jnp.asarray(chain, jnp.int32)
  f = v.astype(jnp.float32)
  if tree == 'mixed':
    return {'w': f + 0.5, 'b': jnp.arange(6, dtype=jnp.int32).reshape(2, 3) + v,
            'a': {'flag': v % 20 == 0, 'u': (v // 10).astype(jnp.uint8)}}
  if tree == 'named':
    return Point(z=f, a=jnp.stack([f, -f]), m=[{'q': v + 1}, (f + 2, v - 3)])
  if tree == 'bare':
    return jnp.stack([f, f * 2, -f])
  if tree == 'list':
    return {'l': [f + i for i in range(12)], 'n': None, 'e': []}
  if tree == 'wide':
    return (f.astype(jnp.float16) / 16, jnp.full((2, 1, 2), v, jnp.int16),
            jnp.stack([v % 20 == 0, v % 30 == 0]), v.astype(jnp.uint32) + jnp.uint32(2**31))
  if tree == 'single':
    return {'only': v}
  raise ValueError(tree)


def names_of(tree, sample):
  """The documented names of the leaves in the order of the leaves."""
  def rec(node):
    if node is None:
      return []
    if isinstance(node, dict):
      return [(k,) + p for k in sorted(node) for p in rec(node[k])]
    if hasattr(node, '_fields'):
      return [(k,) + p for k in node._fields for p in rec(getattr(node, k))]
    if isinstance(node, (list, tuple)):
      return [(f'list_element_{i}',) + p for i, x in enumerate(node)
              for p in rec(x)]
    return [()]
  return ['/'.join(p) for p in rec(sample)]


class Store:
  """A saving strategy together with its files."""

  def __init__(self, strategy, tree, wait=False):
    self.strategy, self.tree, self.dir, self.file = strategy, tree, None, None
    self.wait = wait or 'JAX_HOST_CALLBACK_OUTFEED' in os.environ
    if strategy == 'no_save':
      self.fns = io.no_save()
      return
    if strategy == 'memory':
      self.dc = io.MemoryCollector()
    elif strategy == 'hdf5':
      self.file = h5_mem()
      self.dc = io.HDF5Collector(self.file)
    else:
      self.dir = tempfile.mkdtemp(prefix='mc_c08_', dir='/dev/shm' if os.access(
        '/dev/shm', os.W_OK) else None)
      if strategy == 'npz':
        self.dc = io.MemoryCollector(save_dir=self.dir + '/out')
      else:
        self.dc = io.JSONCollector(self.dir + '/out',
                                   write_frequency=int(strategy[4:]))
    self.fns = io.save(self.dc)

  def close(self):
    if self.file is not None:
      self.file.close()
    if self.dir is not None:
      shutil.rmtree(self.dir)

  def start(self, count):
    init = self.fns[0]
    return init(make_sample(self.tree, 0, 0), {'c': jnp.zeros(2)},
                scheduler.static_information(samples_collected=count))

  def finish(self, state):
    res = self.fns[2](state, None)
    if self.strategy.startswith('json') and self.wait:
      # finished() of the JSONCollector is documented not to wait
      from jax.experimental import host_callback
      tree_util.tree_map(lambda x: jnp.asarray(x).block_until_ready(), res)
      jax.effects_barrier()
      host_callback.barrier_wait()
    return res

  def stacked(self, chain, keeps):
    """The kept samples, stacked."""
    kept = [np_tree(make_sample(self.tree, chain, k))
            for k, keep in enumerate(keeps) if keep]
    if not kept:
      return tree_util.tree_map(lambda x: onp.zeros((0,) + x.shape, x.dtype),
                                np_tree(make_sample(self.tree, 0, 0)))
    return tree_util.tree_map(lambda *x: onp.stack(x), *kept)

  def verify_result(self, ctx, res, chain, keeps, what):
    count = sum(keeps)
    ctx.check(int(res['sample_count']) == count,
              f'{what}: sample_count is {res["sample_count"]} instead of '
              f'{count}')
    if self.strategy in ('no_save', 'memory', 'npz'):
      want = self.stacked(chain, keeps)
      got = np_tree(res['samples'])
      why = tree_diff(got, want, dtype=True)
      ctx.check(why is None, f'{what}: returned samples: {why}', got=short(got),
                want=short(want))

  def verify_files(self, ctx, index, chain, keeps, what):
    """index: id of the chain at the collector."""
    want = self.stacked(chain, keeps)
    leaves = tree_util.tree_leaves(want)
    names = names_of(self.tree, make_sample(self.tree, 0, 0))
    count = sum(keeps)
    if self.strategy == 'hdf5':
      for name, leaf in zip(names, leaves):
        path = f'/chain~{index}' + (f'/{name}' if name else '')
        ctx.check(path in self.file, f'{what}: {path} is missing')
        d = self.file[path]
        ctx.check(d.dtype == leaf.dtype, f'{what}: {path} has dtype {d.dtype}')
        ctx.equal(onp.array(d), leaf, f'{what}: HDF5 {path}')
      found = []
      node = self.file[f'/chain~{index}']
      if names != ['']:
        node.visititems(lambda n, o: found.append(n) if hasattr(o, 'shape')
                        else None)
        ctx.check(sorted(found) == sorted(names),
                  f'{what}: HDF5 file contains {sorted(found)}')
    elif self.strategy == 'npz':
      with onp.load(f'{self.dir}/out/chain_{index}.npz') as f:
        if names == ['']:
          ctx.check(len(f.files) == 1, f'{what}: npz contains {f.files}')
          got = [f[f.files[0]]]
        else:
          ctx.check(sorted(f.files) == sorted(names),
                    f'{what}: npz contains {f.files} instead of {names}')
          got = [f[n] for n in names]
      for n, g, w in zip(names, got, leaves):
        ctx.check(g.dtype == w.dtype, f'{what}: npz {n} has dtype {g.dtype}')
        ctx.equal(g, w, f'{what}: npz {n}')
    elif self.strategy.startswith('json'):
      wf = int(self.strategy[4:])
      points = {count} if count else set()
      if wf:
        points |= set(range(wf, count + 1, wf))
      files = {os.path.basename(p) for p in
               glob.glob(f'{self.dir}/out/chain_{index}_*')}
      ctx.check(files == {f'chain_{index}_iteration_{p}.json' for p in points},
                f'{what}: files {sorted(files)} for {count} samples')
      for p in points:
        with open(f'{self.dir}/out/chain_{index}_iteration_{p}.json') as f:
          got = json.load(f)
        ctx.check(len(got) == len(leaves), f'{what}: {len(got)} leaves in json')
        for i, (g, w) in enumerate(zip(got, leaves)):
          ctx.close(onp.asarray(g, w.dtype), w[:p],
                    f'{what}: json with {p} samples, leaf {i}', rtol=1e-5,
                    atol=0)


def run(case, ctx):
  globals()['run_' + case['mode']](case, ctx)


def scan_program(store):
  save = store.fns[1]

  def program(state, chain, keeps):
    def body(state, x):
      k, keep = x
      state, out = save(state, keep, make_sample(store.tree, chain, k))
      return state, None
    return lax.scan(body, state, (jnp.arange(len(keeps)), keeps))[0]
  return jax.jit(program)


def run_patterns(case, ctx):
  """All keep sequences of one chain, many chains at the same collector."""
  store = Store(case['strategy'], case['tree'])
  program = scan_program(store)
  done, index = [], 0
  for length in range(0, case['length'] + 1):
    for keeps in sequences((False, True), length):
      ctx.history = keeps
      what = f'{case} keep={[int(k) for k in keeps]}'
      state = store.start(sum(keeps))
      if length:
        state = program(state, index % 7, jnp.array(keeps, bool))
      res = store.finish(state)
      store.verify_result(ctx, res, index % 7, keeps, what)
      store.verify_files(ctx, index, index % 7, keeps, what)
      done.append((res, index, keeps))
      index += 1
      ctx.step(length)
      ctx.state(case['strategy'], case['tree'], keeps)
      ctx.trace(keeps)
  # earlier results and files are not changed by later chains
  for res, i, keeps in done[::3]:
    store.verify_result(ctx, res, i % 7, keeps, f'{case} later chain {i}')
    store.verify_files(ctx, i, i % 7, keeps, f'{case} later chain {i}')
  store.close()


def run_chains(case, ctx):
  """All pairs of keep sequences of two chains of one collector."""
  store = Store(case['strategy'], case['tree'])
  save = store.fns[1]
  length, index = case['length'], 0
  single = scan_program(store)

  def both(sa, sb, ka, kb):
    def body(s, x):
      k, keep_a, keep_b = x
      a, b = s
      a, _ = save(a, keep_a, make_sample(store.tree, 1, k))
      b, _ = save(b, keep_b, make_sample(store.tree, 2, k))
      return (a, b), None
    return lax.scan(body, (sa, sb), (jnp.arange(length), ka, kb))[0]
  both = jax.jit(both)
  for ka in sequences((False, True), length):
    for kb in sequences((False, True), length):
      what = f'{case} keep={ka} and {kb}'
      ctx.history = (ka, kb)
      sa, sb = store.start(sum(ka)), store.start(sum(kb))
      if case['inter']:
        sa, sb = both(sa, sb, jnp.array(ka), jnp.array(kb))
      else:
        sb = single(sb, 2, jnp.array(kb))
        sa = single(sa, 1, jnp.array(ka))
      # the order of finalizing does not matter
      if index % 4 == 0:
        ra, rb = store.finish(sa), store.finish(sb)
      else:
        rb, ra = store.finish(sb), store.finish(sa)
      store.verify_result(ctx, ra, 1, ka, what + ' first chain')
      store.verify_result(ctx, rb, 2, kb, what + ' second chain')
      store.verify_files(ctx, index, 1, ka, what + ' first chain')
      store.verify_files(ctx, index + 1, 2, kb, what + ' second chain')
      index += 2
      ctx.step(2 * length)
      ctx.state('chains', case['strategy'], case['inter'], ka, kb)
      ctx.trace((ka, kb))
  store.close()


def run_mixed(case, ctx):
  """Chains with different samples at the same collector."""
  base = Store(case['strategy'], 'mixed')
  index, programs = 0, {}
  keep_seqs = ((True, False, True), (False, True, False), (True, True, True))
  for trees in itertools.permutations(TREES, case['count']):
    for shift in range(2):
      what = f'{case} {trees} {shift}'
      ctx.history = (trees, shift)
      stores = []
      for tree in trees:
        store = Store.__new__(Store)
        store.__dict__.update(base.__dict__, tree=tree)
        stores.append(store)
        if tree not in programs:
          programs[tree] = scan_program(store)
      keeps = [keep_seqs[(i + shift) % 3] for i in range(len(trees))]
      states = [s.start(sum(k)) for s, k in zip(stores, keeps)]
      order = list(range(len(trees)))
      for i in order[::-1] if shift else order:
        states[i] = programs[trees[i]](states[i], i, jnp.array(keeps[i]))
      res = [s.finish(st) for s, st in zip(stores, states)]
      for i, (s, r, k) in enumerate(zip(stores, res, keeps)):
        s.verify_result(ctx, r, i, k, f'{what} chain {i}')
        s.verify_files(ctx, index + i, i, k, f'{what} chain {i}')
      index += len(trees)
      ctx.step(3 * len(trees))
      ctx.state('mixed', case['strategy'], trees)
      ctx.trace((trees, shift))
  base.close()


def run_eager(case, ctx):
  """Step by step: jit-compiled steps, eager steps and steps without jit."""
  store = Store(case['strategy'], case['tree'])
  save, index = store.fns[1], 0
  step = jax.jit(lambda s, keep, k: save(s, keep, make_sample(
    store.tree, 3, k))[0])
  for mode in ('jit', 'eager', 'disabled'):
    for keeps in sequences((False, True), case['length']):
      what = f'{case} {mode} keep={keeps}'
      ctx.history = (mode, keeps)
      state = store.start(sum(keeps))
      for k, keep in enumerate(keeps):
        smp = make_sample(store.tree, 3, k)
        if mode == 'jit':
          state = step(state, keep, k)
        elif mode == 'eager':
          state, _ = save(state, jnp.array(keep), smp)
        else:
          with jax.disable_jit():
            state, _ = save(state, jnp.array(keep), smp)
        ctx.step()
      res = store.finish(state)
      store.verify_result(ctx, res, 3, keeps, what)
      store.verify_files(ctx, index, 3, keeps, what)
      index += 1
      ctx.state(mode, case['strategy'], keeps)
      ctx.trace((mode, keeps))
  store.close()


def run_pmap(case, ctx):
  """One chain per device."""
  d, length = case['devices'], case['length']
  store = Store(case['strategy'], case['tree'], wait=True)
  save, index = store.fns[1], 0

  def program(state, chain, keeps):
    def body(state, x):
      k, keep = x
      return save(state, keep, make_sample(store.tree, chain, k))[0], None
    return lax.scan(body, state, (jnp.arange(length), keeps))[0]
  fn = jax.pmap(program, devices=jax.devices()[:d])
  pats = list(sequences((False, True), length))
  for combo in sequences(pats, d):
    ctx.history = combo
    what = f'{case} {combo}'
    counts = [sum(k) for k in combo]
    if case['strategy'] == 'no_save':
      # the buffers of all chains need the same size
      if len(set(counts)) != 1:
        continue
    states = [store.start(c) for c in counts]
    stack = tree_util.tree_map(lambda *x: jnp.stack([jnp.asarray(y) for y in x]),
                               *states)
    out = fn(stack, jnp.arange(d), jnp.array(combo, bool))
    for i in range(d):
      state = tree_util.tree_map(lambda x: x[i], out)
      res = store.finish(state)
      store.verify_result(ctx, res, i, combo[i], f'{what} device {i}')
      store.verify_files(ctx, index + i, i, combo[i], f'{what} device {i}')
    index += d
    ctx.step(d * length)
    ctx.state('pmap', case['strategy'], combo)
    ctx.trace(combo)
  store.close()


def run_vmap(case, ctx):
  c, length = case['chains'], case['length']
  store = Store(case['strategy'], case['tree'], wait=True)
  save, index = store.fns[1], 0

  def program(state, chain, keeps):
    def body(state, x):
      k, keep = x
      return save(state, keep, make_sample(store.tree, chain, k))[0], None
    return lax.scan(body, state, (jnp.arange(length), keeps))[0]
  fn = jax.jit(jax.vmap(program))
  pats = list(sequences((False, True), length))
  for combo in sequences(pats, c):
    if len({sum(k) for k in combo}) != 1 and case['strategy'] == 'no_save':
      continue
    ctx.history = combo
    states = [store.start(sum(k)) for k in combo]
    stack = tree_util.tree_map(lambda *x: jnp.stack([jnp.asarray(y) for y in x]),
                               *states)
    out = fn(stack, jnp.arange(c), jnp.array(combo, bool))
    for i in range(c):
      res = store.finish(tree_util.tree_map(lambda x: x[i], out))
      store.verify_result(ctx, res, i, combo[i], f'{case} {combo} chain {i}')
      store.verify_files(ctx, index + i, i, combo[i], f'{case} {combo} chain '
                                                      f'{i}')
    index += c
    ctx.step(c * length)
    ctx.state('vmap', case['tree'], case['strategy'], combo)
    ctx.trace(combo)
  store.close()


def run_capacity(case, ctx):
  """More samples are announced than kept."""
  for strategy in ('no_save', 'memory', 'npz', 'hdf5'):
    store = Store(strategy, case['tree'])
    program = scan_program(store)
    for i, keeps in enumerate(sequences((False, True), 3)):
      what = f'{strategy} capacity 5, keep={keeps}'
      res = store.finish(program(store.start(5), 1, jnp.array(keeps)))
      ctx.check(int(res['sample_count']) == sum(keeps), f'{what}: sample_count '
                f'{res["sample_count"]}')
      want = store.stacked(1, keeps)
      if strategy != 'hdf5':
        got = tree_util.tree_map(lambda x: onp.asarray(x)[:sum(keeps)],
                                 res['samples'])
        ctx.equal(got, want, f'{what}: samples')
      else:
        got = onp.array(store.file[f'/chain~{i}/w'])[:sum(keeps)]
        ctx.equal(got, want['w'], f'{what}: HDF5')
      ctx.trace((strategy, keeps), steps=3)
    store.close()


def run_async(case, ctx):
  """Processing of the samples in a separate thread (outfeed)."""
  env = dict(os.environ, JAX_HOST_CALLBACK_OUTFEED='1')
  code = ('import sys, json\n'
          'from mc.checks import c08\nfrom mc import core\n'
          'res = []\n'
          'for mode in ("chains", "patterns"):\n'
          '  case = dict(json.loads(sys.argv[1]), mode=mode, length=3, '
          'inter=True)\n'
          '  r = core.run_case(c08, case, "quick", [])\n'
          '  res.append([r["violation"], r["traces"], r["transitions"]])\n'
          'print("RESULT" + json.dumps(res))\n'
          'sys.stdout.flush()\n'
          'import os; os._exit(0)\n')
  res = subprocess.run([sys.executable, '-c', code, json.dumps(case)], env=env,
                       capture_output=True, text=True, timeout=250,
                       cwd=os.path.dirname(os.path.dirname(os.path.dirname(
                         os.path.abspath(__file__)))))
  lines = [l for l in res.stdout.splitlines() if l.startswith('RESULT')]
  ctx.check(len(lines) == 1, f'{case}: run with asynchronous callbacks ends '
                             f'with {res.returncode}: {res.stderr[-1500:]}')
  for violation, traces, steps in json.loads(lines[0][6:]):
    ctx.check(violation is None, f'{case} asynchronous: {violation}')
    ctx.trace('async', steps=steps)
    ctx.note('async_histories', traces)
