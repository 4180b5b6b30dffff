"""C09: finished() returns only after all samples of the chain are stored."""
import shutil
import tempfile

if __import__('os').environ.get('MC_WORKER'):
  from mc import sched
  sched.install()
from mc.lib import *

PROPERTY = 'C09'
INFO = {
  'rule': ('all schedules, up to a preemption bound and with preemption '
           'before each source line of jax_sgmc/io.py and at each lock '
           'operation, of threads that save and finalize chains and threads '
           'that wait for them; the stored samples are read the moment '
           'finished() returns; deadlocks are detected by the scheduler'),
  'bounds': {'quick': '<=3 chains, <=4 threads, <=3 samples per chain, 2-3 '
                      'preemptions (2 threads), 1-2 (3 threads), 1 (4 '
                      'threads)',
             'thorough': '3-4 preemptions (2 threads), 3 (3 threads), 2 (4 '
                         'threads)'},
  'assumptions': ['calls into numpy and h5py are atomic',
                  'chains are registered by one thread at a time']}


def cases(tier):
  quick = tier == 'quick'
  out = []
  for kind in ('npz', 'memory', 'hdf5'):
    for late in (False, True):
      out.append(dict(kind=kind, chains=[2], waiters=[[0, 0]], late=late,
                      bound=3 if quick else 4))
    out.append(dict(kind=kind, chains=[1], waiters=[[0], [0, 0]],
                    bound=2 if quick else 3))
    out.append(dict(kind=kind, chains=[0], waiters=[[0]],
                    bound=3 if quick else 4))
    out.append(dict(kind=kind, chains=[1, 0], waiters=[[1, 0]],
                    bound=2 if quick else 3))
    out.append(dict(kind=kind, chains=[2, 1], waiters=[[1, 0]],
                    bound=1 if quick else 3))
    out.append(dict(kind=kind, chains=[1, 1], waiters=[[0], [1, 0]],
                    bound=1 if quick else 2))
    out.append(dict(kind=kind, chains=[1, 2], waiters=[[0, 1], [1]],
                    bound=1 if quick else 2))
    out.append(dict(kind=kind, chains=[1, 1, 1], waiters=[[2, 0, 1]],
                    bound=1 if quick else 2))
    # one thread saves several chains, alternating
    out.append(dict(kind=kind, chains=[2, 2], waiters=[[1, 0]], single=True,
                    bound=2 if quick else 3))
    out.append(dict(kind=kind, chains=[2], waiters=[], register=True,
                    bound=1 if quick else 2))
    out.append(dict(kind=kind, api=True, chains=[2, 2], waiters=[], bound=1
                    if quick else 2))
    out.append(dict(kind=kind, api=True, chains=[1], waiters=[[0, 0]],
                    bound=1))
  return out


def sample(chain, k):
  return {'a': onp.float32(100 * chain + k + 1),
          'b': [onp.arange(3, dtype=onp.int32) + 1000 * chain + 10 * k + 1]}


INIT = None


def expected(chain, count):
  s = [sample(chain, k) for k in range(count)]
  if not s:
    return {'a': onp.zeros(0, onp.float32),
            'b': [onp.zeros((0, 3), onp.int32)]}
  return {'a': onp.stack([x['a'] for x in s]),
          'b': [onp.stack([x['b'][0] for x in s])]}


class System:

  def __init__(self, kind, counts, tmp):
    self.kind, self.counts = kind, list(counts)
    self.dir = None
    if kind == 'hdf5':
      self.file = h5_mem()
      self.dc = io.HDF5Collector(self.file)
    elif kind == 'npz':
      self.dir = tempfile.mkdtemp(dir=tmp)
      self.dc = io.MemoryCollector(save_dir=self.dir)
    else:
      self.dc = io.MemoryCollector()
    self.ids = []

  def static(self, count):
    return scheduler.static_information(samples_collected=count)

  def register(self, count):
    chain = self.dc.register_chain(
      init_sample=sample(0, 0), init_checkpoint={},
      static_information=self.static(count))
    self.ids.append(chain)
    return chain

  def save(self, chain, k):
    s = sample(chain, k)
    self.dc.save(chain, [s['a'], s['b'][0]])

  def read(self, chain, returned):
    """Everything that is stored for a chain at the moment."""
    out = {}
    if self.kind == 'hdf5':
      out['file'] = {'a': onp.array(self.file[f'/chain~{chain}/a']),
                     'b': [onp.array(
                       self.file[f'/chain~{chain}/b/list_element_0'])]}
    else:
      out['returned'] = tree_util.tree_map(onp.array, returned)
    if self.kind == 'npz':
      with onp.load(f'{self.dir}/chain_{chain}.npz') as f:
        out['file'] = {'a': f['a'], 'b': [f['b/list_element_0']]}
    return out

  def close(self):
    if self.kind == 'hdf5':
      self.file.close()


def run(case, ctx):
  tmp = tempfile.mkdtemp(prefix='mc_c09_', dir='/dev/shm' if os.access(
    '/dev/shm', os.W_OK) else None)
  try:
    if case.get('api'):
      run_api(case, ctx, tmp)
    else:
      run_direct(case, ctx, tmp)
  finally:
    shutil.rmtree(tmp)


def explore(case, ctx, make, box, tmp):
  def verify(s):
    what = f'{case} schedule {s.trace}'
    ctx.history = s.trace
    ctx.check(s.deadlock is None, f'{what}: {s.deadlock}')
    for t in s.tasks:
      ctx.check(t.error is None, f'{what}: thread {t.index}: {t.error!r}')
      for chain, count, got in t.result or []:
        for where, value in got.items():
          ctx.equal(value, expected(chain, count),
                    f'{what}: finished({chain}) returned before all samples '
                    f'were stored ({where})')
    box['sys'].close()
    if box['sys'].dir:
      shutil.rmtree(box['sys'].dir)
    ctx.state(str(case), tuple(s.positions))
    ctx.trace(s.trace)
  runs, points = sched.schedules(make, verify, case['bound'],
                                 files=('jax_sgmc/io.py',))
  ctx.schedules += runs
  ctx.step(points)


def run_direct(case, ctx, tmp):
  box = {}

  def make():
    sys_ = box['sys'] = System(case['kind'], case['chains'], tmp)
    for count in case['chains']:
      sys_.register(count)

    def worker(chain, count):
      def body():
        for k in range(count):
          sys_.save(chain, k)
        sys_.dc.finalize(chain)
      return body

    def interleaved():
      for k in range(max(case['chains'])):
        for chain, count in enumerate(case['chains']):
          if k < count:
            sys_.save(chain, k)
      for chain in range(len(case['chains'])):
        sys_.dc.finalize(chain)

    def waiter(chains):
      def body():
        out = []
        for chain in chains:
          returned = sys_.dc.finished(chain)
          out.append((chain, sys_.counts[chain], sys_.read(chain, returned)))
        return out
      return body

    def registers():
      # further chains are registered while others are still saving
      out = []
      for count in (1, 2):
        chain = sys_.register(count)
        for k in range(count):
          sys_.save(chain, k)
        sys_.dc.finalize(chain)
        returned = sys_.dc.finished(chain)
        out.append((chain, count, sys_.read(chain, returned)))
      returned = sys_.dc.finished(0)
      out.append((0, sys_.counts[0], sys_.read(0, returned)))
      return out
    fns = [waiter(w) for w in case['waiters']]
    if case.get('single'):
      fns.append(interleaved)
    else:
      fns += [worker(c, n) for c, n in enumerate(case['chains'])]
    if case.get('register'):
      fns.append(registers)
    if case.get('late'):
      fns = fns[::-1]
    return fns
  explore(case, ctx, make, box, tmp)


def run_api(case, ctx, tmp):
  """The same through the functions returned by io.save."""
  box = {}
  template = tree_util.tree_map(jnp.asarray, sample(0, 0))

  def make():
    sys_ = box['sys'] = System(case['kind'], case['chains'], tmp)
    init, save, post = io.save(sys_.dc)

    def step(state, chain, k):
      smp = {'a': jnp.float32(100 * chain + k + 1),
             'b': [jnp.arange(3, dtype=jnp.int32) + 1000 * chain + 10 * k + 1]}
      with jax.disable_jit():
        return save(state, True, smp)[0]
    states = [init(template, {}, sys_.static(n)) for n in case['chains']]

    def worker(chain, count):
      def body():
        state = states[chain]
        for k in range(count):
          state = step(state, chain, k)
        with jax.disable_jit():
          res = post(state, None)
        if int(res['sample_count']) != count:
          raise AssertionError(f"sample_count {res['sample_count']}")
        return [(chain, count, sys_.read(chain, res['samples']))]
      return body

    def waiter(chains):
      def body():
        out = []
        for chain in chains:
          returned = sys_.dc.finished(chain)
          out.append((chain, sys_.counts[chain], sys_.read(chain, returned)))
        return out
      return body
    return ([worker(c, n) for c, n in enumerate(case['chains'])] +
            [waiter(w) for w in case['waiters']])
  explore(case, ctx, make, box, tmp)
