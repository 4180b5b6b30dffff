"""C06: checkpoints of the numpy data loader restore the stream exactly."""
import math
import pickle
from copy import deepcopy

from mc.lib import *

PROPERTY = 'C06'
INFO = {
  'rule': ('explicit-state exploration: from every start position all '
           'sequences of draw / save / load(first or latest checkpoint into '
           'either chain) over two chains are executed on the real data '
           'loader (depth first, states copied); every batch is compared with '
           'the reference stream at the position given by the model; after '
           'each history all checkpoints are restored in the chains and in a '
           'new data loader and the rest of the epoch is drawn'),
  'bounds': {'quick': 'depth 3 from every start position <= 2 epochs + 1, '
                      'depth 4 from selected ones, N<=5, batch<=3, cache<=2',
             'thorough': 'depth 4 from every start position, depth 5 from '
                         'selected ones, N<=7, batch<=4, cache<=3'},
  'assumptions': ['checkpoints are restored into chains registered with the '
                  'same pipeline, batch size and cache size']}

KW = {'shuffle': dict(shuffle=True),
      'epochs': dict(shuffle=True, in_epochs=True), 'draw': {}}
PAIRS = [('shuffle', 'shuffle'), ('epochs', 'epochs'), ('draw', 'draw'),
         ('ordered', 'ordered'), ('shuffle', 'ordered'), ('epochs', 'draw')]


def cases(tier):
  quick = tier == 'quick'
  out = []
  sizes = [(5, 2, 1), (4, 3, 2), (3, 1, 1)] if quick else [
    (5, 2, 1), (4, 3, 2), (3, 1, 1), (7, 3, 1), (7, 4, 3), (6, 2, 3),
    (5, 5, 1), (4, 1, 2)]
  for n, mb, cache in sizes:
    nb = math.ceil(n / mb)
    for kinds in PAIRS:
      top = 2 * nb + 1
      for start in range(0, top + 1):
        deep = start in (0, nb)
        out.append(dict(n=n, mb=mb, cache=cache, kinds=kinds, start=start,
                        raw=(start + cache) % 2 == 0 or deep,
                        depth=(4 if deep and kinds[0] != 'draw' else 3)
                        if quick else (5 if deep else 4)))
      if quick:
        out.append(dict(n=n, mb=mb, cache=cache, kinds=kinds, start=1,
                        raw=False, depth=3))
  for kinds in PAIRS:
    out.append(dict(n=9, mb=4, cache=1, kinds=kinds, start=0, raw=True,
                    depth=0, long=True))
  # late positions
  for kinds in PAIRS[:4]:
    for n, mb, cache, far in ((9, 4, 1, 420), (300, 1, 7, 90), (600, 7, 1, 150)):
      out.append(dict(n=n, mb=mb, cache=cache, kinds=kinds, start=0, raw=False,
                      depth=0, long=True, far=far))
  return out


def register(loader, kind, mb, cache, **kw):
  if kind == 'ordered':
    return loader.register_ordered_pipeline(cache_size=cache, mb_size=mb)
  return loader.register_random_pipeline(cache_size=cache, mb_size=mb,
                                         **KW[kind], **kw)


def fetch(loader, chain):
  b, m = loader.get_batches(chain)
  return (tuple(sorted((k, onp.asarray(v).tobytes()) for k, v in b.items())),
          onp.asarray(m).tobytes())


class Explorer:

  def __init__(self, case, ctx):
    self.case, self.ctx = case, ctx
    self.n, self.mb, self.cache = case['n'], case['mb'], case['cache']
    self.kinds, self.raw = case['kinds'], case['raw']
    self.horizon = case['start'] + 3 * math.ceil(self.n / self.mb) + 12
    if case.get('long'):
      self.horizon = case.get('far', 20) + 40
    self.ref = []
    for c, kind in enumerate(self.kinds):
      loader = NumpyDataLoader(**make_dataset(self.n, 'one'))
      for k in self.kinds[:c + 1]:
        chain = register(loader, k, self.mb, self.cache)
      self.ref.append([fetch(loader, chain) for _ in range(self.horizon)])

  def fresh(self, seeds=False):
    loader = NumpyDataLoader(**make_dataset(self.n, 'one'))
    for c, k in enumerate(self.kinds):
      kw = {} if k == 'ordered' or not seeds else dict(seed=90 + c)
      register(loader, k, self.mb, self.cache, **kw)
    return loader

  def expect(self, loader, chain, src, pos, what):
    self.ctx.check(fetch(loader, chain) == self.ref[src][pos],
                   f'{self.case}: {what}: chain {chain} does not return batch '
                   f'{pos} of the stream of chain {src}')
    self.ctx.step()

  def keep(self, ckpt):
    return ckpt if self.raw else pickle.loads(pickle.dumps(ckpt))

  def finish(self, loader, model, ckpts, hist):
    """The state after a history: all streams continue as predicted."""
    ctx = self.ctx
    ctx.history = hist
    self.ctx.trace(hist)
    nb = max(2, -(-math.ceil(self.n / self.mb) // self.cache) + 1)
    for c in (0, 1):
      src, pos = model[c]
      for k in range(nb):
        self.expect(loader, c, src, pos + k, f'{hist} then draws')
    for i, (src, pos, ckpt) in enumerate(ckpts):
      new = self.fresh(seeds=True)
      other = 1 - src
      for c in ([0, 1] if self.kinds[0] == self.kinds[1] else [src]):
        new.load_state(c, ckpt)
        for k in range(2):
          self.expect(new, c, src, pos + k,
                      f'{hist} checkpoint {i} in a new data loader')
        # once more, and in the loader which saved it
        for ld in (new, loader):
          ld.load_state(c, ckpt)
          for k in range(2):
            self.expect(ld, c, src, pos + k, f'{hist} checkpoint {i} again')

  def dfs(self, loader, model, ckpts, depth, hist):
    ctx = self.ctx
    ctx.state(self.kinds, self.n, self.mb, self.cache, tuple(model),
              tuple((s, p) for s, p, _ in ckpts))
    if depth == 0:
      self.finish(loader, model, ckpts, hist)
      return
    ops = [('draw', 0), ('draw', 1), ('save', 0), ('save', 1)]
    which = sorted({0, len(ckpts) - 1}) if ckpts else []
    for i in which:
      for c in (0, 1):
        if self.kinds[c] == self.kinds[ckpts[i][0]]:
          ops.append(('load', c, i))
    for op in ops:
      # the checkpoints are copied together with the loader to keep aliasing
      ld, cks = deepcopy((loader, ckpts))
      mod = list(model)
      h = hist + [op]
      ctx.history = h
      if op[0] == 'draw':
        src, pos = mod[op[1]]
        self.expect(ld, op[1], src, pos, h)
        mod[op[1]] = (src, pos + 1)
      elif op[0] == 'save':
        src, pos = mod[op[1]]
        # where a restored stream was continued, it is saved again
        cks.append((src, pos, self.keep(ld.save_state(op[1]))))
        ctx.step()
      else:
        src, pos, ckpt = cks[op[2]]
        ld.load_state(op[1], ckpt)
        mod[op[1]] = (src, pos)
        ctx.step()
      self.dfs(ld, mod, cks, depth - 1, h)


def run(case, ctx):
  case['kinds'] = tuple(case['kinds'])
  ex = Explorer(case, ctx)
  loader = ex.fresh()
  if case.get('long'):
    # save at every position, restore in both directions at the end
    ckpts = []
    far = case.get('far', 20)
    for pos in range(far):
      for c in (0, 1):
        ckpts.append((c, pos, ex.keep(loader.save_state(c))))
        ex.expect(loader, c, c, pos, f'draw {pos}')
    if far > 20:
      ckpts = ckpts[::9] + ckpts[-4:]
    for order in (ckpts, ckpts[::-1]):
      for src, pos, ckpt in order:
        ctx.history = f'restore position {pos} of chain {src}'
        loader.load_state(src, ckpt)
        for k in range(12):
          ex.expect(loader, src, src, pos + k, 'restored stream')
        ctx.state('long', case['kinds'], src, pos)
      ctx.trace()
    return
  model = [(0, 0), (1, 0)]
  for p in range(case['start']):
    ex.expect(loader, 0, 0, p, 'start')
  model[0] = (0, case['start'])
  ex.dfs(loader, model, [], case['depth'], [('start', case['start'])])
