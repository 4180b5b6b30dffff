"""Imports and drivers shared by the checks (only active in worker processes)."""
import itertools
import os
from collections import namedtuple
from functools import partial

import numpy as onp

from mc.core import product_dicts, short, tree_diff, Violation  # noqa: F401

WORKER = bool(os.environ.get('MC_WORKER'))

if WORKER:
  import jax
  import jax.numpy as jnp
  from jax import lax, random, tree_util
  # also used with double precision (C24)
  FLOAT = onp.float64 if jax.config.jax_enable_x64 else onp.float32

  from jax_sgmc import data, io, scheduler, solver, integrator, potential
  from jax_sgmc import adaption, alias, util
  from jax_sgmc.data import numpy_loader
  from jax_sgmc.data.numpy_loader import NumpyDataLoader, DeviceNumpyDataLoader

  class ToyHostLoader(data.HostDataLoader):
    """Smallest possible host data loader: counts.

    The t-th batch of chain c contains the values base + 1000 * c + t (times
    different constants for the leaves) such that every batch identifies its
    data loader, its chain and its position in the stream.
    """

    def __init__(self, n_obs=64, base=0, mask='none', n_batches=None,
                 yield_fn=None):
      self.n_obs, self.base, self.mask = n_obs, base, mask
      self.chains = []
      self.calls = []
      self.yield_fn = yield_fn
      self.in_flight = 0

    @property
    def static_information(self):
      return {'observation_count': self.n_obs}

    @property
    def _format(self):
      return {'v': jax.ShapeDtypeStruct(shape=(), dtype=onp.dtype('int32')),
              'w': jax.ShapeDtypeStruct(shape=(2,),
                                        dtype=onp.dtype('float32'))}

    def _register(self, kind, cache_size, mb_size):
      self.chains.append({'kind': kind, 'cache': cache_size, 'mb': mb_size,
                          'pos': 0})
      return len(self.chains) - 1

    def register_random_pipeline(self, cache_size=1, mb_size=None, **kwargs):
      return self._register('random', cache_size, mb_size)

    def register_ordered_pipeline(self, cache_size=1, mb_size=None, **kwargs):
      return self._register('ordered', cache_size, mb_size)

    def batch(self, chain, t, mb):
      """The reference stream."""
      if self.chains[chain]['kind'] == 'ordered':
        n_b = -(-self.n_obs // mb)
        ids = (t % n_b) * mb + onp.arange(mb)
        mask = ids < self.n_obs
        ids = ids % self.n_obs
        vals = self.base + ids
      else:
        vals = self.base + 1000 * chain + 10 * t + onp.arange(mb)
        mask = (onp.arange(mb) + t + chain) % 3 != 0
      if self.mask == 'none':
        mask = onp.ones(mb, dtype=bool)
      return ({'v': vals.astype(onp.int32),
               'w': onp.stack([vals, -2 * vals], axis=-1).astype(onp.float32)},
              mask)

    def get_batches(self, chain_id):
      chain_id = int(chain_id)
      chain = self.chains[chain_id]
      self.calls.append(chain_id)
      pos = chain['pos']
      if self.yield_fn is not None:
        self.yield_fn()
      out = [self.batch(chain_id, pos + k, chain['mb'])
             for k in range(chain['cache'])]
      chain['pos'] = pos + chain['cache']
      batches = {k: onp.stack([b[0][k] for b in out]) for k in out[0][0]}
      if self.mask == 'none':
        return batches, None
      return batches, onp.stack([b[1] for b in out])


def np_tree(tree):
  return tree_util.tree_map(onp.asarray, tree)


def sequences(alphabet, length):
  return itertools.product(alphabet, repeat=length)


def make_dataset(n, variant='std', offset=0):
  """Rows identify the observation in every leaf."""
  i = onp.arange(n) + offset
  if variant == 'std':
    return {'x': (i + 1).astype(onp.int32),
            'y': onp.stack([10. * i + 1, 10. * i + 2], axis=-1
                           ).astype(FLOAT)}
  if variant == 'one':
    return {'x': (i + 1).astype(onp.int32)}
  if variant == 'deep':
    return {'b': (i % 2 == 0), 'a': (i + 1).astype(onp.float32),
            'c': (onp.arange(n * 6) + 6 * offset).reshape(n, 2, 3).astype(
              onp.int16),
            'd': (i * 3 + 1).astype(onp.uint8)}
  raise ValueError(variant)


_h5_count = itertools.count()


def h5_mem():
  """HDF5 file which exists only in memory."""
  import h5py
  return h5py.File(f'mem{os.getpid()}_{next(_h5_count)}.h5', 'w',
                   driver='core', backing_store=False)
