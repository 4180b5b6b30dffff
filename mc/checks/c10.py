"""C10: conversion of pytrees to dictionaries is lossless and names each leaf."""
from collections import OrderedDict, defaultdict

from mc.lib import *

PROPERTY = 'C10'
INFO = {
  'rule': ('all pytrees of a grammar of nodes (dict, OrderedDict, list, tuple, '
           'namedtuples with unsorted fields, nodes with and without registered '
           'rules, None and empty containers) up to a depth and arity are '
           'converted, restored and compared with the key paths of a reference '
           'implementation; all subtrees are restored on their own'),
  'bounds': {'quick': 'all trees of depth 2 and arity <=2 over 9 node types; '
                      'depth 3 for chains of nodes; containers with up to 130 '
                      'elements; all sets of <=3 keys out of 27', 'thorough': 'additionally arity 3 and all '
                      'trees of depth 3 with one nested child'},
  'assumptions': ['keys of dictionaries are strings']}

NT = namedtuple('NT', ['z', 'a'])
NT1 = namedtuple('NT1', ['only'])
NT3 = namedtuple('NT3', ['m', 'z', 'b'])
Long = namedtuple('Long', [f'f{(7 * i) % 13}' for i in range(13)])


class Pair:
  """Node with a rule."""

  def __init__(self, left, right):
    self.left, self.right = left, right


class SubPair(Pair):
  """Inherits from a node with a rule."""


class Plain:
  """Node without a rule."""

  def __init__(self, one, two):
    self.one, self.two = one, two


class Many(Plain):
  """Node without a rule and with any number of children."""

  def __init__(self, *items):
    self.items = items


if WORKER:
  tree_util.register_pytree_node(
    Many, lambda p: (p.items, None), lambda _, c: Many(*c))
  tree_util.register_pytree_node(
    Pair, lambda p: ((p.right, p.left), None),
    lambda _, c: Pair(c[1], c[0]))
  tree_util.register_pytree_node(
    SubPair, lambda p: ((p.left, p.right), None),
    lambda _, c: SubPair(c[0], c[1]))
  tree_util.register_pytree_node(
    Plain, lambda p: ((p.one, p.two), None), lambda _, c: Plain(*c))

  @io.register_dictionize_rule(Pair)
  def _pair_rule(node):
    return (('left', node.left), ('right', node.right))

CONS = {
  'dict1': (1, lambda a: {'b': a}), 'list1': (1, lambda a: [a]),
  'tuple1': (1, lambda a: (a,)), 'nt1': (1, NT1),
  'dict2': (2, lambda a, b: {'b': a, 'a': b}),
  'odict2': (2, lambda a, b: OrderedDict([('q', a), ('c', b)])),
  'list2': (2, lambda a, b: [a, b]), 'tuple2': (2, lambda a, b: (a, b)),
  'nt2': (2, NT), 'pair': (2, Pair), 'plain': (2, Plain),
  'subpair': (2, SubPair),
  'dict3': (3, lambda a, b, c: {'x': a, 'B': b, 'a': c}),
  'list3': (3, lambda a, b, c: [a, b, c]),
  'tuple3': (3, lambda a, b, c: (a, b, c)), 'nt3': (3, NT3)}
UNARY = ['dict1', 'list1', 'tuple1', 'nt1']
BINARY = ['dict2', 'odict2', 'list2', 'tuple2', 'nt2', 'pair', 'plain',
          'subpair']
TERNARY = ['dict3', 'list3', 'tuple3', 'nt3']
ATOMS = ['leaf', 'none', 'list0', 'dict0', 'tuple0']


def build(desc, counter):
  """Builds the tree; the leaves are unique objects."""
  if isinstance(desc, str):
    if desc == 'leaf':
      i = next(counter)
      return [float(i), i, bool(i % 2), str(i), onp.arange(i % 3 + 1) + i][i % 5]
    return {'none': None, 'list0': [], 'dict0': {}, 'tuple0': ()}[desc]
  cons = CONS[desc[0]][1]
  return cons(*[build(c, counter) for c in desc[1:]])


def children(node):
  """Reference: named children of a node in the order of its leaves."""
  if node is None:
    return []
  if isinstance(node, OrderedDict):
    return list(node.items())
  if isinstance(node, dict):
    return [(k, node[k]) for k in sorted(node)]
  if hasattr(node, '_fields'):
    return list(zip(node._fields, node))
  if isinstance(node, (list, tuple)):
    return [(f'list_element_{i}', c) for i, c in enumerate(node)]
  if isinstance(node, SubPair):
    return [('left', node.left), ('right', node.right)]
  if isinstance(node, Pair):
    return [('right', node.right), ('left', node.left)]
  return 'leaf'


def reference(node, path=()):
  """[(path, leaf)] in the order of the leaves; None below unknown nodes."""
  if isinstance(node, Plain):
    leaves = tree_util.tree_leaves(node)
    return [(path + (None,), leaf) for leaf in leaves]
  ch = children(node)
  if isinstance(ch, str):
    return [(path, node)]
  return [x for name, c in ch for x in reference(c, path + (name,))]


def subtrees(node, path=()):
  """All subtrees below nodes with known names."""
  yield path, node
  if isinstance(node, Plain):
    return
  ch = children(node)
  if not isinstance(ch, str):
    for name, c in ch:
      yield from subtrees(c, path + (name,))


def follow(d, path):
  for key in path:
    d = d[key]
  return d


def same(a, b):
  """Equal structure and identical leaves."""
  la, ta = tree_util.tree_flatten(a)
  lb, tb = tree_util.tree_flatten(b)
  return ta == tb and len(la) == len(lb) and all(
    x is y for x, y in zip(la, lb))


def verify(ctx, tree, what):
  ref = reference(tree)
  leaves, treedef = tree_util.tree_flatten(tree)
  as_dict = io.pytree_to_dict(tree)
  # the tree is not modified
  ctx.check(tree_util.tree_structure(tree) == treedef and same(
    tree, tree_util.tree_unflatten(treedef, leaves)),
            f'{what}: the tree has been changed')
  keys = io.pytree_dict_keys(tree)
  ctx.check(len(keys) == len(leaves), f'{what}: {len(keys)} keys for '
                                      f'{len(leaves)} leaves')
  ctx.check(len(set(map(tuple, keys))) == len(keys),
            f'{what}: key paths are not distinct: {keys}')
  for key, leaf, (path, ref_leaf) in zip(keys, leaves, ref):
    assert leaf is ref_leaf
    try:
      found = follow(as_dict, key)
    except (KeyError, TypeError, IndexError) as err:
      ctx.fail(f'{what}: cannot follow {key} in {short(as_dict)}: {err!r}')
    ctx.check(found is leaf, f'{what}: {key} leads to {found!r} instead of '
                             f'{leaf!r} in {short(as_dict)}')
    if None in path:
      known = path[:-1]
      ctx.check(tuple(key[:len(known)]) == known and len(key) > len(known),
                f'{what}: key {key} of the leaf below {known}')
    else:
      ctx.check(tuple(key) == path, f'{what}: leaf {leaf!r} has key {key} '
                                    f'instead of {path}')
  # nested dictionaries contain nothing else than the leaves
  count = [0]

  def walk(node):
    if isinstance(node, dict):
      for k, v in node.items():
        ctx.check(isinstance(k, str), f'{what}: key {k!r} in dict')
        walk(v)
    elif len(tree_util.tree_leaves(node)):
      count[0] += 1
      ctx.check(any(node is leaf for leaf in leaves),
                f'{what}: {node!r} is not a leaf')
  walk(as_dict)
  ctx.check(count[0] == len(leaves), f'{what}: dict has {count[0]} leaves')
  back = io.dict_to_pytree(as_dict, tree)
  ctx.check(same(back, tree), f'{what}: restored tree is {short(back)}')
  for path, sub in subtrees(tree):
    if not tree_util.tree_leaves(sub):
      continue
    got = io.dict_to_pytree(follow(as_dict, path), sub)
    ctx.check(same(got, sub), f'{what}: subtree {path} is {short(got)}')
  ctx.step(3)


def cases(tier):
  quick = tier == 'quick'
  out = []
  for top in BINARY:
    for first in ['atom'] + UNARY + BINARY:
      out.append(dict(mode='depth2', top=top, first=first))
  for top in UNARY:
    out.append(dict(mode='unary', top=top))
  for top in TERNARY:
    out.append(dict(mode='ternary', top=top, nested=1 if quick else 2))
  out.append(dict(mode='long'))
  out.append(dict(mode='rules'))
  out.append(dict(mode='keys', inner=False))
  out.append(dict(mode='keys', inner=True))
  if not quick:
    for top in UNARY + BINARY:
      for mid in UNARY + BINARY:
        out.append(dict(mode='depth3', top=top, mid=mid))
  else:
    for top in UNARY + BINARY:
      out.append(dict(mode='chain', top=top))
  return out


def level1(cons=None):
  for c in (UNARY + BINARY if cons is None else [cons]):
    for args in sequences(ATOMS, CONS[c][0]):
      yield (c,) + args


def one(ctx, desc):
  tree = build(desc, itertools.count(1))
  ctx.history = desc
  verify(ctx, tree, f'{short(repr(desc), 200)}')
  ctx.state(desc)
  ctx.trace(desc)


def run(case, ctx):
  mode = case['mode']
  if mode == 'depth2':
    top, first = case['top'], case['first']
    firsts = ATOMS if first == 'atom' else list(level1(first))
    seconds = ATOMS + list(level1())
    if ctx.tier == 'quick':
      # the second child: all nodes, but not all combinations of their children
      seconds = ATOMS + [d for d in level1() if d[1] in ('leaf', 'none')
                         and d[-1] in ('leaf', 'list0')]
    for a in firsts:
      for b in seconds:
        one(ctx, (top, a, b))
        if not isinstance(b, str) and first == 'atom':
          one(ctx, (top, b, a))
  elif mode == 'unary':
    for a in ATOMS:
      one(ctx, a)
      one(ctx, (case['top'], a))
    for a in level1():
      one(ctx, (case['top'], a))
      for other in UNARY:
        one(ctx, (other, (case['top'], a)))
  elif mode == 'ternary':
    top = case['top']
    inner = [(c,) + ('leaf',) * CONS[c][0] for c in UNARY + BINARY + TERNARY]
    pool = ATOMS + inner
    for args in sequences(pool, 3):
      if sum(not isinstance(a, str) for a in args) <= case['nested'] + 1:
        one(ctx, (top,) + args)
  elif mode == 'chain':
    for m in UNARY + BINARY:
      for low in level1():
        for pos in range(CONS[case['top']][0]):
          for pos2 in range(CONS[m][0]):
            inner = ['leaf'] * CONS[m][0]
            inner[pos2] = low
            outer = ['leaf'] * CONS[case['top']][0]
            outer[pos] = (m, *inner)
            one(ctx, (case['top'], *outer))
  elif mode == 'depth3':
    top, mid = case['top'], case['mid']
    for low in level1():
      for rest in sequences(ATOMS + [('nt2', 'leaf', 'leaf')],
                            CONS[mid][0] - 1):
        for pos2 in range(CONS[mid][0]):
          inner = list(rest)
          inner.insert(pos2, low)
          for other in (['leaf', ('dict2', 'leaf', 'none')]
                        if CONS[top][0] == 2 else [None]):
            for pos in range(CONS[top][0]):
              outer = [] if other is None else [other]
              outer.insert(pos, (mid, *inner))
              one(ctx, (top, *outer))
  elif mode == 'long':
    run_long(ctx)
  elif mode == 'keys':
    run_keys(case, ctx)
  else:
    run_rules(ctx)


def run_long(ctx):
  """Long containers: the order of the names differs from the numerical."""
  for n in list(range(0, 34)) + [99, 100, 101, 130]:
    def leaves():
      return [onp.full(1, i) for i in range(n)]
    trees = {'list': leaves(), 'tuple': tuple(leaves()),
             'nested': {'a': [leaves(), 1.0], 'Z': tuple(leaves())},
             'lists': [[x, {'k': (x + 1,)}] for x in leaves()],
             'gaps': [None if i % 3 == 0 else x for i, x in
                      enumerate(leaves())],
             'keys': {str(i): x for i, x in enumerate(leaves())},
             'unknown': Many(*leaves()),
             'unknowns': [Many(*leaves()), {'m': Many(leaves(), None)}]}
    for name, tree in trees.items():
      ctx.history = (name, n)
      verify(ctx, tree, f'{name} of {n} elements')
      ctx.state('long', name, n)
      ctx.trace((name, n))
  for i in range(5):
    tree = Long(*[[onp.arange(3) + k, {'u': float(k)}] if k % 5 == i else
                  onp.array(k) for k in range(13)])
    verify(ctx, [tree, Pair(tree, 1.0)], f'long namedtuple {i}')
    ctx.trace(('namedtuple', i))
  # arrays, tracers and descriptions of arrays as leaves
  for leaf in (jnp.ones(3), jax.ShapeDtypeStruct((2,), jnp.float32), 1, 0,
               True, False, 'name', 1.5, onp.float32(3)):
    tree = {'b': [leaf, NT(leaf, 2)], 'a': leaf}
    d = io.pytree_to_dict(tree)
    keys = [('a',), ('b', 'list_element_0'), ('b', 'list_element_1', 'z'),
            ('b', 'list_element_1', 'a')]
    ctx.check([tuple(k) for k in io.pytree_dict_keys(tree)] == keys,
              f'leaves {leaf!r}: keys {io.pytree_dict_keys(tree)}')
    ctx.check(all(follow(d, k) is leaf for k in keys[:3]),
              f'leaves {leaf!r}: {d}')
    ctx.check(same(io.dict_to_pytree(d, tree), tree), f'leaves {leaf!r}')
    ctx.trace(repr(leaf))

  @jax.jit
  def traced(x):
    tree = NT(z=[x, x + 1], a={'k': x * 2})
    return io.dict_to_pytree(io.pytree_to_dict(tree), tree)
  ctx.equal(np_tree(traced(jnp.arange(3))), NT(
    [onp.arange(3), onp.arange(3) + 1], {'k': onp.arange(3) * 2}), 'traced')
  ctx.trace('traced')


KEYS = ['a', 'b', 'A', 'a/b', 'a~b', 'a.b', 'a b', 'a_b', 'ab', 'a/', '/a', '',
        '/', '~', '.', '..', ' ', '0', '2', '10', 'list_element_0',
        'list_element_1', 'unknown~pytree~leaf~0', 'None', '\u00e4', "a'b", '[0]']


def run_keys(case, ctx):
  """All small sets of keys, which differ only in single characters."""
  for size in (1, 2) if case['inner'] else (1, 2, 3):
    for names in itertools.combinations(KEYS, size):
      count = itertools.count(1)
      for kind in (dict, OrderedDict):
        tree = kind((k, [float(next(count)), (float(next(count)),)])
                    for k in reversed(names))
        if case['inner']:
          for outer in KEYS:
            tree2 = {outer: tree, 'zz': kind((k, float(next(count)))
                                             for k in names)}
            verify(ctx, tree2, f'{kind.__name__} with the keys {names} in '
                               f'{outer!r}')
        else:
          verify(ctx, tree, f'{kind.__name__} with the keys {names}')
      ctx.trace((case['inner'], names))
      ctx.state('keys', case['inner'], names)


def run_rules(ctx):
  """Rules registered later and values other than in the target."""
  class Box:
    def __init__(self, *c):
      self.c = c

  tree_util.register_pytree_node(Box, lambda b: (b.c[::-1], None),
                                 lambda _, c: Box(*c[::-1]))
  leaf = iter(range(1000))

  def mk():
    return Box(float(next(leaf)), [Box(float(next(leaf)), float(next(leaf)))],
               {'b': Box(NT(float(next(leaf)), float(next(leaf))))})
  t = {'x': mk(), 'y': [mk(), NT(z=mk(), a=1.5)]}
  # without rule
  d = io.pytree_to_dict(t)
  ctx.check(same(io.dict_to_pytree(d, t), t), 'nodes without rule: restored '
                                              'differently')
  calls = []

  @io.register_dictionize_rule(Box)
  def rule(box):
    calls.append(box)
    return ((f'child{i}', c) for i, c in enumerate(box.c))
  for again in range(2):
    d = io.pytree_to_dict(t)
    keys = [tuple(k) for k in io.pytree_dict_keys(t)]
    want = []

    def ref(node, path):
      if isinstance(node, Box):
        for i in reversed(range(len(node.c))):
          ref(node.c[i], path + (f'child{i}',))
      elif isinstance(children(node), str):
        want.append((path, node))
      else:
        for n, c in children(node):
          ref(c, path + (n,))
    ref(t, ())
    ctx.check(keys == [p for p, _ in want],
              f'registered rule: keys {keys} instead of {want}')
    for p, x in want:
      ctx.check(follow(d, p) is x, f'registered rule: {p} leads to '
                                   f'{follow(d, p)}')
    ctx.check(same(io.dict_to_pytree(d, t), t), 'registered rule: restored '
                                                'differently')
    ctx.trace(('rule', again), steps=len(want))
  # rules are unique
  for kind in (Box, dict, list, tuple, Pair):
    try:
      io.register_dictionize_rule(kind)(lambda n: [])
    except AssertionError:
      pass
    else:
      ctx.fail(f'second rule for {kind} is not rejected')
    ctx.trace(kind.__name__)
  # the values of the dict count, not those of the target
  for desc in [('nt2', 'leaf', 'leaf'), ('dict2', ('list2', 'leaf', 'none'),
                                         ('pair', 'leaf', 'leaf')),
               ('list3', 'leaf', ('nt3', 'leaf', 'leaf', 'leaf'), 'leaf')]:
    one_, two = build(desc, itertools.count(1)), build(desc, itertools.count(50))
    got = io.dict_to_pytree(io.pytree_to_dict(one_), two)
    ctx.check(same(got, one_), f'{desc}: values of the target are returned')
    ctx.trace(desc)
