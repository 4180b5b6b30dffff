"""tools/automut.py [--budget N] [--seed S] [FILE...]: generated mutants.

Enumerates small syntactic changes of the functions in the given files (default:
all), draws N of them per file and runs the quick checks associated with the
file against a scratch copy. Survivors have to be judged by hand: they are
either equivalent or show a gap.
"""
import argparse
import ast
import copy
import os
import random
import shutil
import subprocess
import tempfile
import warnings
from concurrent.futures import ThreadPoolExecutor

warnings.simplefilter('ignore')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SOURCE = '/repo/jax_sgmc/'
CHECKS = {
  'adaption.py': 'C18', 'alias.py': 'C22', 'integrator.py': 'C17',
  'io.py': 'C10 C08 C09', 'potential.py': 'C16', 'scheduler.py': 'C12 C11',
  'solver.py': 'C15 C14 C13 C22', 'data/core.py': 'C01 C03 C05 C04 C23',
  'data/hdf5_loader.py': 'C20', 'data/numpy_loader.py': 'C02 C06 C07 C01 C23',
  'data/tensorflow_loader.py': 'C21 C23', 'util/list_map.py': 'C19',
  'util/tree_util.py': 'C19', 'util/uuid.py': 'C19'}
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
        ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
        ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In,
        ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
        ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Pow: ast.Mult,
        ast.And: ast.Or, ast.Or: ast.And}


def variants(node):
  """Yields (description, replacement) of a node."""
  if isinstance(node, ast.Compare) and type(node.ops[0]) in SWAP:
    new = copy.deepcopy(node)
    new.ops[0] = SWAP[type(node.ops[0])]()
    yield new
  if isinstance(node, ast.BinOp):
    if type(node.op) in SWAP:
      new = copy.deepcopy(node)
      new.op = SWAP[type(node.op)]()
      yield new
    yield node.left
  if isinstance(node, ast.BoolOp):
    new = copy.deepcopy(node)
    new.op = SWAP[type(node.op)]()
    yield new
  if isinstance(node, ast.UnaryOp):
    yield node.operand
  if isinstance(node, ast.Constant):
    if isinstance(node.value, bool):
      yield ast.Constant(not node.value)
    elif isinstance(node.value, int):
      yield ast.Constant(node.value + 1)
    elif isinstance(node.value, float):
      yield ast.Constant(node.value * 1.5 + 0.01)
  if isinstance(node, ast.IfExp):
    yield ast.IfExp(node.test, node.orelse, node.body)
  if isinstance(node, ast.If):
    new = copy.deepcopy(node)
    new.test = ast.UnaryOp(ast.Not(), new.test)
    yield new
  if isinstance(node, ast.Call):
    for i in range(len(node.keywords)):
      new = copy.deepcopy(node)
      del new.keywords[i]
      yield new
  if isinstance(node, (ast.AugAssign, ast.Delete)) or (
      isinstance(node, ast.Expr) and isinstance(node.value, ast.Call)):
    yield ast.Pass()
  if isinstance(node, ast.Assign) and not isinstance(node.targets[0], ast.Name):
    yield ast.Pass()
  if isinstance(node, ast.With) and len(node.items) == 1:
    yield ast.If(ast.Constant(True), node.body, [])


def enumerate_mutants(text):
  """Yields (line, old, new, mutated source)."""
  tree = ast.parse(text)
  skip = set()
  for node in ast.walk(tree):
    if isinstance(node, (ast.Raise, ast.Assert, ast.JoinedStr)) or (
        isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
      # The condition of an assertion may be changed
      for child in ast.walk(node.msg if isinstance(node, ast.Assert) and
                            node.msg else node):
        if not isinstance(node, ast.Assert) or node.msg:
          skip.add(id(child))
    for field in ('annotation', 'returns'):
      if getattr(node, field, None) is not None:
        skip |= {id(c) for c in ast.walk(getattr(node, field))}
    if isinstance(node, ast.FunctionDef):
      skip |= {id(c) for d in node.decorator_list for c in ast.walk(d)}
  inside = [n for f in ast.walk(tree) if isinstance(f, ast.FunctionDef)
            for n in ast.walk(f)]
  seen = set()
  for node in inside:
    if id(node) in seen or id(node) in skip or not hasattr(node, 'lineno'):
      continue
    seen.add(id(node))
    segment = ast.get_source_segment(text, node)
    if segment is None or 'doc' in segment[:3]:
      continue
    for new in variants(node):
      try:
        code = ast.unparse(ast.fix_missing_locations(new))
      except Exception:  # pylint: disable=broad-except
        continue
      if isinstance(node, ast.expr):
        code = f'({code})' if not isinstance(
          new, (ast.Constant, ast.Name, ast.Call, ast.Tuple)) else code
      else:
        pad = ' ' * node.col_offset
        code = ('\n' + pad).join(code.split('\n'))
      lines = text.split('\n')
      start = sum(len(l.encode()) + 1 for l in lines[:node.lineno - 1]
                  ) + node.col_offset
      raw = text.encode()
      out = raw[:start] + code.encode() + raw[start + len(segment.encode()):]
      try:
        ast.parse(out)
      except SyntaxError:
        continue
      if ast.dump(ast.parse(out)) != ast.dump(tree):
        yield node.lineno, segment, code, out.decode()


def attempt(job):
  file, line, old, new, source = job
  tmp = tempfile.mkdtemp(prefix='mcmut.', dir='/tmp')
  try:
    shutil.copytree(SOURCE, tmp + '/repo/jax_sgmc')
    open(tmp + '/repo/jax_sgmc/' + file, 'w').write(source)
    for check in CHECKS[file].split():
      r = subprocess.run(
        [VERIF + '/check', check], capture_output=True, text=True, timeout=1200,
        env=dict(os.environ, MC_REPO=tmp + '/repo', MC_NO_EVIDENCE='1',
                 MC_JOBS='3'))
      if r.returncode != 0:
        return f'{check if r.returncode == 1 else r.returncode}'
    return 'SURVIVED'
  except subprocess.TimeoutExpired:
    return 'timeout'
  finally:
    shutil.rmtree(tmp)


def main():
  parser = argparse.ArgumentParser()
  parser.add_argument('--budget', type=int, default=10)
  parser.add_argument('--seed', type=int, default=1)
  parser.add_argument('--jobs', type=int, default=3)
  parser.add_argument('--list', action='store_true')
  parser.add_argument('files', nargs='*')
  args = parser.parse_args()
  jobs = []
  for file in args.files or CHECKS:
    mutants = list(enumerate_mutants(open(SOURCE + file).read()))
    random.Random(args.seed).shuffle(mutants)
    print(f'{file}: {len(mutants)} mutants', flush=True)
    jobs += [(file,) + m for m in mutants[:args.budget]]
  if args.list:
    for job in jobs:
      print(*job[:2], repr(job[2][:70]), '->', repr(job[3][:70]))
    return
  with ThreadPoolExecutor(args.jobs) as pool:
    for job, result in zip(jobs, pool.map(attempt, jobs)):
      print(result, *job[:2], repr(job[2][:90]), '->', repr(job[3][:90]),
            flush=True)


if __name__ == '__main__':
  main()
