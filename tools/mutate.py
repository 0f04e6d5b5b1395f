"""Mutation campaign: python3 tools/mutate.py MODULE CHECK[,CHECK] [--max N] [--seed S]

Makes single-site syntactic mutants of jax_cfd/MODULE in scratch copies of /repo
under /tmp/mut, runs the given quick checks on each (VERIF_REPO) and lists the
mutants that no check notices.  Never touches /repo.  A development tool: no
check depends on it.
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys

BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult,
       ast.Pow: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.Mult,
       ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.MatMult: ast.Mult}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In}


def sites(tree):
  """Yields (description, function that mutates in place, undo)."""
  docs = set()
  anns = set()
  for n in ast.walk(tree):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body:
      b = n.body[0]
      if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
        docs.add(id(b.value))
    for f in ('annotation', 'returns'):
      a = getattr(n, f, None)
      if isinstance(a, ast.AST):
        anns.update(id(x) for x in ast.walk(a))
    if isinstance(n, ast.Raise):
      anns.update(id(x) for x in ast.walk(n))
    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Subscript) and isinstance(n.targets[0], ast.Name) and n.targets[0].id[0].isupper():
      anns.update(id(x) for x in ast.walk(n))  # type aliases
  for n in ast.walk(tree):
    if id(n) in anns or id(n) in docs:
      continue
    ln = getattr(n, 'lineno', 0)
    if isinstance(n, ast.BinOp) and type(n.op) in BIN:
      yield ln, f'{type(n.op).__name__}->{BIN[type(n.op)].__name__}', n, 'op', BIN[type(n.op)]()
      if isinstance(n.op, (ast.Sub, ast.Div)):
        yield ln, f'swap operands {type(n.op).__name__}', n, ('left', 'right'), (n.right, n.left)
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
      yield ln, 'drop minus', n, 'op', ast.UAdd()
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
      yield ln, 'drop not', n, 'operand', ast.UnaryOp(ast.Not(), n.operand)
    elif isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
      yield ln, f'{type(n.ops[0]).__name__}->{CMP[type(n.ops[0])].__name__}', n, 'ops', [CMP[type(n.ops[0])]()] + n.ops[1:]
    elif isinstance(n, ast.BoolOp):
      yield ln, 'and/or', n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
      yield ln, f'{n.value}->{n.value + 1}', n, 'value', n.value + 1
      if n.value not in (0,):
        yield ln, f'{n.value}->0', n, 'value', type(n.value)(0)
    elif isinstance(n, ast.Constant) and type(n.value) is bool:
      yield ln, f'{n.value}->{not n.value}', n, 'value', not n.value
    elif isinstance(n, ast.Call) and len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
      yield ln, 'swap args', n, 'args', [n.args[1], n.args[0]]
    elif isinstance(n, ast.If) :
      yield ln, 'if->if False', n, 'test', ast.Constant(False)
      yield ln, 'if->if True', n, 'test', ast.Constant(True)
    elif isinstance(n, ast.IfExp):
      yield ln, 'ifexp True', n, 'test', ast.Constant(True)
      yield ln, 'ifexp False', n, 'test', ast.Constant(False)
    elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
      yield ln, 'augassign', n, 'op', BIN[type(n.op)]()
    elif isinstance(n, ast.Call) and n.keywords:
      for k in n.keywords:
        if k.arg:
          yield ln, f'drop keyword {k.arg}', n, 'keywords', [x for x in n.keywords if x is not k]


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('module'); ap.add_argument('checks')
  ap.add_argument('--max', type=int, default=40); ap.add_argument('--seed', type=int, default=0)
  ap.add_argument('--lines'); ap.add_argument('--par', type=int, default=4)
  ap.add_argument('--out', default='/tmp/mut/out.jsonl')
  a = ap.parse_args()
  src = open(f'/repo/jax_cfd/{a.module}').read()
  n = len(list(sites(ast.parse(src))))
  idx = list(range(n))
  if a.lines:
    lo, hi = map(int, a.lines.split('-'))
    idx = [i for i, s in enumerate(sites(ast.parse(src))) if lo <= s[0] <= hi]
  random.Random(a.seed).shuffle(idx)
  idx = sorted(idx[:a.max])
  lines = src.split('\n')

  def run(i):
    tree = ast.parse(src)
    ln, what, node, field, new = list(sites(tree))[i]
    if isinstance(field, tuple):
      for f, v in zip(field, new):
        setattr(node, f, v)
    else:
      setattr(node, field, new)
    new_src = ast.unparse(ast.fix_missing_locations(tree))
    w = f'/tmp/mut/{os.getpid()}-{i}'
    shutil.copytree('/repo', w, ignore=shutil.ignore_patterns('.git', '__pycache__', 'notebooks', '*.ipynb'))
    open(f'{w}/jax_cfd/{a.module}', 'w').write(new_src)
    env = dict(os.environ, VERIF_REPO=w, VERIF_FAILFAST='1', VERIF_WORKERS=str(max(1, 8 // a.par)))
    caught = None
    for c in a.checks.split(','):
      try:
        r = subprocess.run(['/verif/run.sh', c, 'quick'], env=env, capture_output=True, text=True, timeout=400)
        rc = r.returncode
      except subprocess.TimeoutExpired:
        rc = 'timeout'
      if rc != 0:
        caught = f'{c}:{rc}'
        break
    shutil.rmtree(w)
    rec = dict(module=a.module, i=i, line=ln, what=what, text=lines[ln - 1].strip()[:140], caught=caught)
    with open(a.out, 'a') as f:
      f.write(json.dumps(rec) + '\n')
    return rec

  os.makedirs('/tmp/mut', exist_ok=True)
  from concurrent.futures import ThreadPoolExecutor
  with ThreadPoolExecutor(a.par) as p:
    res = list(p.map(run, idx))
  surv = [r for r in res if not r['caught']]
  print(f'{a.module}: {len(res)} of {n} mutants, {len(surv)} survive')
  for r in surv:
    print(f"  {r['line']}: {r['what']}: {r['text']}")


if __name__ == '__main__':
  main()
