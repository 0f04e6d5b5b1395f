"""C26: every call depends on its arguments alone.

A catalogue of real calls across the whole code is executed, with every
configuration of their arguments that differs in one parameter, in one process
in one order and in another process in the opposite order, so that every pair
of calls is seen in both orders.  Objects built once are driven through every
word of arguments.  All results of one call must agree, whatever came before.
"""
import concurrent.futures
import json
import os
import pickle
import random
import re
import subprocess
import sys
import tempfile
import time

import numpy as np

PROPERTY = 'C26'
RULE = ('state = (call, configuration of its arguments); transition = one execution of a real call after a history of other calls; validated when its result, type and '
        'metadata equal those of the same call after every other explored history, and nothing else changed')
BOUNDS = ('calls of every module on small grids; 16 configurations that differ in one parameter (step of each axis, origin, data, viscosity, time step, density, wall value, shape, '
          'precision, seed, wavenumber, width, number of steps); every ordered pair of (call, configuration) within a part of the code; words of 3 arguments for built objects')
ASSUMPTIONS = ['one process at a time; results are compared to 1e-9 (float64) and 1e-5 (float32) of their size']
READS = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'mc', 'calls.json')  # parameters each call reads: tools/reads.py
GROUPS = ('solvers', 'models', 'elliptic', 'layers', 'networks', 'fields', 'spectral', 'data')  # slowest first
WORDS = {3: (0, 0, 0, 1, 0, 0, 2, 0, 1, 1, 0, 1, 2, 0, 2, 1, 0, 2, 2, 1, 1, 1, 2, 1, 2, 2, 2, 0, 0), 2: (0, 0, 1, 0, 2, 1, 1, 2, 2, 0)}  # every word of that length, overlapping
SHORT = (0, 0, 1, 0)
WORD = dict(fields=3, elliptic=3, spectral=3, data=2)


def differ(a, b):
  """Why two results of one call are not the same, or None."""
  if a[0] != b[0]:
    la, lb = a[0].split('\n'), b[0].split('\n')
    i = next((i for i, (p, q) in enumerate(zip(la, lb)) if p != q), -1)
    return f'{la[i][:200]} and {lb[i][:200]}'
  for i, (x, y) in enumerate(zip(a[1], b[1])):
    if x.shape != y.shape or x.dtype != y.dtype:
      return f'result {i}: {x.dtype}{x.shape} and {y.dtype}{y.shape}'
    if x.dtype.kind not in 'fc':
      if not np.array_equal(x, y):
        return f'result {i}: {x.ravel()[:4]} and {y.ravel()[:4]}'
      continue
    finite = np.isfinite(x)
    if not np.array_equal(finite, np.isfinite(y)):
      return f'result {i}: {x.ravel()[:4]} and {y.ravel()[:4]}'
    x, y = np.where(finite, x, 0), np.where(finite, y, 0)
    tol = (1e-5 if x.dtype in (np.float32, np.complex64) else 1e-9) * max(1e-30, np.abs(x).max(initial=0))
    if np.abs(x - y).max(initial=0) > tol:
      at = np.unravel_index(np.argmax(np.abs(x - y)), x.shape)
      return f'result {i} at {tuple(map(int, at))}: {x[at]} and {y[at]}'
  return None


# ---------------------------------------------------------- in the child
def canon(x):
  """Any result as (structure, arrays)."""
  import jax  # pylint: disable=g-import-not-at-top
  import xarray  # pylint: disable=g-import-not-at-top
  leaves, tree = jax.tree_util.tree_flatten(x)
  text, arrays = [str(tree)], []
  for v in leaves:
    if isinstance(v, (xarray.Dataset, xarray.DataArray)):
      ds = v.to_dataset(name='array of ' + str(v.name)) if isinstance(v, xarray.DataArray) else v
      text.append(repr(sorted((str(k), repr(a)) for k, a in ds.attrs.items())))
      for name in sorted(map(str, ds.variables)):
        var = ds.variables[name]
        text.append(f'{name} {var.dims} {sorted((str(k), repr(a)) for k, a in var.attrs.items())} {name in ds.coords}')
        values = np.asarray(var.values)
        if values.dtype.kind in 'OUS':
          text.append(repr(values.tolist()))
        else:
          arrays.append(values)
    elif isinstance(v, (np.ndarray, np.generic)) or hasattr(v, '__jax_array__') or isinstance(v, jax.Array):
      arrays.append(np.asarray(v))
      text.append(f'{type(v).__name__ if isinstance(v, np.generic) else ""}{arrays[-1].dtype}{arrays[-1].shape}')
    elif isinstance(v, (bool, int, float, complex)):
      text.append(type(v).__name__)
      arrays.append(np.asarray(v))
    else:
      text.append(re.sub(r'0x[0-9a-f]+', '', repr(v)))
  return re.sub(r'0x[0-9a-f]+', '', '\n'.join(text)), arrays


def surroundings():
  import jax  # pylint: disable=g-import-not-at-top
  return (jax.config.jax_enable_x64, jax.config.jax_default_matmul_precision, jax.config.jax_debug_nans, repr(np.geterr()), np.random.get_state()[1].tobytes(),
          np.random.get_state()[2], random.getstate(), dict(os.environ), os.getcwd(), repr(np.get_printoptions()))


def child(groups, configs, order, path):
  """Executes one history of calls: order is a '+'-joined list of phases."""
  from mc import calls  # pylint: disable=g-import-not-at-top
  table = {(g, n): make for g in groups.split(',') for n, make in calls.load(g).items()}
  configs = dict(joint=calls.JOINT, single=calls.SINGLE).get(configs) or [c for c in calls.SINGLE + calls.JOINT if c.name == configs][:1]
  with open(READS) as f:
    reads = json.load(f)
  results, changes = [], []
  before = surroundings()

  def record(key, fn):
    nonlocal before
    calls.WATCHED.clear()
    try:
      out = canon(fn())
    except Exception as e:  # pylint: disable=broad-except
      out = (f'raises {type(e).__name__}', [])
    results.append((key, out))
    for i, (now, kept) in enumerate(calls.WATCHED):
      if differ(canon(now), canon(kept)):
        changes.append((key, f'argument {i} was changed in place'))
    after = surroundings()
    if after != before:
      changes.append((key, 'state outside the call was changed: ' + ', '.join(n for n, a, b in zip(('x64', 'precision', 'nans', 'numpy errors', 'numpy random', 'numpy random', 'random', 'environment',
                                                                                       'directory', 'printing'), before, after) if a != b)))
      before = after

  def variation(at, c):
    if calls.relevant(reads.get(at[0], {}).get(at[1]), c):
      record((at, c.name, 0), lambda: table[at](c)(0))

  def objects(at):
    made = []
    def use(k):
      if not made:
        made.append(table[at](calls.BASE))
      return made[0](k)
    group, name = at
    for k in SHORT if at in calls.PLAIN else WORDS[2] if name.startswith('compiled') else WORDS[WORD[group]] if group in WORD else SHORT:
      record((at, 'base', k), lambda k=k: use(k))

  for phase in order.split('+'):
    names = list(table)[::-1] if 'reversed' in phase else list(table)
    cs = configs[:1] + configs[:0:-1] if 'downward' in phase else configs
    if 'objects' in phase:
      for at in names:
        objects(at)
    elif 'by configuration' in phase:
      for c in cs:
        for at in names:
          variation(at, c)
    else:
      for at in names:
        for c in cs + cs[:1] * (len(cs) > 1):
          variation(at, c)
  with open(path, 'wb') as f:
    pickle.dump((results, changes), f)


# --------------------------------------------------------- in the explorer
def unit_histories(rec, histories):
  env = dict(os.environ, XLA_FLAGS=os.environ.get('XLA_FLAGS', '') + ' --xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true')  # compiles faster

  def run(history, path):
    with open(path + '.log', 'wb') as log:
      code = subprocess.call([sys.executable, '-m', 'checks.C26', *history, path], stdout=log, stderr=log, env=env)
    return code

  with tempfile.TemporaryDirectory() as d:
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
      codes = list(pool.map(run, histories, [f'{d}/{i}' for i in range(len(histories))]))
    runs = []
    for i, (history, code) in enumerate(zip(histories, codes)):
      if code or not os.path.exists(f'{d}/{i}'):
        rec.fail(' '.join(history), 'the history of calls ended early: ' + open(f'{d}/{i}.log', 'rb').read()[-1500:].decode(errors='replace'))
        continue
      with open(f'{d}/{i}', 'rb') as f:
        runs.append((' '.join(history[1:]),) + pickle.load(f))
  first, refused = {}, set()
  bad = set()
  for order, results, changes in runs:
    previous = 'nothing'
    for key, out in results:
      text = f'{key[0][0]}: {key[0][1]} [{key[1]}, data {key[2]}]'
      rec.state(key)
      rec.step()
      if out[0].startswith('raises'):
        refused.add(key[0])
      if key not in first:
        first[key] = (order, previous, out)
        for a in out[1][:1]:
          if a.dtype.kind in 'fc' and a.size < 2000:
            rec.outcome(a)
      else:
        why = differ(first[key][2], out)
        if why and text not in bad:
          bad.add(text)
          rec.fail(text, f'{why}; the first after {first[key][1]} ({first[key][0]}), the second after {previous} ({order})')
        rec.trace(not why)
      previous = text
    for key, what in changes:
      rec.fail(f'{key[0][0]}: {key[0][1]} [{key[1]}, data {key[2]}]', what)
  rec.sample(dict(calls=len({k[0] for k in first}), histories=len(runs), raising=sorted(': '.join(r) for r in refused)))


def units(tier):
  from mc import calls  # pylint: disable=g-import-not-at-top
  names = lambda configs: [c.name for c in configs[1:]]
  everything = ','.join(GROUPS)
  histories = [(g, 'joint', 'reversed+objects') for g in GROUPS]
  histories[2:2] = [(everything, n, 'alone') for n in names(calls.JOINT)]
  if tier == 'thorough':
    histories += [(everything, n, 'alone') for n in names(calls.SINGLE) if n not in names(calls.JOINT)]
    histories += [(g, 'single', o) for o in ('forward', 'objects reversed+reversed downward', 'by configuration+objects', 'by configuration reversed downward') for g in GROUPS]
  return [('histories', unit_histories, dict(histories=histories))]


if __name__ == '__main__':
  start = time.time()
  import jax as _jax
  _jax.config.update('jax_enable_x64', True)
  child(*sys.argv[1:])
  print(time.time() - start)
