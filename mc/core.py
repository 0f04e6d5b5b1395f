"""Bounded-exhaustive exploration driver shared by every check.

A check module (checks/Cxx.py) defines

    PROPERTY = 'Cxx'
    def units(tier): -> list of (unit_name, function, kwargs)

Each unit explores one finite slice of the state/behaviour space of the real
code under /repo and reports through a Recorder:

    rec.state(key)        a distinct state (configuration + model state) reached
    rec.step(n)           n applications of a real operation of the code
    rec.trace(n)          n complete behaviours whose observations were compared
                          with the reference model from beginning to end
    rec.outcome(x)        a distinct observed outcome (vacuity indicator)
    rec.sample(obj)       a written-out case
    rec.fail(key, msg)    the property is broken for the case named by `key`

Units are distributed over forked worker processes; results are merged, known
findings are matched, the evidence file and the replay files are written, and
the exit status is 0 (held) or 1 (violated).
"""
import concurrent.futures
import fnmatch
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_FAILS_PER_UNIT = 25
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


def _h(x):
  return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


class Recorder:

  def __init__(self, unit):
    self.unit = unit
    self.states = set()
    self.transitions = 0
    self.traces = 0
    self.outcomes = set()
    self.samples = []
    self.fails = []
    self.n_fails = 0
    self.caps = []

  def state(self, *key):
    self.states.add(_h((self.unit,) + key))

  def step(self, n=1):
    self.transitions += int(n)

  def trace(self, n=1):
    self.traces += int(n)

  def outcome(self, x):
    if isinstance(x, (np.ndarray,)) or hasattr(x, 'dtype'):
      a = np.asarray(x)
      self.outcomes.add(hashlib.blake2b(
          np.round(np.asarray(a, dtype=complex), 6).tobytes()
          + repr(a.shape).encode(), digest_size=8).digest())
    else:
      self.outcomes.add(_h(x))

  def sample(self, obj, limit=2):
    if len(self.samples) < limit:
      self.samples.append(obj)

  def cap(self, text):
    self.caps.append(text)

  def fail(self, key, msg, **ctx):
    self.n_fails += 1
    if len(self.fails) < MAX_FAILS_PER_UNIT or not any(
        f['key'] == str(key) for f in self.fails):
      if len(self.fails) < 400:
        self.fails.append(dict(key=str(key), msg=str(msg)[:2000],
                               ctx={k: _jsonable(v) for k, v in ctx.items()}))

  def expect(self, cond, key, msg, **ctx):
    if not cond:
      self.fail(key, msg, **ctx)
    return bool(cond)

  def close(self, got, want, key, what='', rtol=1e-9, atol=1e-9, scale=None,
            **ctx):
    """Fails unless got == want (shape, and values up to tolerance)."""
    try:
      g = np.asarray(got)
      w = np.asarray(want)
      if g.shape != w.shape:
        self.fail(key, f'{what}: shape {g.shape} != expected {w.shape}', **ctx)
        return False
      if g.dtype == object or w.dtype == object:
        ok = (g == w).all()
        err = None
      else:
        if g.size == 0:
          return True
        if not np.all(np.isfinite(g) == np.isfinite(w)):
          self.fail(key, f'{what}: non-finite values differ; '
                    f'got {_short(g)} expected {_short(w)}', **ctx)
          return False
        fin = np.isfinite(w)
        d = np.abs(np.where(fin, g, 0) - np.where(fin, w, 0))
        s = scale if scale is not None else np.max(np.abs(w[fin]), initial=0.)
        ok = np.all(d <= atol + rtol * s)
        err = d.max(initial=0.)
        if len(self.outcomes) < 2000 and g.size <= 4096:
          self.outcome(g)
      if not ok:
        idx = None
        if err is not None:
          idx = tuple(int(i) for i in np.unravel_index(np.argmax(d), d.shape))
        self.fail(key, f'{what}: max abs error {err} at {idx}; '
                  f'got {_short(g)} expected {_short(w)}', **ctx)
      return bool(ok)
    except Exception as e:  # comparison itself failed: e.g. not an array
      self.fail(key, f'{what}: could not compare: {e!r}', **ctx)
      return False

  def raises(self, fn, key, what, exceptions=(Exception,), **ctx):
    """Fails unless fn() raises one of `exceptions`."""
    try:
      out = fn()
    except exceptions:
      return True
    except Exception as e:  # pylint: disable=broad-except
      self.fail(key, f'{what}: raised {e!r}, expected {exceptions}', **ctx)
      return False
    self.fail(key, f'{what}: accepted, expected an error; returned '
              f'{str(out)[:300]}', **ctx)
    return False

  def attempt(self, fn, key, what, **ctx):
    """Runs fn; an exception is a failure of the case `key`."""
    try:
      return True, fn()
    except Exception as e:  # pylint: disable=broad-except
      tb = traceback.extract_tb(sys.exc_info()[2])
      where = [f'{os.path.basename(t.filename)}:{t.name}' for t in tb][-4:]
      self.fail(key, f'{what}: raised {type(e).__name__}: {str(e)[:400]} '
                f'(in {" > ".join(where)})', **ctx)
      return False, None

  def export(self):
    return dict(unit=self.unit, states=self.states, transitions=self.transitions,
                traces=self.traces, outcomes=self.outcomes,
                samples=self.samples, fails=self.fails, n_fails=self.n_fails,
                caps=self.caps)


def _short(a):
  a = np.asarray(a)
  if a.size > 24:
    return f'{a.ravel()[:24].tolist()}...(shape {a.shape})'
  return str(a.tolist())


def _jsonable(v):
  if isinstance(v, (str, int, float, bool, type(None))):
    return v
  if isinstance(v, (list, tuple)):
    return [_jsonable(x) for x in v]
  if isinstance(v, dict):
    return {str(k): _jsonable(x) for k, x in v.items()}
  if hasattr(v, 'dtype') or isinstance(v, np.ndarray):
    a = np.asarray(v)
    return a.tolist() if a.size <= 200 else _short(a)
  return str(v)[:500]


def _run_unit(arg):
  modname, name, tier = arg
  # Only now is the backend of this worker initialised.
  import jax
  mod = sys.modules.get(modname) or importlib.import_module(modname)
  jax.config.update('jax_enable_x64', getattr(mod, 'X64', True))
  unit = {u[0]: u for u in mod.units(tier)}[name]
  kwargs = dict(unit[2])
  x64 = kwargs.pop('x64', getattr(mod, 'X64', True))
  jax.config.update('jax_enable_x64', bool(x64))
  rec = Recorder(name)
  t0 = time.time()
  try:
    with warnings.catch_warnings():
      warnings.simplefilter('ignore')
      unit[1](rec, **kwargs)
  except Exception as e:  # pylint: disable=broad-except
    # The code under test raised where the property promises an answer.
    rec.fail(f'{name}/exception', f'{type(e).__name__}: {str(e)[:800]}\n'
             + traceback.format_exc()[-3000:])
  out = rec.export()
  out['wall'] = time.time() - t0
  out['x64'] = bool(x64)
  return out


def load_known(prop):
  """Returns [(pattern, description)] of the findings listed for prop."""
  path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
  out = []
  if os.path.exists(path):
    for line in open(path):
      line = line.strip()
      if line.startswith('known: '):
        fields = line[len('known: '):].split(' ', 2)
        p = fields[0].split('=', 1)[1]
        k = fields[1].split('=', 1)[1]
        if p == prop:
          out.append((k, fields[2]))
  return out


def main(prop, tier, seed, only=None, replay=None, verbose=False):
  t0 = time.time()
  modname = f'checks.{prop}'
  mod = importlib.import_module(modname)
  ulist = mod.units(tier)
  names = [u[0] for u in ulist]
  assert len(set(names)) == len(names), 'duplicate unit names'
  if replay:
    r = json.load(open(replay))
    names = [n for n in names if n == r['unit']]
    if not names:
      tier = 'thorough'
      names = [r['unit']]
  if only:
    names = [n for n in names if fnmatch.fnmatch(n, only)]
  # VERIF_SEED only permutes the order in which the slices are explored: every
  # slice is explored whatever the seed.
  order = list(names)
  np.random.RandomState(seed).shuffle(order)
  costs = {u[0]: getattr(u[1], 'cost', 1) for u in ulist}
  order.sort(key=lambda n: -costs.get(n, 1))
  results = {}
  work = [(modname, n, tier) for n in order]
  if WORKERS <= 1 or len(work) == 1:
    for w in work:
      r = _run_unit(w)
      results[r['unit']] = r
  else:
    ctx = mp.get_context('fork')
    with concurrent.futures.ProcessPoolExecutor(
        min(WORKERS, len(work)), mp_context=ctx) as pool:
      futures = [pool.submit(_run_unit, w) for w in work]
      for fut in concurrent.futures.as_completed(futures):
        r = fut.result()
        results[r['unit']] = r
        if r['n_fails'] and os.environ.get('VERIF_FAILFAST'):
          # development only (tools/mutate.py): one failure is enough.
          print(f'FAILFAST {r["unit"]}', flush=True)
          for proc in list(pool._processes.values()):  # pylint: disable=protected-access
            proc.kill()
          os._exit(1)
        if verbose:
          print(f"  {r['unit']}: {r['wall']:.1f}s states={len(r['states'])} "
                f"steps={r['transitions']} traces={r['traces']} "
                f"outcomes={len(r['outcomes'])} fails={r['n_fails']}",
                flush=True)
  wall = time.time() - t0

  known = load_known(prop)
  used_known = {}
  violations = []
  for n in names:
    for f in results[n]['fails']:
      for pat, desc in known:
        if fnmatch.fnmatchcase(f['key'], pat):
          used_known[pat] = desc
          break
      else:
        violations.append((n, f))
  n_raw = sum(results[n]['n_fails'] for n in names)

  states = sum(len(results[n]['states']) for n in names)
  transitions = sum(results[n]['transitions'] for n in names)
  traces = sum(results[n]['traces'] for n in names)
  outcomes = set().union(*[results[n]['outcomes'] for n in names])
  samples = []
  for n in names:
    for s in results[n]['samples'][:1]:
      samples.append(dict(unit=n, case=_jsonable(s)))
  caps = sorted({c for n in names for c in results[n]['caps']})

  if not only and not replay:
    ev = dict(
        property=prop, tier=tier, seed=seed,
        level=getattr(mod, 'LEVEL', 'model_checking'),
        coverage=dict(
            states=states, transitions=transitions,
            traces_validated_against_impl=traces,
            distinct_observed_outcomes=len(outcomes),
            units=len(names),
            samples=samples[:12],
            rule=getattr(mod, 'RULE', ''),
            bounds=getattr(mod, 'BOUNDS', ''),
            caps=caps,
            exhaustive=not caps,
            per_unit={n: dict(states=len(results[n]['states']),
                              transitions=results[n]['transitions'],
                              traces=results[n]['traces'],
                              wall_s=round(results[n]['wall'], 2))
                      for n in names},
        ),
        assumptions=getattr(mod, 'ASSUMPTIONS', []),
        wall_s=round(wall, 2),
        violations=len(violations),
    )
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', f'{prop}.json')
    with open(path + '.tmp', 'w') as f:
      json.dump(ev, f, indent=1, default=str)
    os.replace(path + '.tmp', path)

  print(f'{prop} tier={tier} units={len(names)} states={states} '
        f'transitions={transitions} traces={traces} '
        f'outcomes={len(outcomes)} wall={wall:.1f}s', flush=True)
  for pat, desc in sorted(used_known.items()):
    print(f'KNOWN-FINDING: property={prop} {desc} [{pat}]')
  if violations:
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    seen = set()
    shown = 0
    for n, f in violations:
      if (n, f['key']) in seen:
        continue
      seen.add((n, f['key']))
      if shown >= (60 if verbose else 10):
        continue
      path = os.path.join(rdir, f'{prop}-{shown:02d}.json')
      with open(path, 'w') as fh:
        json.dump(dict(property=prop, unit=n, tier=tier, key=f['key'],
                       msg=f['msg'], ctx=f['ctx'],
                       how=f'./run.sh {prop} --replay {path}'), fh, indent=1)
      print(f'VIOLATION property={prop} replay={path}')
      print(f'   case {f["key"]}: {f["msg"][:300]}')
      shown += 1
    print(f'{len(seen)} distinct failing cases ({n_raw} failing observations)')
    return 1
  # Vacuity guard: an exploration that saw nothing has decided nothing.
  if not only and not replay and (states < 2 or len(outcomes) < 2):
    print(f'ERROR: vacuous exploration for {prop}')
    return 3
  return 0
