"""C11: repeated stepping is plain iteration, whatever wrapper does it.

Every small program built from repeated / trajectory / trajectory_from_step,
the trajectory decorators and the training helpers is executed on the real
code and compared with a Python loop; histories of init_context (nesting,
leaving by exception) are explored to a depth bound.
"""
import itertools

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
from jax_cfd.base import boundaries
from jax_cfd.base import funcutils
from jax_cfd.base import grids
from jax_cfd.ml import model_builder
from jax_cfd.ml import model_utils
from jax_cfd.ml import time_integrators
from jax_cfd.ml import train_utils

PROPERTY = 'C11'
RULE = ('all programs outer x inner x start_with_input x post-processing x step function x wrapper; all well bracketed '
        'histories of init_context with scans and exceptions; all batch words of the training helpers')
BOUNDS = 'up to 4 outer and 3 inner steps; bracket words up to length 6; batch words up to length 3'
ASSUMPTIONS = ['haiku wrappers run inside hk.transform, as required by haiku']


# Step functions: deliberately non commuting with any post-processing and with
# an explicit step counter, so that a dropped, repeated or reordered step shows.
def f_pair(s):
  a, b, t = s
  return (b + t, 2 * a - b + 1, t + 1)


def f_dict(s):
  return dict(x=s['x'][::-1] * 2 + s['n'], n=s['n'] + 1)


def f_scalar(x):
  return 3 * x + 1


BC = boundaries.dirichlet_boundary_conditions(1)
GRID = grids.Grid((3,), domain=((0., 3.),))


def f_grid(v):
  (c,) = v
  return (grids.GridVariable(grids.GridArray(2 * c.shift(1, 0).data + c.data + 1, c.offset, c.grid), c.bc),)


PROGRAM_STATES = {
    'pair': (f_pair, lambda: (jnp.float64(1), jnp.float64(-2), jnp.float64(0))),
    'dict': (f_dict, lambda: dict(x=jnp.array([1., -2., .5]), n=jnp.float64(0))),
    'scalar': (f_scalar, lambda: jnp.float64(.5)),
    'grid': (f_grid, lambda: (grids.GridVariable(grids.GridArray(jnp.array([1., 2., -1.]), (.5,), GRID), BC),)),
}
POST = {
    'identity': lambda s: s,
    'sum': lambda s: sum(jnp.sum(x) for x in jax.tree.leaves(s)),
    'tuple': lambda s: (jax.tree.leaves(s)[0] ** 2, {'l': jax.tree.leaves(s)[-1] - 1}),
}


def model(f, s, n):
  for _ in range(n):
    s = f(s)
  return s


def model_trajectory(f, s, n, post, start):
  frames = []
  for _ in range(n):
    old = s
    s = f(s)
    frames.append(post(old if start else s))
  return s, frames


def flat(x):
  return [np.asarray(v) for v in jax.tree.leaves(x)]


def compare_trees(rec, got, want, key, what):
  ok = rec.expect(jax.tree.structure(got) == jax.tree.structure(want), key,
                  f'{what}: structure {jax.tree.structure(got)} != {jax.tree.structure(want)}')
  if ok:
    for g, w in zip(flat(got), flat(want)):
      ok &= rec.close(g, w, key, what, rtol=1e-12, atol=1e-12)
  return ok


def compare_frames(rec, got, frames, n, proto, key, what):
  """Stacked frames against a list; for n == 0 only the (empty) structure."""
  if n == 0:
    ok = rec.expect(jax.tree.structure(got) == jax.tree.structure(proto), key, f'{what}: structure of no frames')
    for g, p in zip(flat(got), flat(proto)):
      ok &= rec.expect(g.shape == (0,) + p.shape, key, f'{what}: shape {g.shape} of no frames')
    return ok
  want = jax.tree.map(lambda *xs: np.stack([np.asarray(x) for x in xs]), *frames)
  return compare_trees(rec, got, want, key, what)


def in_haiku(fn, *args):
  return hk.transform(fn).apply({}, jax.random.PRNGKey(0), *args)


def unit_programs(rec, state, outers, inners):
  f, make = PROGRAM_STATES[state]
  for n in outers:
    s = make()
    rec.state(state, 'repeated', n)
    rec.step(n)
    want = model(f, s, n)
    key = f'{state} repeated {n}'
    ok = compare_trees(rec, funcutils.repeated(f, n)(s), want, key, 'funcutils')
    ok &= compare_trees(rec, jax.jit(funcutils.repeated(f, n))(s), want, key, 'funcutils jit')
    ok &= compare_trees(rec, in_haiku(lambda s: model_builder.repeated(f, n)(s), s), want, key, 'model_builder')
    rec.trace(ok)
    for m in inners:
      g = funcutils.repeated(f, m)
      for start, (pname, post) in itertools.product((False, True), POST.items()):
        key = f'{state} trajectory outer={n} inner={m} start={start} post={pname}'
        rec.state(key)
        rec.step(n * m)
        fin, frames = model_trajectory(lambda s: model(f, s, m), s, n, post, start)
        proto = post(s)
        out, got = funcutils.trajectory(g if m != 1 else f, n, post, start_with_input=start)(s)
        ok = compare_trees(rec, out, fin, key, 'final') & compare_frames(rec, got, frames, n, proto, key, 'frames')
        for ckpt in (False, True):
          def run(s, ckpt=ckpt):
            return model_builder.trajectory_from_step(f, n, m, start_with_input=start, post_process_fn=post, set_checkpoint=ckpt)(s)
          out, got = in_haiku(run, s)
          ok &= compare_trees(rec, out, fin, key, f'final, step model checkpoint={ckpt}')
          ok &= compare_frames(rec, got, frames, n, proto, key, f'frames, step model checkpoint={ckpt}')
        rec.trace(ok)
        for x in flat(got):
          rec.outcome(x)
  rec.sample(dict(state=state, outers=outers, inners=inners))


def unit_composed(rec, a):
  """Trajectories of trajectories; splitting a run in two."""
  f, make = PROGRAM_STATES['pair']
  s0 = make()
  for b, c in itertools.product(range(4), repeat=2):
    key = f'composed {a} {b} {c}'
    rec.state(key)
    rec.step(a + b * c)
    one = funcutils.repeated(f, a + b * c)(s0)
    two = funcutils.repeated(funcutils.repeated(f, b), c)(funcutils.repeated(f, a)(s0))
    ok = compare_trees(rec, two, one, key, 'a run split into segments')
    inner = funcutils.trajectory(f, b, lambda s: s[2])
    fin, frames = funcutils.trajectory(lambda s: inner(s)[0], c, lambda s: inner(s)[1], start_with_input=True)(funcutils.repeated(f, a)(s0))
    ok &= compare_trees(rec, fin, one, key, 'trajectory of trajectories')
    ok &= rec.close(np.asarray(frames).reshape(-1), a + 1. + np.arange(b * c), key, 'step counter of nested frames')
    rec.trace(ok)
    rec.outcome(frames)


def unit_gradients(rec):
  nonlinear = lambda x: jnp.stack([x[1] * x[0] + .1, x[0] ** 2 - x[1]])
  jac = jax.jacobian(nonlinear)
  for n, x in itertools.product(range(5), itertools.product((-.5, .3, 1.), repeat=2)):
    key = f'gradient {n} {x}'
    rec.state(key)
    rec.step(n)
    v = np.array(x)
    j = np.eye(2)
    for _ in range(n):
      j = np.asarray(jac(jnp.asarray(v))) @ j
      v = np.asarray(nonlinear(v))
    x = jnp.array(x)
    ok = rec.close(jax.jacobian(funcutils.repeated(nonlinear, n))(x), j, key, 'repeated')
    for ckpt in (False, True):
      run = lambda x, ckpt=ckpt: in_haiku(lambda x: model_builder.trajectory_from_step(
          nonlinear, n, 1, start_with_input=False, post_process_fn=lambda s: s, set_checkpoint=ckpt)(x)[0], x)
      ok &= rec.close(jax.jacrev(run)(x), j, key, f'checkpoint={ckpt}')
    rec.trace(ok)
    rec.outcome(j)
  batch = jnp.array(list(itertools.product((-.5, .3, 1.), repeat=2)))
  got = jax.vmap(funcutils.trajectory(nonlinear, 3))(batch)
  for i, x in enumerate(batch):
    want = funcutils.trajectory(nonlinear, 3)(x)
    rec.state('vmap', i)
    rec.step(3)
    ok = rec.close(got[0][i], want[0], f'vmap {i}', 'final') & rec.close(got[1][i], want[1], f'vmap {i}', 'frames')
    rec.trace(ok)


def bracket_words(length):
  """Well bracketed words over ( ) ! s; '!' leaves a context by an exception."""
  out = []

  def go(word, depth):
    if depth == 0 and word:
      out.append(word)
    if len(word) == length:
      return
    go(word + '(', depth + 1)
    go(word + 's', depth)
    if depth:
      go(word + ')', depth - 1)
      go(word + '!', depth - 1)
  go('', 0)
  return [w for w in out if 's' in w]


class Leave(Exception):
  pass


def unit_context(rec, length):
  calls = []

  def f(c, x):
    calls.append(None)
    return 2 * c + x, c
  for word in bracket_words(length):
    rec.state(word)
    stack = []
    ok = True
    for i, ch in enumerate(word):
      rec.step()
      if ch == '(':
        cm = funcutils.init_context()
        cm.__enter__()
        stack.append(cm)
      elif ch == ')':
        stack.pop().__exit__(None, None, None)
      elif ch == '!':
        e = Leave()
        cm = stack.pop()
        try:
          swallowed = cm.__exit__(Leave, e, None)
        except Leave:
          swallowed = False
        ok &= rec.expect(not swallowed, word, 'an exception was swallowed by init_context')
      else:
        calls.clear()
        carry, ys = funcutils.scan(f, jnp.float64(1), jnp.arange(3.))
        if stack:
          want = (2. + 0., [1., 1., 1.])
          ok &= rec.expect(len(calls) == 1, word, f'f called {len(calls)} times while initializing')
        else:
          want = (12., [1., 2., 5.])
        ok &= rec.close(carry, want[0], word, f'carry at {i}') & rec.close(ys, want[1], word, f'ys at {i}')
        rec.outcome((bool(stack), float(carry)))
    funcutils_reset(rec, word)
    rec.trace(ok)
  # the shapes seen while initializing equal those of the run
  for n, start in itertools.product((1, 2, 3), (False, True)):
    key = f'init shapes {n} {start}'
    rec.state(key)
    fn = funcutils.trajectory(f_dict, n, POST['tuple'], start_with_input=start)
    s = PROGRAM_STATES['dict'][1]()
    run = fn(s)
    with funcutils.init_context():
      init = fn(s)
    rec.step(n + 1)
    kind = lambda t: jax.tree.map(lambda a: (jnp.shape(a), jnp.result_type(a)), t)  # pylint: disable=cell-var-from-loop
    ok = rec.expect(kind(run) == kind(init), key, 'shapes or types differ while initializing')
    rec.trace(ok)


def funcutils_reset(rec, word):
  """After any history, scan iterates again."""
  out = funcutils.repeated(f_scalar, 2)(jnp.float64(0))
  rec.close(out, 4., word, 'behaviour after the history')


def unit_decorators(rec):
  def traj(x, outer, inner=1):
    # consumes all given frames: weights expose which frames were given
    s = jax.tree.map(lambda a: jnp.tensordot(jnp.arange(1., a.shape[0] + 1), a, 1), x)
    return model_builder_like(s, outer, inner)

  def model_builder_like(s, outer, inner):
    frames = []
    for _ in range(outer):
      s = model(lambda t: jax.tree.map(lambda a: 2 * a + 1, t), s, inner)
      frames.append(s)
    return s, jax.tree.map(lambda *xs: jnp.stack(xs), *frames)
  for frames, outer, inner in itertools.product((1, 2, 3), (1, 2), (1, 3)):
    rng = np.random.RandomState(0)
    x = (jnp.asarray(rng.rand(frames, 2)), dict(b=jnp.asarray(rng.rand(frames, 3))))
    base = traj(x, outer, inner)
    key = f'decorators frames={frames} outer={outer} inner={inner}'
    pre = lambda t: jax.tree.map(lambda a: a[::-1] * 3, t)
    rec.state(key)
    ok = compare_trees(rec, model_utils.with_preprocessing(traj, pre)(x, outer, inner=inner), traj(pre(x), outer, inner), key, 'with_preprocessing')
    post = lambda fin, un: (un, jax.tree.map(lambda a: a + 1, fin))
    ok &= compare_trees(rec, model_utils.with_post_processing(traj, post)(x, outer, inner=inner), post(*base), key, 'with_post_processing')
    got = model_utils.with_input_included(traj)(x, outer, inner=inner)
    want = (base[0], jax.tree.map(lambda a, b: jnp.concatenate([a, b]), x, base[1]))
    ok &= compare_trees(rec, got, want, key, 'with_input_included')
    for split in range(1, frames + 1):
      rec.state(key, split)
      part = jax.tree.map(lambda a: a[:split], x)
      want = traj(part, outer, inner)
      ok &= compare_trees(rec, model_utils.with_split_input(traj, split)(x, outer, inner), want, key, f'with_split_input {split}')
      sw = jax.tree.map(lambda a: jnp.swapaxes(a, 0, 1), x)
      back = lambda t: jax.tree.map(lambda a: jnp.swapaxes(a, 0, 1), t)
      ok &= compare_trees(rec, model_utils.with_split_input(lambda t, o, i: traj(back(t), o, i), split, 1)(sw, outer, inner), want, key, f'with_split_input {split} axis 1')
      got = model_utils.with_input_included(lambda t, o, i: (0, jax.tree.map(lambda a: a[:, ::-1] * 2, t)), 1)(sw, outer, inner)
      ok &= compare_trees(rec, got, (0, jax.tree.map(lambda a: jnp.concatenate([a, a[:, ::-1] * 2], 1), sw)), key, 'with_input_included axis 1')
      rec.step(outer * inner)

      class Model(model_builder.DynamicalSystem):

        def encode(self, x):
          return jax.tree.map(lambda a: a[-1] * 2 + a.shape[0], x)

        def decode(self, x):
          return jax.tree.map(lambda a: (a - 1) / 2, x)

        def advance(self, x):
          return jax.tree.map(lambda a: 3 * a - 1, x)

      def run(x):
        m = Model(GRID, .1, None)
        return model_utils.decoded_trajectory_with_inputs(m, split)(x, outer, inner)
      fin, got = in_haiku(run, x)
      s = jax.tree.map(lambda a: a[-1] * 2 + a.shape[0], part)
      un = []
      for _ in range(outer):
        s = model(lambda t: jax.tree.map(lambda a: 3 * a - 1, t), s, inner)
        un.append(jax.tree.map(lambda a: (a - 1) / 2, s))
      ok &= compare_trees(rec, fin, s, key, f'decoded trajectory {split}: final state')
      want = jax.tree.map(lambda a, *b: jnp.concatenate([a, jnp.stack(b)]), part, *un)
      ok &= compare_trees(rec, got, want, key, f'decoded trajectory {split}: frames')
      rec.outcome(jax.tree.leaves(got)[0])
      for start in (False, True):
        fin, got = in_haiku(lambda s: Model(GRID, .1, None).trajectory(s, outer, inner, start_with_input=start, post_process_fn=lambda t: t[0] * 2), part)
        a, fr = model_trajectory(lambda t: model(lambda q: jax.tree.map(lambda a: 3 * a - 1, q), t, inner), part, outer, lambda t: t[0] * 2, start)
        ok &= compare_trees(rec, fin, a, key, 'DynamicalSystem.trajectory')
        ok &= compare_frames(rec, got, fr, outer, None, key, 'DynamicalSystem.trajectory')
    rec.trace(ok)
  for n, dt in itertools.product(range(4), (0., .25, -1.)):
    key = f'euler {n} {dt}'
    rec.state(key)
    rec.step(n)
    d = lambda s: (s[1] * 2, s[0] - s[1])
    fin, fr = in_haiku(lambda s: time_integrators.euler_integrator(d, s, dt, n), (jnp.array([1., 2.]), jnp.array([.5, -1.])))
    s = (np.array([1., 2.]), np.array([.5, -1.]))
    frames = []
    for _ in range(n):
      ds = d(s)
      s = (s[0] + dt * ds[0], s[1] + dt * ds[1])
      frames.append(s)
    ok = compare_trees(rec, fin, s, key, 'euler final') & compare_frames(rec, fr, frames, n, s, key, 'euler frames')
    rec.trace(ok)


BATCHES = ((1., 2.), (-1., .5), (0., 3.))


def unit_training(rec, length):
  """Histories of training steps and of streamed evaluation."""
  def trajectory_fn(p, target):
    x0 = target[0][:, 0]
    out = jnp.stack([x0 * p['a'] ** t + p['b'] * t for t in range(target[0].shape[1])], 1)
    return (out[:, -1],), (out,)
  loss_fn = lambda pred, target: jnp.mean((pred[0] - target[0]) ** 2)
  lg = train_utils.loss_and_gradient(trajectory_fn, loss_fn)
  update = lambda i, g, o: (jax.tree.map(lambda p, q: p - .1 / (1 + i) * q, o[0], g), o[1] + 1)
  step = jax.jit(train_utils.train_step(lg, update, lambda o: o[0]))
  ev = train_utils.eval_batch(trajectory_fn, dict(mse=loss_fn, mae=lambda p, t: jnp.mean(jnp.abs(p[0] - t[0]))))

  def loss_np(a, b, x):
    pred = np.stack([x[:, 0] * a ** t + b * t for t in range(3)], 1)
    return np.mean((pred - x) ** 2), np.mean(np.abs(pred - x)), pred
  def grad_np(a, b, x):
    _, _, pred = loss_np(a, b, x)
    r = 2 * (pred - x) / x.size
    da = np.stack([0 * x[:, 0], x[:, 0], 2 * a * x[:, 0]], 1)
    db = np.array([0, 1, 2.])
    return np.sum(r * da), np.sum(r * db)
  mk = lambda w: np.array([[w[0], w[1], w[0] - w[1]], [w[1], .5, w[0]]])
  for n in range(1, length + 1):
    for word in itertools.product(BATCHES, repeat=n):
      rec.state('train', word)
      a, b = .5, .1
      state = (0, (dict(a=jnp.float64(a), b=jnp.float64(b)), 10))
      ok = True
      tot = np.zeros(2)
      for i, w in enumerate(word):
        x = mk(w)
        state, loss = step(state, (jnp.asarray(x),))
        ref = loss_np(a, b, x)[0]
        ga, gb = grad_np(a, b, x)
        tot += np.array(loss_np(.5, .1, x)[:2])
        a, b = a - .1 / (1 + i) * ga, b - .1 / (1 + i) * gb
        key = f'train {word}'
        ok &= rec.close(loss, ref, key, f'loss {i}') & rec.close(state[0], i + 1, key, 'step counter')
        ok &= rec.close(state[1][1], 11 + i, key, 'optimizer state') & rec.close(state[1][0]['a'], a, key, 'parameter')
        ok &= rec.close(state[1][0]['b'], b, key, 'parameter')
        rec.step()
      mean = train_utils.streaming_mean(iter([(jnp.asarray(mk(w)),) for w in word]),
                                        lambda x: ev(dict(a=.5, b=.1), x))
      ok &= rec.expect(set(mean) == {'mse', 'mae'}, key, 'metrics')
      ok &= rec.close([mean['mse'], mean['mae']], tot / n, key, 'streaming mean')
      rec.outcome(np.asarray([a, b]))
      rec.trace(ok)
  rec.raises(lambda: train_utils.streaming_mean(iter([]), lambda x: x), 'streaming empty', 'no batches', (RuntimeError,))
  # noise only on the first frame, bounded, reproducible, independent per leaf
  for scale, shape in itertools.product((0., .01, 1.), ((1, 1, 3), (2, 3, 2), (1, 2, 2, 2))):
    base = (jnp.zeros(shape), jnp.ones(shape), jnp.zeros(shape))
    outs = []
    for seed in range(3):
      key = f'noise {scale} {shape} {seed}'
      rec.state(key)
      rec.step()
      k = jax.random.PRNGKey(seed)
      out = train_utils.add_noise_to_input_frame(base, k, scale=scale)
      again = train_utils.add_noise_to_input_frame(base, k, scale=scale)
      ok = compare_trees(rec, out, again, key, 'same key')
      d = [np.asarray(o - b) for o, b in zip(out, base)]
      for e in d:
        ok &= rec.expect(np.all(e[:, 1:] == 0), key, 'later frames changed')
        ok &= rec.expect(np.abs(e).max() <= 2 * scale * (1 + 1e-9), key, 'noise too large')
        ok &= rec.expect(scale == 0 or np.all(e[:, 0] != 0), key, 'entries of the first frame without noise')
      if scale:
        ok &= rec.expect(not np.allclose(d[0], d[2]), key, 'identical noise on two components')
        ok &= rec.expect(all(not np.allclose(d[0], o) for o in outs), key, 'identical noise for two keys')
      outs.append(d[0])
      rec.trace(ok)
  for n in range(3):
    data = [(jnp.array([float(i)]),) for i in range(n)]
    gen = train_utils.preprocess(iter(data), iter(jnp.arange(10.)), lambda b, r: (b[0] * 10 + r,))
    got = []
    try:
      for _ in range(n):
        got.append(float(next(gen)[0][0]))
    except Exception as e:  # pylint: disable=broad-except
      rec.fail(f'preprocess {n}', repr(e))
    rec.state('preprocess', n)
    rec.expect(got == [11. * i for i in range(n)], f'preprocess {n}', f'{got}')


def units(tier):
  th = tier == 'thorough'
  out = []
  for s in PROGRAM_STATES:
    outers = range(4) if not th else range(7)
    for o in outers:
      out.append((f'programs-{s}-{o}', unit_programs, dict(state=s, outers=(o,), inners=(0, 1, 2, 3) if th else (0, 1, 2))))
  out += [(f'composed-{a}', unit_composed, dict(a=a)) for a in range(4)]
  out += [('gradients', unit_gradients, {}), ('context', unit_context, dict(length=8 if th else 6)),
          ('decorators', unit_decorators, {}), ('training', unit_training, dict(length=4 if th else 3))]
  return out
