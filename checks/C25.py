"""C25: compiling, batching and differentiating never change the answer.

Every operator and solver step is run eagerly, compiled, batched and inside a
scan on the same states, in both precisions; its forward and reverse
derivatives are enumerated on every unit tangent and cotangent and compared
with the differences of the values themselves.  One compiled function is then
driven through every sequence of arguments that differ only in grid, offset
or boundary condition.
"""
import functools
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from jax_cfd.base import advection
from jax_cfd.base import boundaries
from jax_cfd.base import diffusion
from jax_cfd.base import filter_utils
from jax_cfd.base import finite_differences as fd
from jax_cfd.base import forcings
from jax_cfd.base import funcutils
from jax_cfd.base import grids
from jax_cfd.base import interpolation
from jax_cfd.base import pressure
from jax_cfd.base import resize
from jax_cfd.base import subgrid_models
from jax_cfd.collocated import advection as cadvection
from jax_cfd.collocated import diffusion as cdiffusion
from jax_cfd.collocated import pressure as cpressure
from jax_cfd.spectral import equations as sequations
from jax_cfd.spectral import time_stepping as sts
from jax_cfd.spectral import utils as sutils

from checks import C22
from mc import lin

PROPERTY = 'C25'
RULE = ('state = (operator or solver, argument state, precision); transition = one evaluation, tangent or cotangent push through the real code under one '
        'transformation; validated when all transformations agree and the derivatives match the differences of the values')
BOUNDS = ('1 to 3 dimensional grids up to 16 cells; rest, uniform, unit and generic states; every word of cell values and face velocities over 3 letters for the '
          'limited schemes; every unit tangent and cotangent; rollouts of 1 to 5 steps; all ordered triples of 10 argument kinds for one compiled function')
ASSUMPTIONS = ['values agree to 1e-9 (float64) and 2e-5 (float32 against float64)', 'derivatives are compared where the operator is smooth, and must be finite everywhere',
               'the Smagorinsky closure is not differentiated at zero strain, where its viscosity has no derivative']
STEPS = (0.5, 0.8, 0.6)


def make_grid(shape):
  return grids.Grid(shape, domain=[(0., h * n) for h, n in zip(STEPS, shape)])


def bcs_of(kind, ndim):
  if kind == 'periodic':
    return boundaries.periodic_boundary_conditions(ndim)
  if kind == 'dirichlet':
    return boundaries.dirichlet_boundary_conditions(ndim, tuple((.25 * (i + 1), -.5) for i in range(ndim)))
  if kind == 'wall':
    return boundaries.dirichlet_boundary_conditions(ndim)
  if kind == 'neumann':
    return boundaries.neumann_boundary_conditions(ndim)
  return boundaries.channel_flow_boundary_conditions(ndim)


def var(x, offset, grid, bc):
  return grids.GridVariable(grids.GridArray(x, offset, grid), bc)


def arrays(out):
  """Leaves of any result."""
  return tuple(jax.tree_util.tree_leaves(out))


class Case:
  """fn maps a list of arrays to a tuple of arrays."""

  def __init__(self, fn, shapes, smooth=True, nonzero=False, wall=(), single=True):
    self.fn, self.shapes, self.smooth, self.nonzero, self.wall, self.single = fn, shapes, smooth, nonzero, wall, single

  def states(self, generic=3, units=0):
    """Rest, uniform flow, unit fields and generic fields."""
    out = []
    if not self.nonzero:
      out += [('rest', [np.zeros(s) for s in self.shapes]), ('uniform', [np.full(s, .5 + i) for i, s in enumerate(self.shapes)])]
      for n, (i, s) in enumerate(itertools.product(range(units), range(len(self.shapes)))):
        x = [np.zeros(t) for t in self.shapes]
        x[s].ravel()[(7 * i + 3 * s) % x[s].size] = 1.
        out.append((f'unit{n}', x))
    out += [(f'generic{k}', [lin.generic(s, k + 3 * i) for i, s in enumerate(self.shapes)]) for k in range(generic)]
    for _, x in out:  # no velocity through walls
      for i, axis in self.wall:
        index = [slice(None)] * x[i].ndim
        index[axis] = -1
        x[i][tuple(index)] = 0
    return out


def operator_cases(shape, kind):
  grid = make_grid(shape)
  nd = grid.ndim
  bc = bcs_of(kind, nd)
  vbc = bcs_of('periodic' if kind == 'periodic' else 'wall', nd)
  cc, faces = grid.cell_center, grid.cell_faces
  corner = (1.,) * nd
  wall = () if kind == 'periodic' else tuple((i, i) for i in range(nd))
  c_of = lambda x, o=cc: var(x, o, grid, bc)
  v_of = lambda xs: tuple(var(x, o, grid, vbc) for x, o in zip(xs, faces))
  cases = {}
  add = lambda name, fn, n=1, **kw: cases.__setitem__(name, Case(fn, [shape] * n, **kw))
  for ax in range(nd):
    add(f'central{ax}', lambda x, ax=ax: arrays(fd.central_difference(c_of(x), ax)))
    add(f'forward{ax}', lambda x, ax=ax: arrays(fd.forward_difference(c_of(x), ax)))
    add(f'backward{ax}', lambda x, ax=ax: arrays(fd.backward_difference(c_of(x), ax)))
    for k in (-1, 2 if kind == 'periodic' else 1):
      add(f'shift{ax}/{k}', lambda x, ax=ax, k=k: arrays(c_of(x).shift(k, ax)))
  add('laplacian', lambda x: arrays(fd.laplacian(c_of(x))))
  add('divergence', lambda *x: arrays(fd.divergence(v_of(x))), nd)
  add('gradient_tensor', lambda *x: arrays(fd.gradient_tensor(v_of(x))), nd)
  if nd == 2:
    add('curl', lambda *x: arrays(fd.curl_2d(v_of(x))), nd)
  add('interpolate', lambda x: arrays(interpolation.linear(c_of(x), corner)))
  add('diffuse', lambda x: arrays(diffusion.diffuse(c_of(x), .3)))
  add('projection', lambda *x: arrays(pressure.projection(v_of(x), solve=pressure.solve_fast_diag)), nd, wall=wall)
  if kind == 'periodic':
    add('projection_cg', lambda *x: arrays(pressure.projection(v_of(x), solve=C22.CG)), nd, single=False)
    add('convect_linear', lambda *x: arrays(advection.convect_linear(v_of(x))), nd)
    add('diffusion_cg', lambda *x: arrays(diffusion.solve_cg(v_of(x), .3, .2, rtol=1e-13, atol=1e-13)), nd, single=False)
    vc = lambda xs: tuple(var(x, cc, grid, vbc) for x in xs)
    add('collocated_advect', lambda *x: arrays(cadvection.advect_linear(c_of(x[0]), vc(x[1:]), .1)), nd + 1)
    add('collocated_convect', lambda *x: arrays(cadvection.convect_linear(vc(x))), nd)
    add('collocated_diffuse', lambda x: arrays(cdiffusion.diffuse(c_of(x), .3)))
    add('collocated_projection', lambda *x: arrays(cpressure.projection(vc(x), solve=C22.CCG)), nd, single=False)
    add('filter', lambda x: arrays(filter_utils.filter(lambda k: jnp.exp(-k**2 / 20), x, grid)))
    add('evm', lambda *x: arrays(subgrid_models.evm_model(v_of(x), lambda s, v: subgrid_models.smagorinsky_viscosity(s, v, .1, .3))), nd, nonzero=True)
    if nd > 1:
      add('kolmogorov', lambda *x: arrays(forcings.kolmogorov_forcing(grid, k=1)(v_of(x))), nd)
    add('linear_forcing', lambda *x: arrays(forcings.linear_forcing(grid, -.3)(v_of(x))), nd)
    add('filtered_forcing', lambda *x: arrays(forcings.filtered_linear_forcing(0., 9., -.3, grid)(v_of(x))), nd)
    for name in ('advect_linear', 'advect_upwind', 'advect_van_leer', 'advect_van_leer_using_limiters', 'advect_step_semilagrangian'):
      add(name, lambda *x, name=name: arrays(getattr(advection, name)(c_of(x[0]), v_of(x[1:]), .1)), nd + 1, smooth=name == 'advect_linear')
    for name in ('upwind', 'lax_wendroff'):
      add(name, lambda *x, name=name: tuple(arrays(getattr(interpolation, name)(c_of(x[0]), faces[a], v_of(x[1:]), .1))[0] for a in range(nd)), nd + 1, smooth=False)
    if all(s % 2 == 0 for s in shape):
      coarse = grids.Grid(tuple(s // 2 for s in shape), domain=grid.domain)
      add('downsample', lambda *x: arrays(resize.downsample_staggered_velocity(grid, coarse, v_of(x))), nd)
    add('point', lambda x: (jnp.stack([interpolation.point_interpolation(jnp.array(p), grids.GridArray(x, cc, grid)) for p in itertools.product((.33, .97), repeat=nd)]),))
    if nd == 2:
      n = (shape[0], shape[1] // 2 + 1)
      square = shape[0] == shape[1]
      if square:
        mesh = grid.rfft_mesh()
        solve = sutils.vorticity_to_velocity(grid)
        add('vorticity_to_velocity', lambda x: tuple(jnp.fft.irfftn(a, s=shape) for a in solve(jnp.fft.rfftn(x))))
        add('spectral_curl', lambda x, y: (jnp.fft.irfftn(sutils.spectral_curl_2d(mesh, (jnp.fft.rfftn(x), jnp.fft.rfftn(y))), s=shape),), 2)
  else:
    add('diffusion_solve', lambda *x: arrays(diffusion.solve_fast_diag(v_of(x), .3, .2)), nd, wall=wall)
    add('advect_van_leer', lambda *x: arrays(advection.advect_van_leer(c_of(x[0]), v_of(x[1:]), .1)), nd + 1, smooth=False, wall=tuple((i + 1, i) for i in range(nd)))
  return cases


def step_cases(shape, kind):
  grid = make_grid(shape)
  nd = grid.ndim
  wall = {'periodic': (), 'channel': (1,), 'box': tuple(range(nd))}[kind]
  cases = {}
  for cfg in C22.PERIODIC if kind == 'periodic' else C22.WALLS:
    step = C22.make_step(cfg, grid, kind=kind)
    cases['-'.join(cfg)] = Case(lambda *x, step=step: step(x[:nd], x[nd:]), [shape] * (2 * nd), smooth=cfg[1] in ('linear', 'convect_linear', 'zero', 'c_linear', 'c_convect_linear'),
                                nonzero=cfg[0] == 'smagorinsky', single='cg' not in ''.join(cfg), wall=tuple((i + k, i) for i in wall for k in (0, nd)))
  return cases


SPECTRAL = ('backward_forward_euler', 'crank_nicolson_rk2', 'crank_nicolson_rk3', 'crank_nicolson_rk4', 'imex_rk_sil3')


def spectral_cases(n):
  cases = {}
  g2, g1 = grids.Grid((n, n), domain=((0., 2 * np.pi),) * 2), grids.Grid((2 * n,), domain=((0., 2 * np.pi),))
  def add(name, eq, shape, dt=.05):
    for stepper in SPECTRAL:
      step = getattr(sts, stepper)(eq, dt)
      if name == 'burgers':  # the state and its time
        cases[f'{name}-{stepper}'] = Case(lambda x, step=step: (jnp.fft.irfftn(step((jnp.fft.rfftn(x), jnp.zeros(())))[0], s=shape),), [shape])
      else:
        cases[f'{name}-{stepper}'] = Case(lambda x, step=step: (jnp.fft.irfftn(step(jnp.fft.rfftn(x)), s=shape),), [shape])
  add('ns', sequations.NavierStokes2D(.05, g2, smooth=True), (n, n))
  add('ns-drag', sequations.NavierStokes2D(.05, g2, drag=.1, smooth=False), (n, n))
  add('ns-forced', sequations.ForcedNavierStokes2D(.05, g2, True), (n, n))
  add('burgers', sequations.BurgersEquation(.05, g1), (2 * n,))
  add('ks', sequations.KuramotoSivashinsky(g1), (2 * n,))
  return cases


FAMILIES = {'operators': operator_cases, 'steps': step_cases, 'spectral': lambda n, _: spectral_cases(n)}


@functools.lru_cache(None)
def table(family, shape, kind):
  return FAMILIES[family](shape, kind)


def flat(case):
  """The case as a map between flat vectors."""
  sizes = [int(np.prod(s)) for s in case.shapes]
  cuts = np.cumsum([0] + sizes)
  def fn(z):
    out = case.fn(*[z[a:b].reshape(s) for a, b, s in zip(cuts, cuts[1:], case.shapes)])
    return jnp.concatenate([o.ravel() for o in out])
  return fn


def same(rec, got, want, key, what, tol=1e-9):
  ok = rec.expect(len(got) == len(want), key, f'{what}: {len(got)} results instead of {len(want)}')
  for i, (g, w) in enumerate(zip(got, want)):
    ok &= rec.expect(np.asarray(g).dtype == np.asarray(w).dtype, key, f'{what}: result {i} has type {np.asarray(g).dtype}, not {np.asarray(w).dtype}')
    ok &= rec.close(g, w, key, f'{what}: result {i}', tol, tol)
  return bool(ok)


# ------------------------------------------------- compiling, batching, scans
def unit_transform(rec, family, shape, kind, part=(0, 1), more=True):
  for name, case in list(table(family, shape, kind).items())[part[0]::part[1]]:
    key0 = f'{family} {name} {kind} {shape}'
    sts_ = case.states(2, 1)
    names = [s for s, _ in sts_]
    batch = [np.array([x[i] for _, x in sts_]) for i in range(len(case.shapes))]
    compiled = jax.jit(case.fn)
    good = True
    want = []
    for i, s in enumerate(names):
      key = f'{key0} {s}'
      rec.state(key)
      xs = [jnp.asarray(b[i]) for b in batch]
      ok, out = rec.attempt(lambda: tuple(np.asarray(o) for o in compiled(*xs)), key, 'compiled evaluation')
      if not ok:
        return
      want.append(out)
      good &= rec.expect(all(np.isfinite(o).all() for o in out), key, 'the result is not finite')
      good &= rec.expect(all(o.dtype == np.float64 for o in out), key, f'results of type {[o.dtype for o in out]} for float64 arguments')
      if s == 'generic0' or more and s == 'unit0':  # evaluating without compilation is slow
        ok, eager = rec.attempt(lambda: case.fn(*xs), key, 'evaluation without compilation')
        good &= ok and same(rec, eager, out, key, 'without and with compilation')
        if not more:
          continue
        given = [np.array(x) for x in xs]  # writable: results must not be computed in place
        ok, eager = rec.attempt(lambda: case.fn(*given), key, 'evaluation of numpy arrays')
        good &= ok and same(rec, eager, out, key, 'numpy and device arguments')
        good &= rec.expect(all(np.array_equal(a, b) for a, b in zip(given, xs)), key, 'the arguments were changed in place')
        rec.step(2)
    stacked = [np.array([w[i] for w in want]) for i in range(len(want[0]))]
    dev = [jnp.asarray(b) for b in batch]
    runs = {'batched': lambda: jax.jit(jax.vmap(case.fn))(*dev),
            'batched along the last axis': lambda: jax.jit(jax.vmap(case.fn, -1))(*[jnp.moveaxis(b, 0, -1) for b in dev]),
            'scanned': lambda: jax.lax.map(lambda t: case.fn(*t), dev),
            'compiled twice': lambda: jax.jit(jax.vmap(compiled))(*dev)}
    for what, run in list(runs.items())[:4 if more else 1]:
      ok, out = rec.attempt(run, key0, what)
      good &= ok and same(rec, out, stacked, key0, what)
      rec.step(len(names))
    if not case.single:  # the tolerance asked of conjugate gradients is out of reach
      rec.trace(len(names) if good else 0)
      continue
    # one precision after the other
    with jax.enable_x64(False):
      ok, out = rec.attempt(lambda: [np.asarray(o) for o in jax.jit(jax.vmap(case.fn))(*[jnp.asarray(b, jnp.float32) for b in batch])], key0, 'single precision')
    if ok:
      for i, (o, w) in enumerate(zip(out, stacked)):
        good &= rec.expect(o.dtype == np.float32, key0, f'single precision: result {i} has type {o.dtype}')
        good &= rec.close(o.astype(np.float64), w, key0, f'single precision: result {i}', 5e-5, 5e-5)
    if not more:
      rec.trace(len(names) if good else 0)
      continue
    ok, out = rec.attempt(lambda: [np.asarray(o) for o in jax.jit(jax.vmap(case.fn))(*[jnp.asarray(b) for b in batch])], key0, 'double precision after single precision')
    good &= ok and same(rec, out, stacked, key0, 'double precision after single precision')
    rec.trace(len(names) if good else 0)


# ---------------------------------------------------------------- derivatives
def jacobians(rec, fn, xs, key, finite_only=False):
  """Forward and reverse Jacobians of fn at the states xs, cross checked."""
  x = jnp.asarray(xs)
  ok, out = rec.attempt(lambda: (np.asarray(jax.jit(jax.vmap(jax.jacfwd(fn)))(x)), np.asarray(jax.jit(jax.vmap(jax.jacrev(fn)))(x))), key, 'differentiation')
  if not ok:
    return None
  fwd, rev = out
  rec.step(fwd.shape[0] * (fwd.shape[1] + fwd.shape[2]))
  bad = [i for i in range(len(xs)) if not (np.isfinite(fwd[i]).all() and np.isfinite(rev[i]).all())]
  if bad:
    rec.fail(key, f'derivatives are not finite at {len(bad)} of {len(xs)} states, first at {np.asarray(xs[bad[0]]).tolist()}')
    return None
  return fwd if rec.close(rev, fwd, key, 'reverse derivatives are not the transpose of the forward ones', 1e-8, 1e-8) else None


def differences(fn, xs, h):
  """Central differences along every coordinate."""
  n = xs.shape[1]
  f = jax.jit(jax.vmap(fn))
  at = lambda z: np.asarray(f(jnp.asarray(z.reshape(-1, n)))).reshape(z.shape[:2] + (-1,))
  e = np.eye(n)
  # fourth order: exact for the polynomials, 1e-9 for the others
  d = (8 * (at(xs[:, None] + h * e) - at(xs[:, None] - h * e)) - (at(xs[:, None] + 2 * h * e) - at(xs[:, None] - 2 * h * e))) / (12 * h)
  return np.moveaxis(d, 1, 2)


def unit_derivative(rec, family, shape, kind, part=(0, 1), generic=2, skip=()):
  for name, case in list(table(family, shape, kind).items())[part[0]::part[1]]:
    if name in skip:
      continue
    key = f'{family} {name} {kind} {shape} derivatives'
    sts_ = case.states(generic, 1)
    xs = np.array([np.concatenate([a.ravel() for a in x]) for _, x in sts_])
    for s, _ in sts_:
      rec.state(key, s)
    fn = flat(case)
    jac = jacobians(rec, fn, xs, key)
    if jac is None:
      continue
    smooth = [i for i, (s, _) in enumerate(sts_) if case.smooth or s.startswith('generic')]
    use = smooth  # the differences may push velocity through a wall: values are defined there too
    want = differences(fn, xs[use], 1e-3 if case.smooth else 1e-4)
    rec.trace(len(sts_) if rec.close(jac[use], want, key, 'the derivative is not the limit of the differences', 1e-6, 1e-6) else 0)


def unit_limited_words(rec, name, alphabet, n, kind, velocities, shape=None):
  """Kinked schemes: every word of values, exactly on and beside the kinks."""
  grid = grids.Grid((n,), step=(.5,))
  bc = bcs_of(kind, 1)
  vbc = bc if kind == 'periodic' else bcs_of('wall', 1)
  words = lin.words(alphabet, n)
  vels = np.array(velocities, float)
  if kind != 'periodic':
    vels = vels * np.array([1.] * (n - 1) + [0.])
  xs = np.array([np.concatenate([w, v]) for v in vels for w in words])

  def fn(z):
    c, v = var(z[:n], (.5,), grid, bc), (var(z[n:], (1.,), grid, vbc),)
    if name == 'tvd':
      return interpolation.apply_tvd_limiter(interpolation.lax_wendroff)(c, (1.,), v, .1).data
    if name in ('upwind', 'lax_wendroff'):
      return getattr(interpolation, name)(c, (1.,), v, .1).data
    return getattr(advection, name)(c, v, .1).data

  key = f'{name} {kind} words of {n} over {alphabet}'
  for v in vels:
    rec.state(key, tuple(v))
  rec.sample(dict(scheme=name, velocity=vels[0], values=words[1]))
  if jacobians(rec, fn, xs, key) is None:  # on the kinks: finite, both modes agree
    return
  # beside the kinks the derivative is the limit of the differences
  off = np.concatenate([lin.generic((n,), 1) * .21, lin.generic((n,), 2) * .17])
  if kind != 'periodic':
    off[-1] = 0
  ys = xs + off
  jac = jacobians(rec, fn, ys, key + ', displaced')
  if jac is None:
    return
  want = differences(fn, ys, 1e-5)
  # rows next to a kink closer than the stencil of the differences are dropped
  coarse = differences(fn, ys, 2e-5)
  regular = np.abs(want - coarse) < 1e-5
  rec.expect(regular.mean() > .98, key, f'only {regular.mean():.3f} of the derivatives settle')
  good = rec.close(np.where(regular, jac, 0), np.where(regular, want, 0), key, 'the derivative is not the limit of the differences', 1e-5, 1e-5)
  rec.trace(len(xs) if good else 0)


def unit_rollout(rec, family, shape, kind, names, steps, only_last=True):
  """The derivative of a rollout is the product of the derivatives of its steps."""
  for name in names:
    case = table(family, shape, kind)[name]
    n_state = len(case.shapes) // (2 if family == 'steps' else 1)
    force = [lin.generic(s, 7 + i) * .3 for i, s in enumerate(case.shapes[n_state:])]
    inner = Case(lambda *x, case=case, force=force: case.fn(*x, *force), case.shapes[:n_state])
    fn = flat(inner)
    xs = np.array([np.concatenate([lin.generic(s, k + 3 * i).ravel() * .5 for i, s in enumerate(inner.shapes)]) for k in range(3)])
    one = jax.jit(jax.vmap(fn))
    jac1 = jax.jit(jax.vmap(jax.jacfwd(fn)))
    state, prod = jnp.asarray(xs), np.broadcast_to(np.eye(xs.shape[1]), (len(xs), xs.shape[1], xs.shape[1]))
    states, prods = [np.asarray(state)], [prod]
    for _ in range(steps):
      prod = np.asarray(jac1(state)) @ prod
      state = one(state)
      states.append(np.asarray(state))
      prods.append(prod)
    for k in [steps] if only_last else range(1, steps + 1):
      key = f'{family} {name} {kind} {shape} rollout of {k}'
      rec.state(key)
      good = True
      for what, roll in {'repeated': funcutils.repeated(fn, k), 'repeated, checkpointed': funcutils.repeated(jax.checkpoint(fn), k),
                         'nested': funcutils.repeated(funcutils.repeated(fn, k), 1)}.items():
        if only_last and what == 'nested':
          continue
        ok, got = rec.attempt(lambda: jax.jit(jax.vmap(roll))(jnp.asarray(xs)), key, what)
        good &= ok and rec.close(got, states[k], key, f'{what}: final state', 1e-9, 1e-9)
        for mode in (jax.jacrev,) if only_last or what != 'repeated' else (jax.jacfwd, jax.jacrev):
          ok, got = rec.attempt(lambda: jax.jit(jax.vmap(mode(roll)))(jnp.asarray(xs)), key, what)
          good &= ok and rec.close(got, prods[k], key, f'{what}: derivative ({mode.__name__})', 1e-8, 1e-8)
        rec.step(len(xs) * k)
      for first in (True, False):
        roll = funcutils.trajectory(fn, k, lambda z: 2 * z, start_with_input=first)
        ok, got = rec.attempt(lambda: jax.jit(jax.vmap(jax.jacrev(lambda z: roll(z)[1])))(jnp.asarray(xs)), key, 'trajectory')
        want = 2 * np.stack(prods[:k] if first else prods[1:k + 1], 1)
        good &= ok and rec.close(got, want, key, f'trajectory frames, start_with_input={first}: derivative', 1e-8, 1e-8)
        rec.step(len(xs) * k)
      rec.trace(len(xs) if good else 0)


# ------------------------------------------- one compiled function, many kinds
def variables(shape):
  """Arguments of one array shape that differ only in what is static."""
  g1, g2 = grids.Grid(shape, step=.5), grids.Grid(shape, step=.25)
  g3 = grids.Grid(shape, domain=[(1., 1. + .5 * n) for n in shape])
  nd = len(shape)
  x = lin.generic(shape)
  dd = lambda lo, hi: boundaries.dirichlet_boundary_conditions(nd, ((lo, hi),) + ((0., 0.),) * (nd - 1))
  nn = lambda lo, hi: boundaries.neumann_boundary_conditions(nd, ((lo, hi),) + ((0., 0.),) * (nd - 1))
  half, face = (.5,) * nd, (1.,) + (.5,) * (nd - 1)
  per = boundaries.periodic_boundary_conditions(nd)
  mixed = boundaries.ConstantBoundaryConditions(((boundaries.BCType.DIRICHLET, boundaries.BCType.NEUMANN),) * nd, ((0., 0.),) * nd)
  return {
      'periodic': var(x, half, g1, per), 'finer': var(x, half, g2, per), 'moved': var(x, half, g3, per), 'faces': var(x, face, g1, per),
      'walls 0 0': var(x, half, g1, dd(0., 0.)), 'walls 1 0': var(x, half, g1, dd(1., 0.)), 'walls 0 1': var(x, half, g1, dd(0., 1.)),
      'homogeneous': var(x, half, g1, boundaries.HomogeneousBoundaryConditions(((boundaries.BCType.DIRICHLET,) * 2,) * nd)),
      'flux 0 0': var(x, half, g1, nn(0., 0.)), 'flux 1 -1': var(x, half, g1, nn(1., -1.)), 'mixed': var(x, half, g1, mixed)}


OPS = {'laplacian': fd.laplacian, 'forward': lambda u: fd.forward_difference(u, 0), 'shift': lambda u: u.shift(1, 0), 'central': lambda u: fd.central_difference(u, 0),
       'interpolate': lambda u: interpolation.linear(u, (1.,) + u.offset[1:]), 'same': lambda u: u, 'mesh': lambda u: u.array * sum(u.grid.mesh(u.offset)),
       'double': lambda u: grids.GridVariable(u.array * 2, u.bc), 'trim': lambda u: u.trim_boundary()}


def static(out):
  """What the result says about itself besides its values."""
  if isinstance(out, grids.GridVariable):
    return ('variable', out.offset, out.grid, out.bc)
  return ('array', out.offset, out.grid)


def unit_history(rec, shape, length, names, pairs):
  """All argument sequences: the compiled function never confuses two kinds."""
  kinds = variables(shape)
  for name in names:
    op = OPS[name]
    want = {k: op(u) for k, u in kinds.items()}
    data = {k: np.asarray(arrays(w)[0]) for k, w in want.items()}
    for seq in itertools.permutations(kinds, 2) if pairs else ():
      fresh = jax.jit(lambda u, op=op: op(u))
      key = f'{name} {shape} {" then ".join(seq)}'
      rec.state(key)
      good = True
      for k in seq + seq[:1]:
        got = fresh(kinds[k])
        rec.step()
        good &= rec.close(arrays(got)[0], data[k], key, f'{name} of the argument {k!r}')
        good &= rec.expect(static(got) == static(want[k]), key, f'{name} of {k!r} is described as {static(got)}, not {static(want[k])}')
      rec.trace(int(good))
    # one long history on one compiled function: every ordered pair in a row
    fn = jax.jit(op)
    order = []
    for a, b in itertools.product(kinds, repeat=2):
      order += [a, b]
    good = True
    key = f'{name} {shape} all pairs in one history'
    rec.state(key)
    for k in order * length:
      got = fn(kinds[k])
      rec.step()
      good &= rec.close(arrays(got)[0], data[k], key, f'{name} of the argument {k!r}')
      good &= rec.expect(static(got) == static(want[k]), key, f'{name} of {k!r} is described as {static(got)}')
    rec.trace(int(good))
    # batching and scanning keep the description
    for k, u in kinds.items():
      key = f'{name} {shape} {k} batched'
      rec.state(key)
      stack = jax.tree_util.tree_map(lambda x: jnp.stack([jnp.asarray(x), 2 * jnp.asarray(x), -jnp.asarray(x)]), u)
      ok, got = rec.attempt(lambda: jax.vmap(op)(stack), key, 'batched')
      if not ok:
        continue
      each = [op(jax.tree_util.tree_map(lambda x, i=i: x[i], stack)) for i in range(3)]
      good = rec.close(arrays(got)[0], np.array([arrays(e)[0] for e in each]), key, 'batched values')
      good &= rec.expect(static(got) == static(each[0]), key, f'batched result described as {static(got)}')
      ok, got = rec.attempt(lambda: jax.lax.map(op, stack), key, 'scanned')
      good &= ok and rec.close(arrays(got)[0], np.array([arrays(e)[0] for e in each]), key, 'scanned values') and rec.expect(static(got) == static(each[0]), key, 'scanned description')
      rec.step(6)
      rec.trace(int(good))


# composed of operators and steppers that the quick tier differentiates in other configurations
SLOW = tuple('-'.join(c) for c in [C22.PERIODIC[i] for i in (0, 2, 4, 7, 10, 11, 13)] + [C22.WALLS[i] for i in (1, 3)]) + tuple(
    f'{e}-{t}' for e in ('ns-drag', 'ns-forced', 'ks') for t in SPECTRAL[1:])


def units(tier):
  big = tier == 'thorough'
  us = []
  def both(family, shape, kind, parts):
    tag = f'{family}/{kind}/{shape}'
    for i in range(parts):
      us.append((f'transform/{tag}/{i}', unit_transform, dict(family=family, shape=shape, kind=kind, part=(i, parts), more=big or family == 'operators' and kind == 'periodic')))
      us.append((f'derivative/{tag}/{i}', unit_derivative, dict(family=family, shape=shape, kind=kind, part=(i, parts), generic=2, skip=() if big else SLOW)))
  for kind in ('periodic', 'dirichlet', 'neumann') + (('channel',) if big else ()):
    for shape in [(4, 4)] + ([(4, 3), (6,), (3, 2, 4)] if big else []):
      if kind == 'channel' and len(shape) < 2:
        continue
      both('operators', shape, kind, 4)
  for kind in ('periodic', 'channel', 'box'):
    for shape in [(3, 4)] + ([(4, 4), (3, 3, 2)] if big else []):
      both('steps', shape, kind, (7 if kind == 'periodic' else 2) * (2 if big else 1))
  for n in [4] + ([6] if big else []):
    both('spectral', n, 'periodic', 3)
  one = [(1.,) * 5, (-1.,) * 5, (0.,) * 5]
  signs = [v for v in itertools.product((-1., 0., 1.), repeat=5)]
  for name in ('advect_van_leer', 'advect_van_leer_using_limiters', 'advect_upwind', 'advect_step_semilagrangian', 'tvd', 'upwind', 'lax_wendroff'):
    us.append((f'words/{name}/uniform', unit_limited_words, dict(name=name, alphabet=(-1., 0., 2.), n=5, kind='periodic', velocities=one)))
    us.append((f'words/{name}/signs', unit_limited_words, dict(name=name, alphabet=(0., 1.) if not big else (-1., 0., 2.), n=5, kind='periodic', velocities=signs)))
    if big:
      us.append((f'words/{name}/letters', unit_limited_words, dict(name=name, alphabet=(-1., 0., .5, 2.), n=5, kind='periodic', velocities=one)))
  for kind in ('wall', 'dirichlet', 'neumann'):
    us.append((f'words/advect_van_leer/{kind}', unit_limited_words, dict(name='advect_van_leer', alphabet=(-1., 0., 2.), n=5, kind=kind, velocities=signs[::3] if big else one + signs[::27])))
  rolls = ('semi-convect_linear-fast-midpoint', 'semi-linear-cg-midpoint', 'implicit-linear-cg-cg', 'semi-linear-fast-rk4', 'semi-van_leer_direct-fast-heun', 'collocated-c_convect_linear-ccg-euler', 'smagorinsky-linear-fast-heun')
  for name in rolls if big else rolls[:1]:
    us.append((f'rollout/{name}', unit_rollout, dict(family='steps', shape=(3, 4), kind='periodic', names=[name], steps=2 if not big else 5, only_last=not big)))
  us.append(('rollout/spectral', unit_rollout, dict(family='spectral', shape=4, kind='periodic', names=['ns-crank_nicolson_rk4', 'burgers-imex_rk_sil3', 'ks-backward_forward_euler'][:3 if big else 1], steps=2 if not big else 5, only_last=not big)))
  for shape in [(5,), (3, 4)]:
    for i in range(3):
      us.append((f'history/{shape}/{i}', unit_history, dict(shape=shape, length=2 if big else 1, names=list(OPS)[i::3], pairs=big)))
  return us
