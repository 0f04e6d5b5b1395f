"""C22: whole solvers respect the symmetries and similarity laws of the flow.

Every translation, every signed permutation of the axes and every change of
units is applied to every state of a basis (unit velocities and generic
states); the assembled solvers have to commute with it over several steps.
"""
import functools
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from jax_cfd.base import advection
from jax_cfd.base import boundaries
from jax_cfd.base import diffusion
from jax_cfd.base import equations
from jax_cfd.base import finite_differences as fd
from jax_cfd.base import grids
from jax_cfd.base import pressure
from jax_cfd.base import subgrid_models
from jax_cfd.base import time_stepping as ts
from jax_cfd.collocated import advection as cadvection
from jax_cfd.collocated import equations as cequations
from jax_cfd.collocated import pressure as cpressure
from jax_cfd.spectral import equations as sequations
from jax_cfd.spectral import time_stepping as sts
from mc import lin

PROPERTY = 'C22'
RULE = ('state = (solver configuration, initial velocity and force, group element); transition = one step of the assembled solver; validated when stepping commutes '
        'with the transformation, conserves momentum and mass, and keeps rest and uniform flow')
BOUNDS = ('periodic grids 4x4, 5x4, 3x3x3 and channels, boxes and driven cavities 4x4, 5x4; every translation, every signed axis permutation, speed, length and '
          'density scales 2, 1/2, 3, 1e4; every unit velocity plus generic states; 2 steps')
ASSUMPTIONS = ['float64, tolerance 1e-8; conjugate gradients run to 1e-12', 'square grids for the full point group, one permutation of unequal axes']

CONVECT = {
    'van_leer': lambda dt: None,  # the default of the solvers
    'van_leer_direct': lambda dt: lambda v: tuple(advection.advect_van_leer(u, v, dt) for u in v),
    'linear': lambda dt: lambda v: tuple(advection.advect_linear(u, v, dt) for u in v),
    'upwind': lambda dt: lambda v: tuple(advection.advect_upwind(u, v, dt) for u in v),
    'convect_linear': lambda dt: advection.convect_linear,
    'semilagrangian': lambda dt: lambda v: tuple((s.array - u.array) / dt for s, u in zip([advection.advect_step_semilagrangian(u, v, dt) for u in v], v)),
    'zero': lambda dt: lambda v: tuple(0 * u.array for u in v),
    'c_linear': lambda dt: lambda v: tuple(cadvection.advect_linear(u, v, dt) for u in v),
    'c_convect_linear': lambda dt: cadvection.convect_linear,
}
STEPPERS = dict(euler=ts.forward_euler, midpoint=ts.midpoint_rk2, heun=ts.heun_rk2, rk4=ts.classic_rk4)
CG = functools.partial(pressure.solve_cg, rtol=1e-13, atol=1e-13)
CCG = functools.partial(cpressure.solve_cg, rtol=1e-13, atol=1e-13)
DIFF_CG = functools.partial(diffusion.solve_cg, rtol=1e-13, atol=1e-13)


def velocity_bcs(kind, ndim, flips=None, scale=1.):
  """Boundary conditions of every component; flips: sign of the lid speed."""
  if kind == 'periodic':
    return (boundaries.periodic_boundary_conditions(ndim),) * ndim
  if kind == 'channel':
    return (boundaries.channel_flow_boundary_conditions(ndim),) * ndim
  if kind == 'box':
    return (boundaries.dirichlet_boundary_conditions(ndim),) * ndim
  if kind == 'lid':  # the upper y wall moves along x
    lid = 0.75 * scale * (flips or 1.)
    zero = ((0., 0.),) * ndim
    return (boundaries.dirichlet_boundary_conditions(ndim, ((0., 0.), (0., lid)) + zero[2:]),) + (boundaries.dirichlet_boundary_conditions(ndim, zero),) * (ndim - 1)
  raise ValueError(kind)


def make_step(cfg, grid, kind='periodic', rho=1.5, nu=0.06, dt=0.1, drag=-0.2, lid_sign=None, speed=1.):
  """fn(v arrays, f arrays) -> velocity after one step."""
  solver, conv, press, stepper = cfg
  ndim = grid.ndim
  bcs = velocity_bcs(kind, ndim, lid_sign, speed)
  offs = (grid.cell_center,) * ndim if solver == 'collocated' else grid.cell_faces
  convect = CONVECT[conv](dt)
  psolve = {'fast': pressure.solve_fast_diag, 'cg': CG, 'ccg': CCG, 'channel': pressure.solve_fast_diag_channel_flow}[press]

  def run(v, f):
    force = lambda u: tuple(grids.GridArray(a, o, grid) + drag * c.array for a, o, c in zip(f, offs, u))
    args = dict(density=rho, viscosity=nu, dt=dt, grid=grid, forcing=force, pressure_solve=psolve)
    if solver == 'semi':
      step = equations.semi_implicit_navier_stokes(convect=convect, time_stepper=STEPPERS[stepper], **args)
    elif solver == 'implicit':
      step = equations.implicit_diffusion_navier_stokes(convect=convect, diffusion_solve=diffusion.solve_fast_diag if stepper == 'fast' else DIFF_CG, **args)
    elif solver == 'smagorinsky':
      step = subgrid_models.explicit_smagorinsky_navier_stokes(cs=0.3, convect=convect, time_stepper=STEPPERS[stepper], **args)
    elif solver == 'collocated':
      step = cequations.semi_implicit_navier_stokes(convect=convect, **args)
    else:
      raise ValueError(solver)
    u = tuple(grids.GridVariable(grids.GridArray(a, o, grid), bc) for a, o, bc in zip(v, offs, bcs))
    return tuple(c.data for c in step(u))
  return run


def compiled(cfg, grid, steps=2, **kw):
  fn = jax.jit(jax.vmap(make_step(cfg, grid, **kw)))
  def run(v, f):
    v, f = tuple(jnp.asarray(c) for c in v), tuple(jnp.asarray(c) for c in f)
    out = []
    for _ in range(steps):
      v = fn(v, f)
      out.append([np.asarray(c) for c in v])
    return out
  return run


def states(grid, kind, collocated, count=6):
  """Batch of initial velocities and forces: every unit velocity and generic ones."""
  ndim, shape = grid.ndim, grid.shape
  vs, fs = [], []
  for c in range(ndim):
    for im in lin.impulses(shape):
      vs.append([np.asarray(im) * 0.5 if i == c else np.zeros(shape) for i in range(ndim)])
      fs.append([np.zeros(shape)] * ndim)
  for k in range(count):
    vs.append([lin.generic(shape, k + 3 * i) for i in range(ndim)])
    fs.append([lin.generic(shape, k + 3 * i + 1) if k % 2 else np.zeros(shape) for i in range(ndim)])
  v = [np.array([s[i] for s in vs]) for i in range(ndim)]
  f = [np.array([s[i] for s in fs]) for i in range(ndim)]
  if kind != 'periodic':
    # velocity through a wall is fixed at zero: the last face of the component
    walls = {'channel': (1,), 'box': range(ndim), 'lid': range(ndim)}[kind]
    for a in walls:
      index = [slice(None)] * (ndim + 1)
      index[a + 1] = -1
      v[a][tuple(index)] = 0
      f[a][tuple(index)] = 0
  return v, f


# ------------------------------------------------------------ transformations
def reflect(arrays, axis, collocated):
  """Mirror the batch of components along one axis."""
  out = []
  for c, a in enumerate(arrays):
    b = np.flip(a, axis + 1)
    if c == axis:
      b = -b
      if not collocated:
        b = np.roll(b, -1, axis + 1)  # faces: i -> N - 2 - i
    out.append(b)
  return out


def permute(arrays, perm):
  """New axis i is old axis perm[i]."""
  return [np.transpose(arrays[p], (0,) + tuple(q + 1 for q in perm)) for p in perm]


def act(arrays, perm, mirrors, collocated):
  for a in mirrors:
    arrays = reflect(arrays, a, collocated)
  return permute(arrays, perm)


def check_equal(rec, key, got, want, what):
  ok = True
  for n, (g, w) in enumerate(zip(got, want)):
    for c, (a, b) in enumerate(zip(g, w)):
      ok &= rec.close(a, b, key, f'{what}: component {c} after {n + 1} steps', 1e-8, 1e-8)
  return bool(ok)


def cubic(shape):
  return grids.Grid(shape, domain=[(0., 0.8 * n) for n in shape])


def unit_translations(rec, cfg, shape, kind):
  grid = grids.Grid(shape, domain=[(0., s * n) for s, n in zip((0.8, 1.1, 0.9), shape)])
  col = cfg[0] == 'collocated'
  v, f = states(grid, kind, col)
  fn = compiled(cfg, grid, kind=kind)
  key0 = f'{"/".join(cfg)} {kind} {shape}'
  ok, base = rec.attempt(lambda: fn(v, f), key0, 'stepping')
  if not ok:
    return
  periodic_axes = range(grid.ndim) if kind == 'periodic' else (0,)
  for shift in itertools.product(*[range(n) if a in periodic_axes else (0,) for a, n in enumerate(shape)]):
    key = f'{key0} translation {shift}'
    rec.state(key)
    move = lambda arrs: [np.roll(a, shift, tuple(range(1, grid.ndim + 1))) for a in arrs]
    got = fn(move(v), move(f))
    rec.step(2 * len(v[0]))
    rec.trace(len(v[0]) if check_equal(rec, key, got, [move(s) for s in base], 'translated flow') else 0)


def unit_point_group(rec, cfg, shape, kind):
  """Signed permutations; the driven cavity and the channel keep their walls."""
  ndim = len(shape)
  grid = cubic(shape)
  col = cfg[0] == 'collocated'
  v, f = states(grid, kind, col)
  key0 = f'{"/".join(cfg)} {kind} {shape}'
  fns = {None: compiled(cfg, grid, kind=kind)}
  ok, base = rec.attempt(lambda: fns[None](v, f), key0, 'stepping')
  if not ok:
    return
  perms = list(itertools.permutations(range(ndim))) if kind in ('periodic', 'box') else [tuple(range(ndim))]
  for perm in perms:
    newshape = tuple(shape[p] for p in perm)
    if newshape != shape and perm not in fns:
      fns[perm] = compiled(cfg, cubic(newshape), kind=kind)
    for mirrors in itertools.chain.from_iterable(itertools.combinations(range(ndim), r) for r in range(ndim + 1)):
      if kind == 'lid' and 1 in mirrors:
        continue  # would move the lid to the other wall
      if perm == tuple(range(ndim)) and not mirrors:
        continue
      fn = fns[None] if newshape == shape else fns[perm]
      if kind == 'lid' and 0 in mirrors:
        if 'lid' not in fns:
          fns['lid'] = compiled(cfg, grid, kind=kind, lid_sign=-1.)
        fn = fns['lid']
      key = f'{key0} axes {perm} mirrored {mirrors}'
      rec.state(key)
      got = fn(act(v, perm, mirrors, col), act(f, perm, mirrors, col))
      rec.step(2 * len(v[0]))
      want = [act(s, perm, mirrors, col) for s in base]
      rec.trace(len(v[0]) if check_equal(rec, key, got, want, 'mirrored or permuted flow') else 0)


def unit_similarity(rec, cfg, shape, kind, scales):
  """Changing the origin and the units of length, time and mass changes only those."""
  grid = cubic(shape)
  col = cfg[0] == 'collocated'
  v, f = states(grid, kind, col)
  p = dict(rho=1.5, nu=0.06, dt=0.1, drag=-0.2)
  key0 = f'{"/".join(cfg)} {kind} {shape}'
  ok, base = rec.attempt(lambda: compiled(cfg, grid, kind=kind, **p)(v, f), key0, 'stepping')
  if not ok:
    return
  for speed, length, mass in scales:
    key = f'{key0} speed x{speed} length x{length} density x{mass}'
    rec.state(key)
    # the origin is arbitrary, too (semi-Lagrangian advection asks for domains that start at zero)
    origin = (0., 0., 0.) if 'semilag' in cfg[1] else (2.5, -7.25, 1.)
    g2 = grids.Grid(shape, domain=[(o * length, (o + hi - lo) * length) for o, (lo, hi) in zip(origin, grid.domain)])
    q = dict(rho=p['rho'] * mass, nu=p['nu'] * speed * length * mass, dt=p['dt'] * length / speed, drag=p['drag'] * mass * speed / length)
    ok, got = rec.attempt(lambda: compiled(cfg, g2, kind=kind, speed=speed, **q)([speed * a for a in v], [mass * speed ** 2 / length * a for a in f]), key, 'stepping')
    if not ok:
      continue
    rec.step(2 * len(v[0]))
    rec.trace(len(v[0]) if check_equal(rec, key, got, [[speed * a for a in s] for s in base], 'rescaled flow') else 0)


def unit_balance(rec, cfg, shape, kind, conserves):
  """Momentum, mass, rest, uniform flow, walls."""
  ndim = len(shape)
  grid = grids.Grid(shape, domain=[(0., s * n) for s, n in zip((0.8, 1.1, 0.9), shape)])
  col = cfg[0] == 'collocated'
  v, f = states(grid, kind, col)
  key = f'{"/".join(cfg)} {kind} {shape}'
  rho, dt = 1.5, 0.1
  fn = compiled(cfg, grid, kind=kind, rho=rho, dt=dt, drag=0., steps=3)
  ok, out = rec.attempt(lambda: fn(v, f), key, 'stepping')
  if not ok:
    return
  rec.state(key)
  rec.step(3 * len(v[0]))
  good = True
  axes = tuple(range(1, ndim + 1))
  if conserves:
    for n, s in enumerate(out):
      for c in range(ndim):
        want = v[c].sum(axes) + (n + 1) * dt * f[c].sum(axes) / rho
        good &= rec.close(s[c].sum(axes), want, key, f'momentum {c} after {n + 1} steps', 1e-8, 1e-8)
  if not col:
    for n, s in enumerate(out):
      div = 0
      for c in range(ndim):
        prev = np.roll(s[c], 1, c + 1)
        # the face below the first cell is the wall (last entry, zero) or the periodic image
        div = div + (s[c] - prev) / grid.step[c]
      good &= rec.close(div, np.zeros_like(div), key, f'divergence after {n + 1} steps', 1e-8, 1e-8)
      if kind != 'periodic':
        for c in ((1,) if kind == 'channel' else range(ndim)):
          good &= rec.close(np.take(s[c], -1, c + 1), 0 * np.take(s[c], -1, c + 1), key, f'flow through the wall of axis {c}')
  rec.trace(len(v[0]) if good else 0)
  # rest and uniform flow
  zero = [np.zeros_like(a) for a in f]
  if kind != 'lid':
    key2 = f'{key} rest'
    rec.state(key2)
    got = fn(zero, zero)
    rec.step(3)
    rec.trace(bool(check_equal(rec, key2, got, [zero] * 3, 'rest')))
  if kind == 'periodic':
    for u in itertools.product((-1., 0., 0.5), repeat=ndim):
      key2 = f'{key} uniform {u}'
      rec.state(key2)
      flow = [np.full_like(a, x) for a, x in zip(f, u)]
      rec.step(3)
      rec.trace(bool(check_equal(rec, key2, fn(flow, zero), [flow] * 3, 'uniform flow')))


def solenoidal_basis(grid, collocated=False):
  ndim, shape = grid.ndim, grid.shape
  n = int(np.prod(shape))
  rows = np.zeros((n, ndim * n))
  idx = np.arange(n).reshape(shape)
  for c in range(ndim):
    h = grid.step[c]
    for p in np.ndindex(shape):
      i = idx[p]
      lo = list(p); lo[c] = (p[c] - 1) % shape[c]
      rows[i, c * n + i] += 1 / h
      rows[i, c * n + idx[tuple(lo)]] -= 1 / h
  u, s, vt = np.linalg.svd(rows)
  rank = int((s > 1e-9).sum())
  return vt[rank:].reshape((-1, ndim) + shape)


def unit_energy(rec, shape, bckind):
  """Central advection by a solenoidal flow is skew: it moves energy, it makes none."""
  grid = grids.Grid(shape, domain=[(0., s * n) for s, n in zip((0.8, 1.1, 0.9), shape)])
  ndim = grid.ndim
  basis = solenoidal_basis(grid)
  bc = boundaries.periodic_boundary_conditions(ndim)
  var = lambda a: tuple(grids.GridVariable(grids.GridArray(a[i], grid.cell_faces[i], grid), bc) for i in range(ndim))
  n = len(basis)
  full = np.eye(ndim * int(np.prod(shape))).reshape((-1, ndim) + shape)
  b, w = jnp.asarray(basis), jnp.asarray(full)
  adv = jax.jit(jax.vmap(jax.vmap(lambda u, c: jnp.stack([advection.advect_linear(x, var(u)).data for x in var(c)]), (None, 0)), (0, None)))
  a = np.asarray(adv(b, w)).reshape(n, len(full), -1)
  key = f'advect_linear {shape}'
  for i in range(n):
    rec.state(key, i)
  rec.step(n * len(full))
  skew = a + np.swapaxes(a, 1, 2)
  good = rec.close(skew, 0 * skew, key, 'advection by a solenoidal flow is not skew-symmetric')
  rec.trace(n if good else 0)
  # convect_linear is the same operator on itself: energy of every pair sum
  conv = jax.jit(jax.vmap(lambda u: jnp.stack([x.data for x in advection.convect_linear(var(u))])))
  pairs = [(i, j, s) for i in range(n) for j in range(i, n) for s in (1, -1)]
  words = np.array([basis[i] + s * 0.7 * basis[j] for i, j, s in pairs])
  out = np.asarray(conv(jnp.asarray(words)))
  rec.step(len(words))
  rate = (out * words).reshape(len(words), -1).sum(1)
  key = f'convect_linear {shape}'
  rec.state(key)
  good = rec.close(rate, 0 * rate, key, 'energy production of convection')
  rec.trace(len(words) if good else 0)


def unit_taylor_green(rec, shape, stepper):
  """The Taylor-Green vortex is an exact solution of the central scheme."""
  h = 2 * np.pi / np.array(shape)
  grid = grids.Grid(shape, domain=[(0., 2 * np.pi)] * 2)
  nu, dt, steps = 0.07, 0.05, 4
  for k, press, swap in ((1, 'fast', 1.), (2, 'cg', -2.)):
    key = f'Taylor-Green {shape} k={k} {press} {stepper} amplitude {swap}'
    rec.state(key)
    x, y = np.meshgrid(np.arange(shape[0]) * h[0], np.arange(shape[1]) * h[1], indexing='ij')
    # stream function at the corners: a discretely solenoidal vortex
    psi = np.cos(k * x) * np.cos(k * y) * swap
    u = (psi - np.roll(psi, 1, 1)) / h[1]
    v = -(psi - np.roll(psi, 1, 0)) / h[0]
    cfg = ('implicit', 'linear', press, 'fast') if stepper == 'implicit' else ('semi', 'linear', press, stepper)
    fn = compiled(cfg, grid, rho=1., nu=nu, dt=dt, drag=0., steps=steps)
    ok, out = rec.attempt(lambda: fn([u[None], v[None]], [0 * u[None]] * 2), key, 'stepping')
    if not ok:
      continue
    rec.step(steps)
    lam = -nu * sum((2 - 2 * np.cos(k * s)) / s ** 2 for s in h)
    z = lam * dt
    factor = {'euler': 1 + z, 'midpoint': 1 + z + z * z / 2, 'heun': 1 + z + z * z / 2, 'rk4': 1 + z + z ** 2 / 2 + z ** 3 / 6 + z ** 4 / 24, 'implicit': 1 / (1 - z)}[stepper]
    want = [[(factor ** (n + 1) * u)[None], (factor ** (n + 1) * v)[None]] for n in range(steps)]
    rec.trace(bool(check_equal(rec, key, out, want, 'decaying vortex')))


def unit_dissipation(rec, cfg, shape, kind):
  """Without convection and force viscosity never increases the energy."""
  grid = grids.Grid(shape, domain=[(0., s * n) for s, n in zip((0.8, 1.1, 0.9), shape)])
  v, f = states(grid, kind, False)
  f = [0 * a for a in f]
  nu = 0.9 if cfg[0] == 'implicit' else 0.06
  key = f'dissipation {"/".join(cfg)} {kind} {shape}'
  rec.state(key)
  fn = compiled(cfg, grid, kind=kind, nu=nu, drag=0., steps=4)
  ok, out = rec.attempt(lambda: fn(v, f), key, 'stepping')
  if not ok:
    return
  rec.step(4 * len(v[0]))
  energy = [sum((c ** 2).reshape(len(c), -1).sum(1) for c in s) for s in [v] + out]
  good = True
  for n, (a, b) in enumerate(zip(energy, energy[1:])):
    good &= rec.expect(np.all(b <= a * (1 + 1e-9) + 1e-12), key, f'energy grew at step {n + 1}')
    if n and kind != 'periodic':
      good &= rec.expect(np.all((b < a) | (a < 1e-12)), key, f'no dissipation at step {n + 1}')
  rec.trace(len(v[0]) if good else 0)


# ------------------------------------------------------------------ spectral
def spectral_steps(eq, stepper, dt, n=2):
  step = {'cn_rk4': sts.crank_nicolson_rk4, 'backward_forward_euler': sts.backward_forward_euler, 'cn_rk2': sts.crank_nicolson_rk2, 'sil3': sts.imex_rk_sil3}[stepper](eq, dt)
  def run(x):
    out = []
    for _ in range(n):
      x = step(x)
      out.append(x)
    return out
  return run


def finish_spectral(rec, key0, fn, w, base, ops):
  for name, op in ops.items():
    key = f'{key0} {name}'
    rec.state(key)
    got = [np.asarray(x) for x in fn(jnp.asarray(op(w)))]
    rec.step(2 * len(w))
    good = all([rec.close(g, op(b), key, f'vorticity after {m + 1} steps', 1e-8, 1e-8) for m, (g, b) in enumerate(zip(got, base))])
    rec.trace(len(w) if good else 0)


def unit_spectral_2d(rec, n, stepper, smooth, drag, domain):
  def build(length=1., speed=1., nu=0.02, dt=0.1):
    origin = (0., 0.) if length == speed == 1. else (2.5 * length, -7.25 * length)
    grid = grids.Grid((n, n), domain=[(o, o + domain * length) for o in origin])
    eq = sequations.NavierStokes2D(nu * length * speed, grid, drag=drag * speed / length, smooth=smooth)
    run = spectral_steps(eq, stepper, dt * length / speed)
    return jax.jit(jax.vmap(lambda w: [jnp.fft.irfftn(x) for x in run(jnp.fft.rfftn(w))]))
  shape = (n, n)
  # keep clear of the Nyquist rows, which have no mirror image
  words = []
  i, j = np.meshgrid(np.arange(n), np.arange(n), indexing='ij')
  for a, b in itertools.product(range(-(n // 2) + 1, n // 2), repeat=2):
    words.append(np.cos(2 * np.pi * (a * i + b * j) / n + 0.3))
  low = np.zeros(shape)
  for k in range(4):
    spec = np.fft.fft2(lin.generic(shape, k))
    spec[n // 2] = spec[:, n // 2] = 0
    low = np.fft.ifft2(spec).real
    words += [low, low + words[3 * k + 5]]
  w = np.array(words)
  key0 = f'spectral {n}x{n} {stepper} smooth={smooth} drag={drag} domain {domain}'
  fn = build()
  ok, base = rec.attempt(lambda: [np.asarray(x) for x in fn(jnp.asarray(w))], key0, 'stepping')
  if not ok:
    return
  ops = {f'translation {s}': (lambda a, s=s: np.roll(a, s, (1, 2))) for s in itertools.product(range(n), repeat=2)}
  flip = lambda a, ax: np.roll(np.flip(a, ax), 1, ax)  # nodes: i -> -i
  if not smooth:
    ops['turn by 180'] = lambda a: flip(flip(a, 1), 2)
    return finish_spectral(rec, key0, fn, w, base, ops)
  # without the filter the highest mode, which has no mirror image, is excited
  ops['mirror x'] = lambda a: -flip(a, 1)
  ops['mirror y'] = lambda a: -flip(a, 2)
  ops['turn by 180'] = lambda a: flip(flip(a, 1), 2)
  ops['swap axes'] = lambda a: -np.swapaxes(a, 1, 2)
  ops['turn by 90'] = lambda a: flip(np.swapaxes(a, 1, 2), 1)
  finish_spectral(rec, key0, fn, w, base, ops)
  good = True
  if not drag:
    good = all([rec.close(b.mean((1, 2)), w.mean((1, 2)), key0, 'mean vorticity') for b in base])
  for speed, length in ((2., 1.), (1., 2.), (0.5, 3.)):
    key = f'{key0} speed x{speed} length x{length}'
    rec.state(key)
    got = [np.asarray(x) for x in build(length, speed)(jnp.asarray(w * speed / length))]
    rec.step(2 * len(w))
    good &= all([rec.close(g, b * speed / length, key, f'rescaled vorticity after {m + 1} steps', 1e-8, 1e-8) for m, (g, b) in enumerate(zip(got, base))])
  rec.trace(len(w) if good else 0)


def unit_spectral_1d(rec, which, n, stepper, smooth=True):
  def build(length=1., speed=1.):
    origin = 0. if length == speed == 1. else -7.25 * length
    grid = grids.Grid((n,), domain=[(origin, origin + 6. * length)])
    if which == 'burgers':
      eq = sequations.BurgersEquation(0.05 * length * speed, grid)
    elif which == 'ks':
      eq = sequations.KuramotoSivashinsky(grid, smooth=smooth)
    else:
      eq = sequations.NonlinearSchrodinger(grid, smooth=smooth)
    run = spectral_steps(eq, stepper, 0.05 * length / speed)
    if which == 'burgers':
      return jax.jit(jax.vmap(lambda u: [jnp.fft.irfft(x[0]) for x in run((jnp.fft.rfft(u), 0.))]))
    if which == 'ks':
      return jax.jit(jax.vmap(lambda u: [jnp.fft.irfft(x) for x in run(jnp.fft.rfft(u))]))
    return jax.jit(jax.vmap(lambda u: [jnp.fft.ifft(x) for x in run(jnp.fft.fft(u))]))
  i = np.arange(n)
  words = [0.5 * np.cos(2 * np.pi * k * i / n + p) for k in range(n // 2) for p in (0., 0.7)]
  for k in range(5):
    spec = np.fft.rfft(lin.generic((n,), k))
    spec[-1] = 0
    words.append(np.fft.irfft(spec))
  words = words + [a + b for a, b in itertools.combinations(words[:8], 2)]
  w = np.array(words)
  if which == 'nls':
    w = w + 1j * np.roll(w[::-1], 1, 1)
  key0 = f'{which} {n} {stepper} smooth={smooth}'
  fn = build()
  ok, base = rec.attempt(lambda: [np.asarray(x) for x in fn(jnp.asarray(w))], key0, 'stepping')
  if not ok:
    return
  # the dealiased product feeds the highest mode with the sign of a translation
  # by odd numbers of cells reversed; everything below is exact
  ops = {f'translation {s}': (lambda a, s=s: np.roll(a, s, 1)) for s in range(0, n, 1 if which == 'nls' or not smooth else 2)}
  sign = 1 if which == 'nls' else -1
  if which != 'nls' or not smooth:  # padding treats the highest complex mode as a one-sided wave
    ops['mirror'] = lambda a: sign * np.roll(a[:, ::-1], 1, 1)
  if which == 'nls':
    for ph in (0.5, 1.7, np.pi):
      ops[f'phase {ph}'] = lambda a, ph=ph: a * np.exp(1j * ph)
  finish_spectral(rec, key0, fn, w, base, ops)
  good = True
  if which in ('burgers', 'ks'):
    good &= all([rec.close(b.mean(1), w.mean(1), key0, 'mean') for b in base])
  if which == 'burgers':
    for speed, length in ((2., 1.), (1., 2.), (0.5, 3.)):
      key = f'{key0} speed x{speed} length x{length}'
      rec.state(key)
      got = [np.asarray(x) for x in build(length, speed)(jnp.asarray(w * speed))]
      rec.step(2 * len(w))
      good &= all([rec.close(g, b * speed, key, 'rescaled state', 1e-8, 1e-8) for g, b in zip(got, base)])
  rec.trace(len(w) if good else 0)


PERIODIC = [
    ('semi', 'van_leer', 'fast', 'euler'), ('semi', 'van_leer_direct', 'fast', 'heun'), ('semi', 'linear', 'fast', 'rk4'), ('semi', 'linear', 'cg', 'midpoint'),
    ('semi', 'upwind', 'fast', 'euler'), ('semi', 'convect_linear', 'fast', 'midpoint'), ('semi', 'semilagrangian', 'fast', 'euler'),
    ('implicit', 'van_leer', 'fast', 'fast'), ('implicit', 'linear', 'cg', 'cg'), ('smagorinsky', 'linear', 'fast', 'heun'), ('smagorinsky', 'van_leer', 'cg', 'euler'),
    ('collocated', 'c_linear', 'ccg', 'euler'), ('collocated', 'c_convect_linear', 'ccg', 'euler'), ('collocated', 'van_leer', 'ccg', 'euler')]
WALLS = [('semi', 'van_leer_direct', 'fast', 'euler'), ('semi', 'van_leer_direct', 'cg', 'heun'), ('implicit', 'van_leer_direct', 'fast', 'fast'),
         ('semi', 'zero', 'fast', 'rk4'), ('implicit', 'zero', 'fast', 'fast')]
SCALES = [(2., 1e4, 1.), (1., 2., 1.), (1., 1., 2.), (0.5, 3., 2.)]


def units(tier):
  big = tier == 'thorough'
  us = []
  for cfg in PERIODIC:
    name = '-'.join(cfg)
    col = cfg[0] == 'collocated'
    us.append((f'translate/{name}', unit_translations, dict(cfg=cfg, shape=(5, 4), kind='periodic')))
    us.append((f'point/{name}', unit_point_group, dict(cfg=cfg, shape=(4, 4), kind='periodic')))
    us.append((f'point/{name}/unequal', unit_point_group, dict(cfg=cfg, shape=(5, 4), kind='periodic')))
    us.append((f'balance/{name}', unit_balance, dict(cfg=cfg, shape=(4, 5), kind='periodic', conserves=cfg[1] != 'semilagrangian')))
    us.append((f'similar/{name}', unit_similarity, dict(cfg=cfg, shape=(4, 4), kind='periodic', scales=SCALES if big else SCALES[3:] + SCALES[:1])))
    if big or cfg in (PERIODIC[2], PERIODIC[7], PERIODIC[9]):
      us.append((f'point/{name}/3d', unit_point_group, dict(cfg=cfg, shape=(3, 3, 3), kind='periodic')))
      us.append((f'balance/{name}/3d', unit_balance, dict(cfg=cfg, shape=(3, 4, 3), kind='periodic', conserves=cfg[1] != 'semilagrangian')))
    if big:
      us.append((f'translate/{name}/3d', unit_translations, dict(cfg=cfg, shape=(3, 4, 3), kind='periodic')))
      us.append((f'point/{name}/3d-unequal', unit_point_group, dict(cfg=cfg, shape=(3, 4, 3), kind='periodic')))
      us.append((f'translate/{name}/large', unit_translations, dict(cfg=cfg, shape=(7, 6), kind='periodic')))
  for cfg in WALLS:
    name = '-'.join(cfg)
    for kind in ('channel', 'box', 'lid'):
      if kind == 'lid' and cfg[1] != 'zero':
        continue  # convection next to moving walls is refused
      us.append((f'point/{name}/{kind}', unit_point_group, dict(cfg=cfg, shape=(5, 4), kind=kind)))
      us.append((f'balance/{name}/{kind}', unit_balance, dict(cfg=cfg, shape=(4, 5), kind=kind, conserves=False)))
      if big or cfg in (WALLS[0], WALLS[4]):
        us.append((f'similar/{name}/{kind}', unit_similarity, dict(cfg=cfg, shape=(4, 4), kind=kind, scales=SCALES if big else SCALES[3:])))
      if kind == 'channel':
        us.append((f'translate/{name}/{kind}', unit_translations, dict(cfg=cfg, shape=(5, 4), kind=kind)))
      if big:
        us.append((f'point/{name}/{kind}/square', unit_point_group, dict(cfg=cfg, shape=(6, 6), kind=kind)))
  for shape in [(4, 3), (3, 3, 2)] + ([(5, 4), (3, 3, 3)] if big else []):
    us.append((f'energy/{shape}', unit_energy, dict(shape=shape, bckind='periodic')))
  for stepper in ('euler', 'midpoint', 'heun', 'rk4', 'implicit'):
    for shape in [(6, 6)] + ([(8, 8), (12, 12), (16, 16)] if big else []):
      us.append((f'taylor-green/{stepper}/{shape}', unit_taylor_green, dict(shape=shape, stepper=stepper)))
  for cfg in [('semi', 'zero', 'fast', 'euler'), ('semi', 'zero', 'fast', 'rk4'), ('implicit', 'zero', 'fast', 'fast'), ('implicit', 'zero', 'cg', 'cg')]:
    for kind in ('periodic', 'channel', 'box')[:1 if 'cg' in cfg else 3]:
      us.append((f'dissipation/{"-".join(cfg)}/{kind}', unit_dissipation, dict(cfg=cfg, shape=(4, 5), kind=kind)))
  for stepper in ('cn_rk4', 'backward_forward_euler', 'cn_rk2', 'sil3'):
    for smooth, drag in (((True, 0.), (False, 0.1)) if stepper == 'cn_rk4' or big else ((True, 0.1),)):
      us.append((f'spectral2d/{stepper}/{smooth}/{drag}', unit_spectral_2d, dict(n=6 if not big else 8, stepper=stepper, smooth=smooth, drag=drag, domain=2 * np.pi)))
    for which, smooth in (('burgers', True), ('ks', True), ('nls', True), ('ks', False), ('nls', False)):
      us.append((f'spectral1d/{which}/{stepper}/{smooth}', unit_spectral_1d, dict(which=which, n=16 if not big else 32, stepper=stepper, smooth=smooth)))
  return us
