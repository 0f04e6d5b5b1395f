"""C07: monotone transport: no new extrema, non-increasing variation.

Under the CFL condition an upwind step is a convex combination of old values
(decided for every field by pushing all unit impulses through the step for
every stream-function word), limited schemes do not increase the total
variation or leave the data range on any word of cell values, and the
semi-Lagrangian step equals periodic linear interpolation at the departure
points for any Courant number.
"""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from jax_cfd.base import advection
from jax_cfd.base import boundaries
from jax_cfd.base import equations
from jax_cfd.base import grids

from checks.C05 import lin_ref
from checks.C06 import make, variable
from mc import lin
from mc import ref_fv

PROPERTY = 'C07'
P = ref_fv.P
RULE = ('all stream-function words x all unit impulses (upwind, '
        'semi-Lagrangian: decides every scalar field), all words of cell '
        'values x Courant numbers (limited schemes)')
BOUNDS = '1 to 3 dimensions, up to 12 cells, Courant numbers up to 1 (upwind, limited) and 4.5 (semi-Lagrangian)'
ASSUMPTIONS = ['float64, slack 1e-10']
LIMITED = ('advect_van_leer', 'advect_van_leer_using_limiters')


def faces(shape, steps, psi):
  """Staggered velocities of a 2d stream function (divergence free)."""
  q = psi.reshape((-1,) + shape)
  u = (q - np.roll(q, 1, 2)) / steps[1]
  v = -(q - np.roll(q, 1, 1)) / steps[0]
  return np.concatenate([u.reshape(len(psi), -1), v.reshape(len(psi), -1)], 1)


def outflow(shape, steps, vs):
  """Largest rate at which a cell is emptied."""
  n = int(np.prod(shape))
  tot = 0
  for a, h in enumerate(steps):
    u = vs[:, a * n:(a + 1) * n].reshape((-1,) + shape)
    left = np.roll(u, 1, a + 1)
    tot = tot + (np.maximum(u, 0) + np.maximum(-left, 0)) / h
  return tot.reshape(len(vs), -1).max(1)


def step_matrix(grid, f, vf, fname, vs, dts, cs):
  n = f.size

  def fn(x, w, dt):
    c = variable(grid, f, x)
    v = tuple(variable(grid, g, w[i * n:(i + 1) * n]) for i, g in enumerate(vf))
    if fname == 'advect_step_semilagrangian':
      return advection.advect_step_semilagrangian(c, v, dt).data.ravel()
    return x + dt * getattr(advection, fname)(c, v, dt).data.ravel()
  g = jax.jit(jax.vmap(jax.vmap(fn, (0, None, None)), (None, 0, 0)))
  return np.asarray(g(jnp.asarray(cs), jnp.asarray(vs), jnp.asarray(dts)))


def unit_upwind(rec, shape, alphabet):
  ndim = len(shape)
  n = int(np.prod(shape))
  grid, f, vf = make(shape, 'p' * ndim, (.5,) * ndim, None)
  if ndim == 1:
    vs = np.repeat(np.array(alphabet)[:, None], n, 1).astype(float)
  else:
    vs = faces(shape, grid.step, lin.words(alphabet, n))
  rate = outflow(shape, grid.step, vs)
  vs = vs[rate > 0]
  rate = rate[rate > 0]
  key = f'upwind step shape={shape} streamfunction alphabet={alphabet}'
  for courant in (0.5, 1.0):
    dts = courant / rate
    m = step_matrix(grid, f, vf, 'advect_upwind', vs, dts, np.eye(n))   # (v, c, cell)
    rec.step(len(vs) * n)
    rec.state(key, courant)
    good = rec.expect(m.min() >= -1e-10, f'{key} courant={courant}', f'weight {m.min()} below zero: new minima')
    # gains in a row of weights sum to one: a uniform field stays uniform
    good &= rec.close(m.sum(1), np.ones((len(vs), n)), f'{key} courant={courant}', 'weights of a cell')
    good &= rec.close(m.sum(2), np.ones((len(vs), n)), f'{key} courant={courant}', 'total')
    rec.outcome(m[:5])
    for i in range(0, len(vs), 50):
      rec.state(key, courant, i)
    if good:
      rec.trace(len(vs))
  rec.sample(dict(key=key, flows=len(vs)))


def unit_tvd(rec, n, alphabet, ndim=1, axis=0, offsets=None):
  shape = tuple(n if i == axis else 2 for i in range(ndim))
  words = lin.words(alphabet, n)
  reshape = [1] * (ndim + 1)
  reshape[0], reshape[axis + 1] = len(words), n
  cs = np.broadcast_to(words.reshape(reshape), (len(words),) + shape).reshape(len(words), -1)
  total = int(np.prod(shape))
  for off in offsets or itertools.product((0., .5, 1.), repeat=ndim):
    grid, f, vf = make(shape, 'p' * ndim, off, None)
    for courant in (0.1, 0.5, 0.9, 1.0):
      for sign in (1., -1.):
        w = np.zeros((1, total * ndim))
        w[:, axis * total:(axis + 1) * total] = sign
        dt = np.array([courant * grid.step[axis]])
        for fname in LIMITED:
          key = f'{fname} n={n} ndim={ndim} axis={axis} offset={off} courant={courant} sign={sign}'
          rec.state(key)
          new = step_matrix(grid, f, vf, fname, w, dt, cs)[0]
          rec.step(len(cs))
          line = np.moveaxis(new.reshape((len(cs),) + shape), axis + 1, 1).reshape(len(cs), n, -1)
          good = rec.close(line, np.repeat(line[:, :, :1], line.shape[2], 2), key, 'transverse variation')
          line = line[:, :, 0]
          tv = lambda a: np.abs(a - np.roll(a, 1, 1)).sum(1)
          worst = (tv(line) - tv(words)).max()
          good &= rec.expect(worst <= 1e-9, key, f'total variation grew by {worst} for '
                             f'{words[np.argmax(tv(line) - tv(words))].tolist()}')
          over = max((line.max(1) - words.max(1)).max(), (words.min(1) - line.min(1)).max())
          good &= rec.expect(over <= 1e-9, key, f'left the data range by {over}')
          good &= rec.close(line.sum(1), words.sum(1), key, 'total')
          if courant == 1.0:
            good &= rec.close(line, np.roll(words, int(sign), 1), key, 'exact translation at Courant number 1')
          rec.outcome(line[:100])
          if good:
            rec.trace(len(cs))
  rec.sample(dict(key=key, words=len(words)))


def semilag_ref(f, vf, vs, dts, grid):
  """Weights (v, c, cell) of periodic multilinear interpolation."""
  ndim = len(f.shape)
  n = f.size
  idx = np.indices(f.shape).reshape(ndim, n)
  out = np.zeros((len(vs), n, n))
  dep = []
  for a in range(ndim):
    m, _ = lin_ref(vf[a], f.offset)
    u = vs[:, a * n:(a + 1) * n] @ m.T
    dep.append(idx[a][None] - dts[:, None] * u / f.steps[a])
  lo = [np.floor(d) for d in dep]
  w = [d - l for d, l in zip(dep, lo)]
  for corner in itertools.product((0, 1), repeat=ndim):
    wt = np.ones((len(vs), n))
    src = np.zeros((len(vs), n), int)
    for a in range(ndim):
      wt = wt * (w[a] if corner[a] else 1 - w[a])
      src = src * f.shape[a] + ((lo[a] + corner[a]) % f.shape[a]).astype(int)
    vi, ci = np.meshgrid(np.arange(len(vs)), np.arange(n), indexing='ij')
    np.add.at(out, (vi, src, ci), wt)
  return out


def unit_semilag(rec, shape, alphabet, offsets=None, dts_=(0.0, 0.2, 0.5, 1.3)):
  ndim = len(shape)
  n = int(np.prod(shape))
  uni = np.repeat(lin.words(alphabet, ndim), n, 1)
  e = np.eye(n * ndim)
  vs = np.concatenate([uni, e, -e, 3 * lin.generic((1, n * ndim)), -5 * lin.generic((1, n * ndim), 2)])
  if ndim == 1 and n <= 4:
    vs = np.concatenate([vs, lin.words((-1., -.3, 0., 1.), n)])
  for off in offsets or itertools.product((0., .5, 1.), repeat=ndim):
    grid, f, vf = make(shape, 'p' * ndim, off, None)
    for dt in dts_:
      key = f'semilagrangian shape={shape} offset={off} dt={dt}'
      rec.state(key)
      dts = np.full(len(vs), dt)
      cs = np.concatenate([np.eye(n), lin.generic((1, n))])
      done, m = rec.attempt(lambda: step_matrix(grid, f, vf, 'advect_step_semilagrangian', vs, dts, cs), key, 'step')
      rec.step(len(vs) * len(cs))
      if not done:
        continue
      w = semilag_ref(f, vf, vs, dts, grid)
      good = rec.close(m[:, :n], w, key, 'weights')
      good &= rec.close(m[:, n], np.einsum('c,vcx->vx', cs[n], w), key, 'generic field')
      good &= rec.expect(m[:, :n].min() >= -1e-10, key, f'weight {m[:, :n].min()}')
      good &= rec.close(m[:, :n].sum(1), np.ones((len(vs), n)), key, 'sum of weights')
      rec.outcome(m[:10])
      if good:
        rec.trace(len(vs))
  rec.sample(dict(key=key))


def unit_time_step(rec):
  """The recommended step honours the requested Courant number."""
  for shape, dom in (((4,), ((0, 2),)), ((4, 8), ((0, 2), (0, 1))), ((3, 5), ((0, 1), (0, 9))),
                     ((2, 3, 4), ((0, 1), (0, 2), (0, 1)))):
    grid = grids.Grid(shape, domain=dom)
    h = min((u - l) / n for n, (l, u) in zip(shape, dom))
    for vmax in (0.5, 1., 3.):
      for courant in (0.1, 0.5, 1.):
        key = f'stable_time_step {shape} {vmax} {courant}'
        rec.state(key)
        rec.step()
        dt = advection.stable_time_step(vmax, courant, grid)
        good = rec.close(dt * vmax / h, courant, key, 'Courant number')
        for visc in (1e-6, 0.01, 1., 50.):
          lim = h * h / (visc * 2 ** len(shape))
          rec.step(2)
          got = equations.stable_time_step(vmax, courant, visc, grid, implicit_diffusion=True)
          good &= rec.close(got, dt, key, 'implicit diffusion')
          if lim < dt * (1 - 1e-9):
            good &= rec.raises(lambda: equations.stable_time_step(vmax, courant, visc, grid),
                               key, 'unstable diffusion accepted', (ValueError,))
          elif lim > dt * (1 + 1e-9):
            good &= rec.close(equations.stable_time_step(vmax, courant, visc, grid), dt, key, 'explicit')
        rec.outcome(dt)
        if good:
          rec.trace()
    bc = boundaries.periodic_boundary_conditions(len(shape))
    v = tuple(grids.GridVariable(grids.GridArray(jnp.asarray(lin.generic(shape, i)), o, grid), bc)
              for i, o in enumerate(grid.cell_faces))
    vmax = np.sqrt(max(sum(np.asarray(u.data) ** 2 for u in v).ravel()))
    rec.step()
    got = equations.dynamic_time_step(v, 0.5, 1e-3, grid, implicit_diffusion=True)
    if rec.close(got, 0.5 * h / vmax, f'dynamic_time_step {shape}', 'step'):
      rec.trace()


def units(tier):
  th = tier == 'thorough'
  out = [('time_step', unit_time_step, {})]
  for s, al in [((3,), (-2., 1.)), ((5,), (-1., 3.)), ((3, 3), (0., 1., -1.)), ((2, 4), (0., 1., 3.)),
                ((4, 3), (0., 1.))] + ([((3, 4), (0., 1.)), ((4, 4), (0., 1.))] if th else []):
    out.append((f'upwind-{s}', unit_upwind, dict(shape=s, alphabet=al)))
  for n, al in [(3, (0., 1., 2., 5., -1.)), (4, (0., 1., 2., 5.)), (5, (0., 1., 3.)), (6, (0., 1., 3.)),
                (8, (0., 1.))] + ([(7, (0., 1., 3.)), (6, (0., 1., 2., 5.))] if th else []):
    out.append((f'tvd-{n}-{len(al)}', unit_tvd, dict(n=n, alphabet=al)))
  for axis in (0, 1):
    for i, offs in enumerate([[(.5, .5), (.5, 1.)], [(1., .5), (0., .5)], [(.5, 0.), (1., 1.)]]):
      out.append((f'tvd-2d-{axis}-{i}', unit_tvd, dict(n=4, alphabet=(0., 1., 3.), ndim=2, axis=axis,
                                                       offsets=offs)))
  if th:
    for axis in range(3):
      out.append((f'tvd-3d-{axis}', unit_tvd, dict(n=4, alphabet=(0., 1., 3.), ndim=3, axis=axis)))
  for s, al in [((2,), (-2., .7, 1.)), ((4,), (-2., .7, 1.)), ((3, 2), (-1., 0., .7, 2.)),
                ((3, 4), (-1., 0., .7))]:
    out.append((f'semilag-{s}', unit_semilag, dict(shape=s, alphabet=al)))
  o3 = list(itertools.product((0., .5, 1.), repeat=3))
  for i in range(3):
    out.append((f'semilag-3d-{i}', unit_semilag, dict(
        shape=(2, 3, 2), alphabet=(-1., .7), offsets=o3[i::3] if th else [o3[i], o3[13 + 4 * i], o3[4 + 5 * i]],
        dts_=(0.2, 1.3))))
  return out
