"""C06: advection is minus the divergence of the interpolated flux.

Every advection scheme is compared, on complete small domains, with an
independent numpy control-volume model; the schemes that are bilinear in the
scalar and the velocity are decided on all pairs of unit impulses, the ones
with a limiter on every word of cell values over a small alphabet.
"""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from jax_cfd.base import advection
from jax_cfd.base import boundaries
from jax_cfd.base import finite_differences as fd
from jax_cfd.base import grids
from jax_cfd.collocated import advection as cadvection

from checks.C05 import lin_ref
from mc import lin
from mc import ref_fv

PROPERTY = 'C06'
P, D, N = ref_fv.P, ref_fv.D, ref_fv.N
RULE = ('exhaustive enumeration of scalar and velocity fields (all pairs of '
        'unit impulses for the bilinear schemes, all words over an alphabet '
        'for the limited ones) x all scalar offsets x boundary kinds, compared '
        'with a control-volume model written in numpy; conservation and '
        'free-stream invariants evaluated on every explored field')
BOUNDS = ('1 to 3 dimensions, up to 12 cells; offsets {0, 1/2, 1}^d; '
          'words over 3 to 5 letter alphabets')
ASSUMPTIONS = ['float64 with tolerance 1e-9; wall values of edge aligned '
               'quantities are set by the caller and not compared']
STEPS = (0.5, 0.8, 0.25)


def make(shape, kinds, co, cbc, tangential=((D, D), (0., 0.))):
  """Grid, scalar field description and staggered velocity descriptions."""
  ndim = len(shape)
  grid = grids.Grid(shape, step=STEPS[:ndim])
  vf = ref_fv.velocity_fields(shape, grid.step, kinds, tangential, (0., 0.))
  types = tuple((P, P) if k == 'p' else cbc[i][0] for i, k in enumerate(kinds))
  values = tuple((0., 0.) if k == 'p' else cbc[i][1] for i, k in enumerate(kinds))
  return grid, ref_fv.Field(shape, grid.step, types, values, co), vf


def variable(grid, f, x):
  if all(v == (0., 0.) for v in f.values):
    bc = boundaries.HomogeneousBoundaryConditions(f.types)
  else:
    bc = boundaries.ConstantBoundaryConditions(f.types, f.values)
  return grids.GridVariable(grids.GridArray(x.reshape(f.shape), f.offset, grid), bc)


def shifted(f, c, axis, k):
  """Values of c, k cells further along axis (mirrored beyond walls)."""
  m, s = ref_fv.shift_matrix(f.shape[axis], k, *f.types[axis], *f.values[axis],
                             f.offset[axis], f.steps[axis], mode='mirror')
  return c @ ref_fv.along(m, f.shape, axis).T + ref_fv.along_vec(s, f.shape, axis)


def face_flux(method, f, c, axis, side, uf, dt, h):
  """Flux through the face between cells (k, k+1), or (k-1, k) if side < 0."""
  sh = lambda k: shifted(f, c, axis, k + (0 if side > 0 else -1))
  left, right = sh(0), sh(1)
  if method == 'linear':
    return uf * (left + right) / 2
  if method == 'upwind':
    return uf * np.where(uf > 0, left, right)
  far = np.where(uf > 0, sh(-1), sh(2))
  den = right - left
  num = np.where(uf > 0, left - far, far - right)
  r_ok = (den * num > 0)
  lim = np.where(r_ok, 2 * num * den / np.where(r_ok, num + den, 1.), 0.)
  corr = .5 * (1 - dt / h * np.abs(uf)) * np.abs(uf) * lim
  return uf * np.where(uf > 0, left, right) + corr


def depth_ok(f):
  """Two ghost cells must be mirrored from inside the domain."""
  return all(t[0] == P or n >= 3 for t, n in zip(f.types, f.shape))


def advect_ref(method, f, c, vf, v, dt):
  out = np.zeros_like(c)
  ndim = len(f.shape)
  pos = np.indices(f.shape).reshape(ndim, -1)
  start = 0
  for axis in range(ndim):
    g = vf[axis]
    x = v[:, start:start + g.size]
    start += g.size
    h = f.steps[axis]
    total = np.zeros_like(c)
    for side in (1, -1):
      target = tuple(o + .5 * side if i == axis else o for i, o in enumerate(f.offset))
      m, s = lin_ref(g, target)
      flux = face_flux(method, f, c, axis, side, x @ m.T + s, dt, h)
      if f.types[axis][0] != P and f.offset[axis] == .5:
        wall = f.shape[axis] - 1 if side > 0 else 0
        flux = np.where(pos[axis] == wall, 0., flux)
      total += side * flux
    out -= total / h
  return out


METHODS = {
    'linear': (('advect_linear', 'linear'),),
    'upwind': (('advect_upwind', 'upwind'),),
    'van_leer': (('advect_van_leer', 'van_leer'), ('advect_van_leer_using_limiters', 'van_leer')),
}


def compare(rec, key, fname, method, grid, f, vf, cs, vs, dt, pairs='product'):
  """Runs the real scheme on all pairs and compares with the model."""
  if pairs == 'product':
    ic, iv = np.meshgrid(np.arange(len(cs)), np.arange(len(vs)), indexing='ij')
    c, v = cs[ic.ravel()], vs[iv.ravel()]
  else:
    c, v = cs, vs
  box = {}

  def fn(x, w):
    cv = variable(grid, f, x)
    vv = []
    start = 0
    for g in vf:
      vv.append(variable(grid, g, w[start:start + g.size]))
      start += g.size
    r = getattr(advection, fname)(cv, tuple(vv), dt)
    box['r'] = (tuple(r.offset), r.grid)
    return r.data.ravel()
  done, out = rec.attempt(lambda: np.asarray(jax.jit(jax.vmap(fn))(jnp.asarray(c), jnp.asarray(v))), key, fname)
  rec.step(len(c))
  if not done:
    return None
  want = advect_ref(method, f, c, vf, v, dt)
  free = ref_fv.free_mask(f)
  good = rec.close(out[:, free], want[:, free], key, 'tendency')
  good &= rec.expect(box['r'] == (tuple(f.offset), grid), key, f"offset or grid {box['r']}")
  if all(t[0] == P for t in f.types) or all(o == .5 for o in f.offset):
    good &= rec.close(out.sum(1), np.zeros(len(out)), key, 'total tendency (conservation)',
                      atol=1e-8 * (1 + np.abs(out).max()))
  rec.outcome(out[:200])
  if good:
    rec.trace(len(c))
  return out


def unit_bilinear(rec, shape):
  """Periodic advect_linear: all pairs of impulses; upwind: signed impulses."""
  ndim = len(shape)
  kinds = 'p' * ndim
  n = int(np.prod(shape))
  for co in itertools.product((0., .5, 1.), repeat=ndim):
    grid, f, vf = make(shape, kinds, co, None)
    cs = np.concatenate([np.eye(n), np.ones((1, n)), lin.generic((1, n))])
    e = np.eye(n * ndim)
    vs = np.concatenate([e, -e, np.ones((1, n * ndim)), lin.generic((1, n * ndim)),
                         lin.generic((1, n * ndim), 3)])
    for method in ('linear', 'upwind'):
      fname = METHODS[method][0][0]
      key = f'{fname} periodic shape={shape} c.offset={co}'
      rec.state(key)
      compare(rec, key, fname, method, grid, f, vf, cs, vs, None)
  rec.sample(dict(key=key))


def unit_words(rec, shape, calpha, valpha, offsets, methods=('van_leer', 'upwind'), dts=(0.1,)):
  """Limited schemes on every word of scalar values."""
  ndim = len(shape)
  n = int(np.prod(shape))
  cs = lin.words(calpha, n)
  if len(valpha) ** (n * ndim) <= 300:
    vs = lin.words(valpha, n * ndim)
  else:
    uni = lin.words(valpha, ndim)
    vs = np.concatenate([np.repeat(uni, n, axis=1)] +
                        [np.sign(lin.generic((1, n * ndim), k)) * (1 + k / 4) for k in range(3)] +
                        [np.eye(n * ndim)[::3], -np.eye(n * ndim)[1::3]])
  for co in offsets:
    grid, f, vf = make(shape, 'p' * ndim, co, None)
    for dt in dts:
      for method in methods:
        for fname, mname in METHODS[method]:
          key = f'{fname} periodic words shape={shape} c.offset={co} dt={dt}'
          rec.state(key)
          compare(rec, key, fname, mname, grid, f, vf, cs, vs, dt)
  rec.sample(dict(key=key, scalars=len(cs), velocities=len(vs)))


CBCS = [((D, D), (0., 0.)), ((D, D), (1., 2.)), ((N, N), (0., 0.)), ((D, N), (1., .5)), ((N, D), (-.5, 1.))]


def unit_walls(rec, shape, kinds, tangential):
  """advect_van_leer of scalars next to closed walls."""
  ndim = len(shape)
  n = int(np.prod(shape))
  for cb in CBCS:
    grid, f, vf = make(shape, kinds, (.5,) * ndim, [cb] * ndim, tangential)
    if not depth_ok(f):
      continue
    _, xs, mask = ref_fv.free_basis(vf)
    e = xs[1:]
    vs = np.concatenate([e, -e, lin.generic((1, n * ndim)) * mask, -lin.generic((1, n * ndim), 3) * mask])
    g = lin.generic((1, n))
    cs = np.concatenate([np.eye(n), np.ones((1, n)), g, g[:, ::-1] * 2, np.sort(g, 1), -np.sort(g, 1), g ** 2])
    if n <= 4:
      cs = np.concatenate([cs, lin.words((0., 1., 3.), n)])
    for dt in (0.0, 0.2):
      key = f'advect_van_leer walls={kinds} shape={shape} c.bc={cb} tangential={tangential} dt={dt}'
      rec.state(key)
      compare(rec, key, 'advect_van_leer', 'van_leer', grid, f, vf, cs, vs, dt)
  rec.sample(dict(key=key))


def unit_wall_velocity(rec, shape, kinds, tangential):
  """advect_van_leer of each velocity component by the velocity itself."""
  ndim = len(shape)
  n = int(np.prod(shape))
  grid, _, vf = make(shape, kinds, (.5,) * ndim, [CBCS[0]] * ndim, tangential)
  _, xs, mask = ref_fv.free_basis(vf)
  e = xs[1:]
  pairs = np.concatenate([e[i] * s + e[j] * 2 for i in range(len(e)) for j in range(len(e))
                          for s in (1., -1.)]).reshape(-1, n * ndim)
  vs = np.concatenate([np.zeros((1, n * ndim)), pairs] +
                      [lin.generic((1, n * ndim), k) * s * mask for k in range(4) for s in (1, -1)])
  start = 0
  for i, f in enumerate(vf):
    sl = slice(start, start + f.size)
    start += f.size
    if not depth_ok(f):
      continue
    for dt in (0.0, 0.2):
      key = f'advect_van_leer component={i} kinds={kinds} shape={shape} tangential={tangential} dt={dt}'
      rec.state(key)
      compare(rec, key, 'advect_van_leer', 'van_leer', grid, f, vf, vs[:, sl], vs, dt, pairs='zip')
  rec.sample(dict(key=key))


def unit_convect(rec, shape):
  """convect_linear against the model; momentum and energy conservation."""
  ndim = len(shape)
  n = int(np.prod(shape))
  grid, _, vf = make(shape, 'p' * ndim, (.5,) * ndim, None)
  e = np.eye(n * ndim)
  vs = np.concatenate([e[i] + e[j] for i in range(len(e)) for j in range(i, len(e))]).reshape(-1, n * ndim)
  vs = np.concatenate([vs, lin.generic((1, n * ndim)), np.ones((1, n * ndim))])
  dmat = np.concatenate([g.backward(i)[0] for i, g in enumerate(vf)], axis=1)

  def split(w):
    return tuple(variable(grid, g, w[i * n:(i + 1) * n]) for i, g in enumerate(vf))

  def fn(w):
    r = advection.convect_linear(split(w))
    assert all(a.offset == g.offset for a, g in zip(r, vf))
    return jnp.concatenate([a.data.ravel() for a in r])
  run = jax.jit(jax.vmap(fn))
  key = f'convect_linear shape={shape}'
  rec.state(key)
  done, out = rec.attempt(lambda: np.asarray(run(jnp.asarray(vs))), key, 'convect_linear')
  rec.step(len(vs))
  if done:
    want = np.concatenate([advect_ref('linear', vf[i], vs[:, i * n:(i + 1) * n], vf, vs, None)
                           for i in range(ndim)], axis=1)
    good = rec.close(out, want, key, 'tendency')
    mom = out.reshape(len(out), ndim, n).sum(2)
    good &= rec.close(mom, np.zeros_like(mom), key, 'momentum')
    rec.outcome(out)
    if good:
      rec.trace(len(vs))
  # kinetic energy: a cubic form on the discretely solenoidal fields, which is
  # determined by combinations of at most three basis fields.
  _, s, vt = np.linalg.svd(dmat)
  rank = int((s > 1e-10).sum())
  z = vt[rank:]
  if len(z) > 24:
    z = z[:24]
    rec.cap('energy: first 24 solenoidal basis fields')
  combos = []
  for i, j, k in itertools.combinations_with_replacement(range(len(z)), 3):
    for a, b in itertools.product((1., -1.), repeat=2):
      combos.append(z[i] + a * z[j] + 2 * b * z[k])
  w = np.array(combos)
  key = f'convect_linear energy shape={shape}'
  rec.state(key)
  out = np.asarray(run(jnp.asarray(w)))
  rec.step(len(w))
  if rec.close((out * w).sum(1), np.zeros(len(w)), key, 'kinetic energy production', atol=1e-9):
    rec.trace(len(w))
  # a uniform scalar is not changed by solenoidal flow, whatever the scheme
  for fname in ('advect_linear', 'advect_upwind', 'advect_van_leer', 'advect_van_leer_using_limiters'):
    key = f'{fname} free stream shape={shape}'
    rec.state(key)
    c = variable(grid, ref_fv.Field(shape, grid.step, ((P, P),) * ndim, ((0., 0.),) * ndim, (.5,) * ndim),
                 jnp.full(n, 2.5))
    sub = w[:400]
    done, out = rec.attempt(lambda: np.asarray(jax.jit(jax.vmap(
        lambda q: getattr(advection, fname)(c, split(q), 0.05).data))(jnp.asarray(sub))), key, fname)
    rec.step(len(sub))
    if done and rec.close(out, np.zeros_like(out), key, 'tendency of a uniform scalar'):
      rec.trace(len(sub))


def unit_collocated(rec, shape):
  ndim = len(shape)
  n = int(np.prod(shape))
  grid = grids.Grid(shape, step=STEPS[:ndim])
  bc = boundaries.periodic_boundary_conditions(ndim)
  f = ref_fv.Field(shape, grid.step, ((P, P),) * ndim, ((0., 0.),) * ndim, (.5,) * ndim)
  cen = [f.central(i)[0] for i in range(ndim)]
  e, ec = np.eye(n * ndim), np.eye(n)
  cs = np.concatenate([ec, lin.generic((1, n))])
  vs = np.concatenate([e, lin.generic((1, n * ndim))])
  ic, iv = np.meshgrid(np.arange(len(cs)), np.arange(len(vs)), indexing='ij')
  c, v = cs[ic.ravel()], vs[iv.ravel()]
  var = lambda x: grids.GridVariable(grids.GridArray(x.reshape(shape), grid.cell_center, grid), bc)
  parts = lambda w: tuple(var(w[i * n:(i + 1) * n]) for i in range(ndim))
  key = f'collocated advect_linear shape={shape}'
  rec.state(key)
  done, out = rec.attempt(lambda: np.asarray(jax.jit(jax.vmap(
      lambda x, w: cadvection.advect_linear(var(x), parts(w), 0.1).data.ravel()))(c, v)), key, 'advect_linear')
  rec.step(len(c))
  if done:
    want = -sum((c * v[:, i * n:(i + 1) * n]) @ cen[i].T for i in range(ndim))
    good = rec.close(out, want, key, 'tendency')
    good &= rec.close(out.sum(1), np.zeros(len(out)), key, 'conservation')
    rec.outcome(out)
    if good:
      rec.trace(len(c))
  key = f'collocated convect_linear shape={shape}'
  rec.state(key)
  vs = np.concatenate([e[i] + e[j] for i in range(len(e)) for j in range(i, len(e))]).reshape(-1, n * ndim)
  vs = np.concatenate([vs, lin.generic((1, n * ndim))])
  done, out = rec.attempt(lambda: np.asarray(jax.jit(jax.vmap(
      lambda w: jnp.concatenate([a.data.ravel() for a in cadvection.convect_linear(parts(w))])))(vs)), key, 'convect')
  rec.step(len(vs))
  if done:
    q = vs.reshape(-1, ndim, n)
    want = np.concatenate([-sum((q[:, i] * q[:, j]) @ cen[j].T for j in range(ndim)) for i in range(ndim)], 1)
    if rec.close(out, want, key, 'tendency'):
      rec.trace(len(vs))
    rec.outcome(out)


def unit_open(rec, shape, kinds):
  """Collocated advection next to closed (D) and open (N) boundaries."""
  ndim = len(shape)
  n = int(np.prod(shape))
  grid = grids.Grid(shape, step=STEPS[:ndim])
  e = np.eye(n * ndim)
  cs = np.concatenate([np.eye(n), lin.generic((1, n))])
  vs = np.concatenate([e, lin.generic((1, n * ndim))])
  ic, iv = np.meshgrid(np.arange(len(cs)), np.arange(len(vs)), indexing='ij')
  c, v = cs[ic.ravel()], vs[iv.ravel()]
  for types in kinds:
    per = [t == (P, P) for t in types]
    vbc = boundaries.HomogeneousBoundaryConditions(types)
    f = ref_fv.Field(shape, grid.step, types, ((0., 0.),) * ndim, (.5,) * ndim)
    cen = [f.central(i)[0] for i in range(ndim)]
    want = -sum((c * v[:, i * n:(i + 1) * n]) @ cen[i].T for i in range(ndim))
    # next to a closed wall the scalar may be anything; an open one needs a free scalar
    for wall in (D, N):
      ctypes = tuple((P, P) if p else tuple(N if s == N else wall for s in t) for p, t in zip(per, types))
      cvals = tuple((None, None) if p else tuple(1.5 if s == D else 0. for s in t) for p, t in zip(per, ctypes))
      cbc = boundaries.ConstantBoundaryConditions(ctypes, cvals)
      key = f'collocated advect_linear shape={shape} velocity={types} scalar={ctypes}'
      rec.state(key)

      def run(x, w):
        var = lambda y, bc: grids.GridVariable(grids.GridArray(y.reshape(shape), grid.cell_center, grid), bc)
        return cadvection.advect_linear(var(x, cbc), tuple(
            var(w[i * n:(i + 1) * n], vbc) for i in range(ndim)), 0.1).data.ravel()
      done, out = rec.attempt(lambda: np.asarray(jax.jit(jax.vmap(run))(c, v)), key, 'advect_linear')
      rec.step(len(c))
      if not done:
        continue
      good = rec.close(out, want, key, 'tendency')
      if not any(N in t for t in types):
        good &= rec.close(out.sum(1), np.zeros(len(out)), key, 'conservation')
      rec.outcome(out)
      if good:
        rec.trace(len(c))


def unit_refuse(rec):
  """Unsupported boundaries are refused, not silently mishandled."""
  NI = (NotImplementedError,)
  for ndim in (1, 2):
    shape = (4, 3)[:ndim]
    grid = grids.Grid(shape, step=1.)
    per = boundaries.periodic_boundary_conditions(ndim)
    ones = lambda off, bc: grids.GridVariable(grids.GridArray(jnp.ones(shape), off, grid), bc)
    vp = tuple(ones(o, per) for o in grid.cell_faces)
    for axis in range(ndim):
      for t in (D, N):
        types = tuple((t, t) if a == axis else (P, P) for a in range(ndim))
        bc = boundaries.HomogeneousBoundaryConditions(types)
        c = ones(grid.cell_center, bc)
        for fname in ('advect_linear', 'advect_upwind', 'advect_van_leer_using_limiters',
                      'advect_step_semilagrangian'):
          rec.state('refuse', ndim, axis, t, fname)
          rec.step()
          rec.raises(lambda: getattr(advection, fname)(c, vp, 0.1),
                     f'{fname} with {types}', 'non-periodic scalar', NI)
      # flow through a wall
      types = tuple((D, D) if a == axis else (P, P) for a in range(ndim))
      for vals in ((1., 0.), (0., 1.), (1., 1.)):
        values = tuple(vals if a == axis else (0., 0.) for a in range(ndim))
        vbc = boundaries.ConstantBoundaryConditions(types, values)
        v = tuple(ones(o, vbc) for o in grid.cell_faces)
        c = ones(grid.cell_center, boundaries.HomogeneousBoundaryConditions(types))
        rec.state('through wall', ndim, axis, vals)
        rec.step()
        rec.raises(lambda: advection.advect_van_leer(c, v, 0.1), f'van_leer {types} {values}',
                   'flow through a wall', NI)
    shifted_grid = grids.Grid(shape, domain=((1., 5.),) * ndim)
    one = lambda o: grids.GridVariable(grids.GridArray(jnp.ones(shape), o, shifted_grid), per)
    rec.raises(lambda: advection.advect_step_semilagrangian(
        one(shifted_grid.cell_center), tuple(one(o) for o in shifted_grid.cell_faces), .1),
               'semilagrangian domain', 'domain not starting at zero', (ValueError,))
  rec.outcome('refused')


def unit_x32(rec):
  """Default precision smoke of the same comparison."""
  shape = (4, 3)
  n = 12
  for co in ((.5, .5), (1., .5), (.5, 1.)):
    grid, f, vf = make(shape, 'pp', co, None)
    cs = np.concatenate([np.eye(n)[:4], lin.generic((2, n))]).astype(np.float32)
    vs = np.concatenate([np.eye(2 * n)[::5], lin.generic((2, 2 * n))]).astype(np.float32)
    for method in METHODS:
      for fname, m in METHODS[method]:
        key = f'{fname} float32 c.offset={co}'
        rec.state(key)
        for c, v in itertools.product(cs, vs):
          cv = variable(grid, f, jnp.asarray(c))
          vv = tuple(variable(grid, g, jnp.asarray(v[i * n:(i + 1) * n])) for i, g in enumerate(vf))
          r = getattr(advection, fname)(cv, vv, 0.1)
          rec.step()
          rec.expect(r.dtype == jnp.float32, key, f'dtype {r.dtype}')
          want = advect_ref(m, f, c[None].astype(float), vf, v[None].astype(float), .1)[0]
          if rec.close(np.asarray(r.data).ravel(), want, key, 'tendency', atol=2e-5):
            rec.trace()
          rec.outcome(r.data)


def units(tier):
  th = tier == 'thorough'
  out = [('refuse', unit_refuse, {}), ('x32', unit_x32, dict(x64=False))]
  for s in [(1,), (2,), (3,), (5,), (2, 3), (4, 3)] + ([(3, 3), (5, 4), (2, 2, 2)] if th else []):
    out.append((f'bilinear-{s}', unit_bilinear, dict(shape=s)))
  out.append(('bilinear-3d', unit_bilinear, dict(shape=(2, 3, 2))))
  al = (0., 1., 2., 5.)
  o1 = [(0.,), (.5,), (1.,)]
  out.append(('words-3', unit_words, dict(shape=(3,), calpha=(-1.,) + al, valpha=(-2., -1., 0., 1., 2.), offsets=o1, dts=(0., .1))))
  out.append(('words-4', unit_words, dict(shape=(4,), calpha=al, valpha=(-1., 0., 1.), offsets=o1)))
  out.append(('words-5', unit_words, dict(shape=(5,), calpha=(0., 1., 3.), valpha=(-1., 1.), offsets=o1)))
  o2 = list(itertools.product((0., .5, 1.), repeat=2))
  for i in range(3):
    out.append((f'words-32-{i}', unit_words, dict(shape=(3, 2), calpha=(0., 1., 3.), valpha=(-1., 0., 1.),
                                                  offsets=o2[i::3], methods=('van_leer',))))
    out.append((f'words-23-{i}', unit_words, dict(shape=(2, 3), calpha=(0., 1., 3.), valpha=(-1., 0., 1.),
                                                  offsets=o2[i::3], methods=('van_leer',))))
  out.append(('words-222', unit_words, dict(shape=(2, 2, 2), calpha=(0., 1.), valpha=(-1., 1.),
                                            offsets=[(.5,) * 3, (1., .5, .5), (.5, 1., .5), (.5, .5, 1.), (0., 1., .5)],
                                            methods=('van_leer',))))
  if th:
    out.append(('words-6', unit_words, dict(shape=(6,), calpha=(0., 1., 3.), valpha=(-1., 1.), offsets=o1)))
    out.append(('words-42', unit_words, dict(shape=(4, 2), calpha=(0., 1., 3.), valpha=(-1., 1.), offsets=o2,
                                             methods=('van_leer',))))
  tang = [((D, D), (0., 0.)), ((N, N), (0., 0.))]
  cases = [((3,), 'w'), ((4,), 'w'), ((3, 2), 'wp'), ((2, 4), 'pw'), ((3, 3), 'ww'), ((2, 3, 2), 'pwp')]
  if th:
    cases += [((6,), 'w'), ((4, 5), 'ww'), ((3, 3, 3), 'www'), ((3, 4, 3), 'wpw')]
  for s, k in cases:
    for i, t in enumerate(tang):
      out.append((f'walls-{s}-{k}-{i}', unit_walls, dict(shape=s, kinds=k, tangential=t)))
      out.append((f'wallv-{s}-{k}-{i}', unit_wall_velocity, dict(shape=s, kinds=k, tangential=t)))
  for s in [(3, 2), (2, 4), (4, 3), (3, 2, 3)]:
    out.append((f'wallv-{s}-p', unit_wall_velocity, dict(shape=s, kinds='p' * len(s), tangential=tang[0])))
  for s in [(4,), (2, 3), (3, 3), (2, 2, 2)] + ([(4, 3), (4, 4), (2, 3, 2)] if th else []):
    out.append((f'convect-{s}', unit_convect, dict(shape=s)))
  for s in [(4,), (5,), (3, 4), (2, 3, 2)]:
    out.append((f'colloc-{s}', unit_collocated, dict(shape=s)))
  opts = [(P, P), (D, D), (D, N), (N, D), (N, N)]
  out.append(('open-4', unit_open, dict(shape=(4,), kinds=[(o,) for o in opts])))
  out.append(('open-34', unit_open, dict(shape=(3, 4), kinds=list(itertools.product(opts, repeat=2)))))
  if th:
    out.append(('open-232', unit_open, dict(shape=(2, 3, 2), kinds=list(itertools.product(opts, repeat=3)))))
  return out
