"""C03: pressure projection."""
import functools
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from jax_cfd.base import boundaries
from jax_cfd.base import finite_differences as fd
from jax_cfd.base import grids
from jax_cfd.base import pressure
from jax_cfd.collocated import pressure as cpressure
from mc import lin
from mc import ref_fv

PROPERTY = 'C03'
RULE = ('state = (grid, walls/periodic per axis, tangential conditions, solver); transition = '
        'one real projection/solve of one unit impulse of the velocity; validated when the '
        'result equals the dense orthogonal projector built independently, its discrete '
        'divergence vanishes, and projecting again changes nothing')
BOUNDS = ('1-d, 2-d (sides 2..6) and 3-d (sides 2..4) boxes, every periodic/walled pattern, '
          'tangential Dirichlet/Neumann/moving walls, through-flow; every solver; every unit impulse')
P, D, N = 'periodic', 'dirichlet', 'neumann'


def real_velocity(grid, fields, xs):
  out = []
  for f, x in zip(fields, xs):
    bc = (boundaries.HomogeneousBoundaryConditions(f.types)
          if all(v == (0., 0.) for v in f.values) else
          boundaries.ConstantBoundaryConditions(f.types, f.values))
    out.append(grids.GridVariable(grids.GridArray(x, f.offset, grid), bc))
  return tuple(out)


def split(x, shape, k):
  n = int(np.prod(shape))
  return [x[i * n:(i + 1) * n].reshape(shape) for i in range(k)]


def reference_projection(fields, free, base):
  """Dense x -> x - G (D G)^+ D x on fields that respect their walls."""
  shape, steps = fields[0].shape, fields[0].steps
  ndim = len(shape)
  n = fields[0].size
  dmat = np.zeros((n, n * ndim))
  dvec = np.zeros(n)
  for i, f in enumerate(fields):
    a, b = f.backward(i)
    dmat[:, i * n:(i + 1) * n] = a
    dvec += b
  ptypes = tuple((P, P) if f.types[i][0] == P else (N, N) for i, f in enumerate(fields))
  pf = ref_fv.Field(shape, steps, ptypes, ((0., 0.),) * ndim, (0.5,) * ndim)
  g = np.concatenate([pf.forward(i)[0] for i in range(ndim)])
  g = g * free[:, None]
  q = np.linalg.pinv(dmat @ g, rcond=1e-11)

  def proj(x):
    d = x @ dmat.T + dvec
    return x - d @ q.T @ g.T
  return proj, dmat, dvec


SOLVERS = {
    'default': (lambda: pressure.solve_fast_diag, 'any', 1e-9),
    'matmul': (lambda: functools.partial(pressure.solve_fast_diag, implementation='matmul'), 'any', 1e-9),
    'fft': (lambda: functools.partial(pressure.solve_fast_diag, implementation='fft'), 'any', 1e-9),
    'rfft': (lambda: functools.partial(pressure.solve_fast_diag, implementation='rfft'), 'even', 1e-9),
    'channel': (lambda: pressure.solve_fast_diag_channel_flow, 'walls', 1e-9),
    'cg': (lambda: functools.partial(pressure.solve_cg, rtol=1e-12, atol=1e-12), 'any', 1e-8),
    'cg_default': (lambda: pressure.solve_cg, 'any', 1e-5),
}


def unit_projection(rec, shape, solvers, origin=0.0):
  ndim = len(shape)
  steps = (0.5, 0.8, 0.3)[:ndim]
  grid = grids.Grid(shape, domain=tuple((origin, origin + s * n) for n, s in zip(shape, steps)))
  for kinds in itertools.product('pw', repeat=ndim):
    tangs = [(((D, D), (0., 0.)), (0., 0.))]
    if 'w' in kinds:
      tangs += [(((D, D), (1.5, -0.5)), (0., 0.)), (((N, N), (0., 0.)), (0., 0.)),
                (((N, D), (0., 2.)), (0.75, 0.75))]
      if ndim == 3:
        tangs = tangs[1:4:2]
    for tang, nvals in tangs:
      fields = ref_fv.velocity_fields(shape, grid.step, kinds, tang, nvals)
      base, xs, free = ref_fv.free_basis(fields)
      proj, dmat, dvec = reference_projection(fields, free, base)
      # velocities whose wall entries contradict the boundary condition
      bad = base[None] + np.eye(len(base))[~free]
      xs = np.concatenate([xs, bad])
      want = proj(xs * free + base * ~free)
      for sname in solvers:
        mk, need, tol = SOLVERS[sname]
        if need == 'even' and ('w' in kinds or shape[-1] % 2):
          continue
        if need == 'walls' and 'w' not in kinds:
          continue
        if sname == 'fft' and 'w' in kinds:
          continue
        key = f'projection shape={shape} axes={kinds} tangential={tang} normal={nvals} solver={sname}'
        rec.state(shape, kinds, tang, nvals, sname, origin)
        box = {}

        def f(x):
          v = real_velocity(grid, fields, split(x, shape, ndim))
          w = pressure.projection(v, solve=mk()) if sname != 'default' else pressure.projection(v)
          box['meta'] = [(u.offset, u.grid, u.bc) for u in w]
          box['in'] = [(u.offset, u.grid, u.bc) for u in v]
          return jnp.concatenate([u.data.ravel() for u in w])

        def dv(x):
          v = real_velocity(grid, fields, split(x, shape, ndim))
          return fd.divergence(v).data.ravel()
        done, out = rec.attempt(lambda: np.asarray(jax.vmap(f)(jnp.asarray(xs))), key, 'projection')
        rec.step(len(xs))
        if not done:
          continue
        good = rec.close(out, want, key, 'projected velocity', atol=tol, rtol=tol)
        d = np.asarray(jax.vmap(dv)(jnp.asarray(out)))
        good &= rec.close(d, np.zeros_like(d), key, 'divergence after projection', atol=10 * tol)
        if sname in ('default', 'cg'):
          out2 = np.asarray(jax.vmap(f)(jnp.asarray(out)))
          rec.step(len(xs))
          good &= rec.close(out2, out, key, 'projecting twice', atol=10 * tol)
        good &= rec.expect(box['meta'] == box['in'], key,
                           'projection changed offset, grid or boundary condition')
        rec.outcome(out)
        if good:
          rec.trace()
        rec.sample(dict(key=key, impulses=len(xs)))


def unit_large(rec, shape, kinds):
  """Generic fields on larger boxes with fine, anisotropic steps: divergence."""
  ndim = len(shape)
  for steps in ((0.01, 0.02, 0.015)[:ndim], (10., 3., 7.)[:ndim]):
    grid = grids.Grid(shape, step=steps)
    fields = ref_fv.velocity_fields(shape, grid.step, kinds, ((D, D), (0., 0.)), (0., 0.))
    base, _, free = ref_fv.free_basis(fields)
    xs = np.stack([np.concatenate([lin.generic(shape, 7 * k + i).ravel() for i in range(ndim)])
                   for k in range(4)]) * free
    for sname in ('default', 'matmul', 'cg'):
      mk, _, tol = SOLVERS[sname]
      key = f'large shape={shape} axes={kinds} step={steps} solver={sname}'
      rec.state(shape, kinds, steps, sname)

      def f(x):
        v = real_velocity(grid, fields, split(x, shape, ndim))
        w = pressure.projection(v, solve=mk())
        return (jnp.concatenate([u.data.ravel() for u in w]), fd.divergence(w).data)
      done, r = rec.attempt(lambda: jax.vmap(f)(jnp.asarray(xs)), key, 'projection')
      rec.step(len(xs))
      if not done:
        continue
      out, d = map(np.asarray, r)
      s = 4 / min(steps)
      good = rec.close(d, np.zeros_like(d), key, 'divergence', atol=1e-7 * s)
      # the removed part is orthogonal to what is left (projection is orthogonal)
      ip = np.sum((xs - out) * out, axis=1)
      good &= rec.close(ip, np.zeros_like(ip), key, 'orthogonality', atol=1e-6 * out[0].size)
      rec.outcome(out)
      if good:
        rec.trace()


def unit_user_bc(rec, shape):
  """Solvers with a user supplied pressure condition: laplacian(q) = divergence."""
  ndim = len(shape)
  steps = (0.5, 0.8, 0.3)[:ndim]
  grid = grids.Grid(shape, step=steps)
  opts = [(P, P), (N, N), (D, D), (N, D), (D, N)]
  for types in itertools.product(opts, repeat=ndim):
    bc = boundaries.HomogeneousBoundaryConditions(types)
    kinds = ['p' if t[0] == P else 'w' for t in types]
    # with a pressure Dirichlet wall any net inflow has a solution
    pinned = any(D in t for t in types)
    fields = ref_fv.velocity_fields(shape, grid.step, kinds, ((D, D), (0., 0.)),
                                    (0.5, -0.25) if pinned else (0., 0.))
    _, xs, _ = ref_fv.free_basis(fields)
    pf = ref_fv.Field(shape, grid.step, types, ((0., 0.),) * ndim, (0.5,) * ndim)
    lap, _ = pf.laplacian()
    for sname, s in (('fast_diag', pressure.solve_fast_diag),
                     ('cg', functools.partial(pressure.solve_cg, rtol=1e-12, atol=1e-12))):
      key = f'pressure solve shape={shape} pressure_bc={types} solver={sname}'
      rec.state(shape, types, sname)

      def f(x):
        v = real_velocity(grid, fields, split(x, shape, ndim))
        q0 = bc.impose_bc(grids.GridArray(jnp.zeros(shape), grid.cell_center, grid))
        return s(v, q0, bc).data.ravel(), fd.divergence(v).data.ravel()
      done, r = rec.attempt(lambda: jax.vmap(f)(jnp.asarray(xs)), key, 'solve')
      rec.step(len(xs))
      if not done:
        continue
      q, d = map(np.asarray, r)
      good = rec.close(q @ lap.T, d, key, 'laplacian of the pressure vs divergence', atol=1e-7)
      rec.outcome(q)
      if good:
        rec.trace()
      rec.sample(dict(key=key))


def unit_inferred(rec, shape):
  """Without a condition for the pressure the velocity decides, whatever the first guess carries."""
  ndim = len(shape)
  grid = grids.Grid(shape, step=(0.5, 0.8, 0.3)[:ndim])
  for kinds in itertools.product('pw', repeat=ndim):
    fields = ref_fv.velocity_fields(shape, grid.step, kinds, ((D, D), (0., 0.)), (0., 0.))
    _, xs, _ = ref_fv.free_basis(fields)
    types = tuple((P, P) if k == 'p' else (N, N) for k in kinds)
    lap, _ = ref_fv.Field(shape, grid.step, types, ((0., 0.),) * ndim, (0.5,) * ndim).laplacian()
    for other in (P, D, N):
      qbc = boundaries.HomogeneousBoundaryConditions(((other, other),) * ndim)
      for sname, s in (('fast_diag', pressure.solve_fast_diag),
                       ('cg', functools.partial(pressure.solve_cg, rtol=1e-12, atol=1e-12))):
        key = f'inferred condition shape={shape} axes={kinds} first guess with {other} solver={sname}'
        rec.state(key)

        def f(x):
          v = real_velocity(grid, fields, split(x, shape, ndim))
          q0 = grids.GridVariable(grids.GridArray(jnp.zeros(shape), grid.cell_center, grid), qbc)
          return s(v, q0).data.ravel(), fd.divergence(v).data.ravel()
        done, r = rec.attempt(lambda: jax.vmap(f)(jnp.asarray(xs)), key, 'solve')
        rec.step(len(xs))
        if done and rec.close(np.asarray(r[0]) @ lap.T, np.asarray(r[1]), key, 'laplacian of the pressure vs divergence', atol=1e-7):
          rec.trace()


def unit_collocated(rec, shape):
  ndim = len(shape)
  steps = (0.5, 0.8, 0.3)[:ndim]
  grid = grids.Grid(shape, step=steps)
  f0 = ref_fv.Field(shape, grid.step, ((P, P),) * ndim, ((0., 0.),) * ndim, (0.5,) * ndim)
  n = f0.size
  c = [f0.central(i)[0] for i in range(ndim)]
  dmat = np.concatenate(c, axis=1)
  g = np.concatenate(c, axis=0)
  q = np.linalg.pinv(dmat @ g, rcond=1e-10)
  xs = np.concatenate([np.eye(n * ndim), lin.generic((1, n * ndim))])
  want = xs - xs @ dmat.T @ q.T @ g.T
  bc = boundaries.periodic_boundary_conditions(ndim)
  for sname, s, tol in (('default', None, 1e-5),
                        ('tight', functools.partial(cpressure.solve_cg, rtol=1e-12, atol=1e-12), 1e-8)):
    key = f'collocated projection shape={shape} solver={sname}'
    rec.state(shape, sname)

    def f(x):
      v = tuple(grids.GridVariable(grids.GridArray(a, grid.cell_center, grid), bc)
                for a in split(x, shape, ndim))
      w = cpressure.projection(v) if s is None else cpressure.projection(v, s)
      return (jnp.concatenate([u.data.ravel() for u in w]),
              fd.centered_divergence(w).data.ravel())
    done, r = rec.attempt(lambda: jax.vmap(f)(jnp.asarray(xs)), key, 'projection')
    rec.step(len(xs))
    if not done:
      continue
    out, d = map(np.asarray, r)
    good = rec.close(out, want, key, 'projected velocity', atol=tol)
    good &= rec.close(d, np.zeros_like(d), key, 'divergence', atol=10 * tol)
    rec.outcome(out)
    if good:
      rec.trace()


def unit_x32(rec, shape, kinds, length=2 * np.pi):
  """Default precision, under jit and vmap, as users run it."""
  ndim = len(shape)
  grid = grids.Grid(shape, domain=((0., length),) * ndim)
  fields = ref_fv.velocity_fields(shape, grid.step, kinds, ((D, D), (0., 0.)), (0., 0.))
  _, xs, free = ref_fv.free_basis(fields)
  proj, _, _ = reference_projection(fields, free, None)
  xs = np.concatenate([xs, np.concatenate([lin.generic(shape, i).ravel() for i in range(ndim)])[None] * free])
  want = proj(xs)
  key = f'single precision shape={shape} axes={kinds} length={length:g}'
  rec.state(shape, kinds, length)

  def f(x):
    v = real_velocity(grid, fields, split(x, shape, ndim))
    return jnp.concatenate([u.data.ravel() for u in pressure.projection(v)])
  done, out = rec.attempt(lambda: np.asarray(jax.vmap(jax.jit(f))(jnp.asarray(xs, jnp.float32))), key, 'projection')
  rec.step(len(xs))
  if done:
    good = rec.close(out, want, key, 'projected velocity', atol=2e-5)
    good &= rec.expect(out.dtype == np.float32, key, f'dtype {out.dtype}')
    rec.outcome(out)
    if good:
      rec.trace()


def reference_cg(matrix, b, x0, steps):
  """Textbook conjugate gradient iterates x_0 .. x_steps."""
  x, r = x0.copy(), b - matrix @ x0
  p, rr = r.copy(), r @ r
  out = [x.copy()]
  for _ in range(steps):
    if rr > 0:
      ap = matrix @ p
      a = rr / (p @ ap)
      x, r = x + a * p, r - a * ap
      new = r @ r
      p, rr = r + new / rr * p, new
    out.append(x.copy())
  return out


def unit_tolerance(rec, shape, kinds, collocated=False):
  """What the caller asks of the iterative solver: tolerances, budget, first guess."""
  ndim = len(shape)
  steps = (0.5, 0.8, 0.3)[:ndim]
  grid = grids.Grid(shape, step=steps)
  n = int(np.prod(shape))
  solve = cpressure.solve_cg if collocated else pressure.solve_cg
  if collocated:
    f0 = ref_fv.Field(shape, grid.step, ((P, P),) * ndim, ((0., 0.),) * ndim, (0.5,) * ndim)
    c = [f0.central(i)[0] for i in range(ndim)]
    dmat = np.concatenate(c, axis=1)
    lap = dmat @ np.concatenate(c, axis=0)
    pbc = boundaries.periodic_boundary_conditions(ndim)
    free = np.ones(n * ndim, bool)
    def velocity(x):
      return tuple(grids.GridVariable(grids.GridArray(a, grid.cell_center, grid), pbc)
                   for a in split(x, shape, ndim))
  else:
    fields = ref_fv.velocity_fields(shape, grid.step, kinds, ((D, D), (0., 0.)), (0., 0.))
    _, _, free = ref_fv.free_basis(fields)
    dmat = np.concatenate([f.backward(i)[0] for i, f in enumerate(fields)], axis=1)
    types = tuple((P, P) if k == 'p' else (N, N) for k in kinds)
    pf = ref_fv.Field(shape, grid.step, types, ((0., 0.),) * ndim, (0.5,) * ndim)
    lap = pf.laplacian()[0]
    pbc = boundaries.HomogeneousBoundaryConditions(types)
    def velocity(x):
      return real_velocity(grid, fields, split(x, shape, ndim))
  seed = np.concatenate([lin.generic(shape, i).ravel() for i in range(ndim)]) * free
  guess = lin.generic(shape, 11).ravel()
  guess = guess - guess.mean()
  pinv = np.linalg.pinv(lap, rcond=1e-11)

  @functools.partial(jax.jit, static_argnums=4)
  def run(x, q, rtol, atol, maxiter):
    q0 = grids.GridVariable(grids.GridArray(q.reshape(shape), grid.cell_center, grid), pbc)
    return solve(velocity(x), q0, rtol=rtol, atol=atol, maxiter=maxiter).data.ravel()

  for amp, start in itertools.product((1e-6, 1., 1e6), ('zero', 'generic', 'exact')):
    b = dmat @ (amp * seed)
    x0 = dict(zero=0 * guess, generic=amp * guess, exact=pinv @ b)[start]
    size = np.linalg.norm(b)
    floor = 1e-11 * (size + np.linalg.norm(lap @ x0))
    for rtol, atol in ((1e-3, 0.), (0., 1e-3), (1e-9, 1e-3), (1e-3, 1e-9), (1e-8, 1e-12),
                       (0., 1e9), (1e9, 0.)):
      key = (f'tolerance shape={shape} axes={kinds} collocated={collocated} amplitude={amp:g} '
             f'start={start} rtol={rtol:g} atol={atol:g}')
      rec.state(shape, kinds, collocated, amp, start, rtol, atol)
      done, q = rec.attempt(lambda: np.asarray(run(amp * seed, x0, rtol, atol, None)), key, 'solve')
      rec.step()
      if not done:
        continue
      asked = max(rtol * size, atol)
      left = np.linalg.norm(b - lap @ q)
      good = rec.expect(left <= asked * (1 + 1e-6) + floor, key,
                        f'residual {left:g} although {asked:g} was asked for (|rhs| = {size:g})')
      if np.linalg.norm(b - lap @ x0) < 0.5 * asked:
        good &= rec.expect(np.array_equal(q, x0), key, 'an acceptable first guess was changed')
      rec.outcome(q)
      if good:
        rec.trace()
    want = reference_cg(lap, b, x0, 4)
    for k in range(5):
      key = (f'budget shape={shape} axes={kinds} collocated={collocated} amplitude={amp:g} '
             f'start={start} maxiter={k}')
      rec.state(shape, kinds, collocated, amp, start, 'budget', k)
      done, q = rec.attempt(lambda: np.asarray(run(amp * seed, x0, 1e-9, 0., k)), key, 'solve')
      rec.step()
      if done:
        if rec.close(q / amp, want[k] / amp, key, f'answer after {k} iterations', atol=1e-6):
          rec.trace()
        rec.outcome(q)


def units(tier):
  th = tier == 'thorough'
  fast = ('default', 'matmul', 'fft', 'rfft', 'channel', 'cg_default')
  out = []
  shapes = [(4,), (5,), (2, 2), (2, 3), (3, 4), (4, 3)]
  shapes3 = [(2, 3, 2), (3, 2, 4)]
  if th:
    shapes += [(3, 2), (4, 4), (5, 3), (2, 6), (6, 2), (5, 5), (6, 4), (3, 7), (8, 3)]
    shapes3 += [(3, 3, 3), (4, 2, 3), (2, 2, 2)]
  for s in shapes + shapes3:
    solvers = fast + ('cg',)
    if len(s) == 3 and not th:
      solvers = ('default', 'fft', 'rfft', 'cg')
    out.append((f'proj-{s}', unit_projection, dict(shape=s, solvers=solvers)))
  out.append(('proj-origin', unit_projection, dict(shape=(4, 3), solvers=('default', 'cg'), origin=-1.0)))
  for s, k in (((16, 12), 'pp'), ((16, 12), 'pw'), ((9, 16), 'wp'), ((12, 11), 'ww'),
               ((6, 5, 8), 'ppp'), ((6, 5, 8), 'pwp'), ((6, 5, 8), 'www')):
    out.append((f'large-{s}-{k}', unit_large, dict(shape=s, kinds=k)))
  for s in [(3,), (2, 3), (3, 4)] + ([(2, 3, 2), (4, 4)] if th else []):
    out.append((f'user-{s}', unit_user_bc, dict(shape=s)))
  for s in [(4,), (3, 4)] + ([(2, 3, 2)] if th else []):
    out.append((f'inferred-{s}', unit_inferred, dict(shape=s)))
  for s in [(4,), (5,), (3, 4), (4, 4), (3, 2, 3)] + ([(5, 5), (6, 4), (4, 4, 2)] if th else []):
    out.append((f'colloc-{s}', unit_collocated, dict(shape=s)))
  for s, k, c in (((4, 5), 'pp', False), ((5, 4), 'pw', False), ((4, 4), 'ww', False),
                  ((5, 3), 'pp', True)) + ((((3, 4, 4), 'pwp', False), ((3, 4, 5), 'ppp', True)) if th else ()):
    out.append((f'tol-{s}-{k}-{c}', unit_tolerance, dict(shape=s, kinds=k, collocated=c)))
  for s, k in (((4, 6), 'pp'), ((5, 4), 'pw'), ((3, 4, 4), 'ppp'), ((3, 4, 4), 'wpp')):
    out.append((f'x32-{s}-{k}', unit_x32, dict(shape=s, kinds=k, x64=False)))
    for length in (1e-4, 1e4, 1e6):  # whatever the unit of length
      out.append((f'x32-{s}-{k}-{length:g}', unit_x32, dict(shape=s, kinds=k, length=length, x64=False)))
  return out
