"""C24: initial conditions and analytic validation problems.

The Taylor-Green problem is compared with the Navier-Stokes equations mode by
mode; random initial fields are recomputed from their noise with dense Fourier
sums for every key, grid and option; evaluated initial fields are explored over
every small set of velocity functions, boundary kinds and projection counts.
"""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from jax_cfd.base import boundaries
from jax_cfd.base import finite_differences as fd
from jax_cfd.base import grids
from jax_cfd.base import initial_conditions
from jax_cfd.base import pressure
from jax_cfd.base import validation_problems
from jax_cfd.collocated import initial_conditions as cinitial
from mc import lin

PROPERTY = 'C24'
RULE = ('state = (problem or initialiser, grid, options, key or time); transition = one construction of a field; validated when every component equals the definition '
        '(closed form, dense Fourier sums from the recorded noise, or pointwise evaluation and orthogonal projection)')
BOUNDS = ('grids of 3-24 cells per axis in 1-3 dimensions with unequal steps; wavenumbers 1-3 (and -2, 1.5) in each direction; times 0-2; 4-8 keys; up to 4 projections; all combinations of '
          'periodic and wall axes')
ASSUMPTIONS = ['jax.random is trusted', 'the functions given to initial_velocity_field respect the boundary conditions asked for']
TAU = 2 * np.pi


def centers(grid, offset):
  axes = [lo + (np.arange(n) + o) * h for n, o, h, (lo, _) in zip(grid.shape, offset, grid.step, grid.domain)]
  return np.meshgrid(*axes, indexing='ij')


def periodic(grid):
  return boundaries.periodic_boundary_conditions(grid.ndim)


def unit_taylor_green(rec, shape):
  grid_ref = grids.Grid(shape, domain=((0., TAU), (0., TAU)))
  offs_list = [None, grid_ref.cell_faces, ((0., 0.), (0., 0.)), ((.5, .5), (.5, .5)), ((.25, 0.), (1., .75))]
  for kx, ky, nu, rho in itertools.product((1, 2, 3, 1.5, -2), (1, 2, 3, -1), (0., .1, 2.), (1., 2.5)):
    prob = validation_problems.TaylorGreen(shape, density=rho, viscosity=nu, kx=kx, ky=ky)
    key = f'taylor-green {shape} kx={kx} ky={ky} nu={nu} rho={rho}'
    ok = rec.expect(prob.grid == grid_ref, key, f'grid {prob.grid}')
    ok &= rec.expect(prob.density == rho and prob.viscosity == nu, key, f'density {prob.density} viscosity {prob.viscosity}')
    ok &= rec.expect(prob.force() is None and prob.force(offs_list[1]) is None, key, 'no force')
    for t, offs in itertools.product((None, 0., .3, 2.), offs_list):
      kw = {} if t is None else dict(t=t)
      if offs is not None:
        kw['offsets'] = offs
      v = prob.velocity(**kw)
      o = offs or grid_ref.cell_faces
      decay = np.exp(-nu * (kx ** 2 + ky ** 2) * (t or 0.))
      x, y = centers(grid_ref, o[0])
      u0 = decay * np.cos(kx * x) * np.sin(ky * y)
      x, y = centers(grid_ref, o[1])
      v0 = -decay * kx / ky * np.sin(kx * x) * np.cos(ky * y)
      rec.state(key, t, offs)
      rec.step()
      k2 = f'{key} t={t} offsets={offs}'
      ok &= rec.expect(len(v) == 2 and all(isinstance(a, grids.GridVariable) for a in v), k2, 'two variables')
      ok &= rec.expect(all(a.offset == b and a.grid == grid_ref and a.bc == periodic(grid_ref) for a, b in zip(v, o)), k2, 'metadata')
      good = rec.close(v[0].data, u0, k2, 'u', rtol=1e-9, atol=1e-9)
      good &= rec.close(v[1].data, v0, k2, 'v', rtol=1e-9, atol=1e-9)
      rec.trace(good)


def unit_taylor_green_ns(rec, n):
  """The analytic solution solves Navier-Stokes (spectral derivatives, exact for resolved modes)."""
  off = ((0., 0.), (0., 0.))
  k = np.fft.fftfreq(n, 1 / n)
  d = lambda a, ax: np.fft.ifft2(np.fft.fft2(a) * 1j * (k[:, None] if ax == 0 else k[None])).real
  for kx, ky, nu in itertools.product((1, 2, 3, -2), (1, 2, 3, -1), (0., .1, 1.)):
    prob = validation_problems.TaylorGreen((n, n), viscosity=nu, kx=kx, ky=ky)
    key = f'taylor-green solves navier-stokes n={n} kx={kx} ky={ky} nu={nu}'
    for t in (0., .5):
      u, v = (np.asarray(a.data) for a in prob.velocity(t, off))
      _, dudt = jax.jvp(lambda s: jnp.stack([a.data for a in prob.velocity(s, off)]), (t,), (1.,))  # pylint: disable=cell-var-from-loop
      dudt = np.asarray(dudt)
      rec.state(key, t)
      rec.step(2)
      ok = rec.close(d(u, 0) + d(v, 1), 0 * u, key, 'solenoidal', atol=1e-8)
      # u_t + u.grad u - nu lap u must be a gradient: its curl vanishes
      res = [dudt[i] + u * d(w, 0) + v * d(w, 1) - nu * (d(d(w, 0), 0) + d(d(w, 1), 1)) for i, w in enumerate((u, v))]
      ok &= rec.close(d(res[1], 0) - d(res[0], 1), 0 * u, key, 'momentum balance up to a gradient', atol=1e-7)
      rec.outcome(u)
      rec.trace(ok)


# ------------------------------------------------------------ random fields


def dense_filter(noise, density, grid):
  k = np.meshgrid(*[TAU * np.fft.fftfreq(n, h) for n, h in zip(grid.shape, grid.step)], indexing='ij')
  mag = np.sqrt(sum(a ** 2 for a in k))
  amp = np.where(mag > 0, density(np.where(mag > 0, mag, 1.)), 0.)
  return np.fft.ifftn(np.fft.fftn(noise) * amp).real


def fourier_projection(v, grid, collocated):
  th = np.meshgrid(*[TAU * np.fft.fftfreq(n) for n in grid.shape], indexing='ij')
  if collocated:
    div = [1j * np.sin(t) / h for t, h in zip(th, grid.step)]
    div = [np.where(np.abs(x) < 1e-12 / h, 0, x) for x, h in zip(div, grid.step)]
    grad = div
  else:
    div = [(1 - np.exp(-1j * t)) / h for t, h in zip(th, grid.step)]
    grad = [(np.exp(1j * t) - 1) / h for t, h in zip(th, grid.step)]
  hat = [np.fft.fftn(a) for a in v]
  rhs = sum(d * a for d, a in zip(div, hat))
  lap = sum(d * g for d, g in zip(div, grad))
  q = np.where(np.abs(lap) > 0, rhs / np.where(np.abs(lap) > 0, lap, 1), 0)
  return [np.fft.ifftn(a - g * q).real for a, g in zip(hat, grad)]


def pdf(k, mode, var=.25):
  m = np.log(mode) + var
  return np.exp(-(m - np.log(k)) ** 2 / 2 / var - np.log(k))


def unit_filtered(rec, shape, domain, collocated, keys, x32=False):
  grid = grids.Grid(shape, domain=domain)
  nd = len(shape)
  mod = cinitial if collocated else initial_conditions
  name = 'collocated' if collocated else 'staggered'
  rt = (2e-4 if collocated else 1e-8) if not x32 else 1e-3
  offsets = (grid.cell_center,) * nd if collocated else grid.cell_faces
  rngs = jnp.stack([jax.random.PRNGKey(seed) for seed in range(keys)])
  compiled = {}
  noises = [[np.asarray(jax.random.normal(k, shape)) for k in jax.random.split(rng, nd)] for rng in rngs]
  for vmax, peak, its in ((1., 3., 3), (1., 3., 1), (2.5, 3., 1), (.2, 1.5, 2), (7., 6., 2), (1., 3., 0), (1., 12., 2)):
    kw = dict(maximum_velocity=vmax, peak_wavenumber=peak, iterations=its)
    default = (vmax, peak, its) == (1., 3., 3)
    if default:
      kw = {}
    seen = []
    make = lambda rng: mod.filtered_velocity_field(rng, grid, **kw)  # pylint: disable=cell-var-from-loop
    if default:
      vs = jax.jit(jax.vmap(make))(rngs)
    else:
      if its not in compiled:
        compiled[its] = jax.jit(jax.vmap(lambda r, a, b: mod.filtered_velocity_field(r, grid, a, b, its), (0, None, None)))  # pylint: disable=cell-var-from-loop
      vs = compiled[its](rngs, vmax, peak)
    divs = jax.vmap(fd.centered_divergence if collocated else fd.divergence)(vs)
    single = make(jax.random.PRNGKey(0)) if default or its == 0 else None
    for seed in range(keys):
      key = f'{name} {shape} {domain} seed={seed} vmax={vmax} peak={peak} iterations={its} x32={x32}'
      rec.state(key)
      rec.step()
      ok = rec.expect(len(vs) == nd and all(a.offset == o and a.grid == grid and a.bc == periodic(grid) for a, o in zip(vs, offsets)), key, f'metadata {[a.offset for a in vs]}')
      got = np.stack([np.asarray(a.data)[seed] for a in vs]).astype(np.float64)
      want = [dense_filter(a, lambda k: pdf(k, peak) / k ** (nd - 1), grid) for a in noises[seed]]  # pylint: disable=cell-var-from-loop
      for _ in range(its):
        want = fourier_projection(want, grid, collocated)
        top = np.sqrt(sum(a ** 2 for a in want)).max()
        want = [vmax * a / top for a in want]
      ok &= rec.close(got, np.stack(want), key, 'filtered noise, projected and normalised', rtol=rt, atol=1e-12 if its == 0 else rt * .1)
      if its:
        speed = np.sqrt((got ** 2).sum(0)).max()
        ok &= rec.close(speed, vmax, key, 'maximum speed', rtol=1e-12 if not x32 else 1e-5, atol=0)
        ok &= rec.close(got.reshape(nd, -1).mean(1), np.zeros(nd), key, 'zero mean', atol=1e-6 * vmax)
        tol = {False: {False: 1e-9, True: 1e-4}, True: {False: 1e-3, True: 1e-3}}[x32][collocated]
        d = np.abs(np.asarray(divs.data)[seed]).max()
        ok &= rec.expect(d <= tol * vmax / min(grid.step), key, f'divergence {d}')
      if seed == 0 and single is not None:
        rec.step()
        ok &= rec.close(np.stack([np.asarray(a.data) for a in single]), got, key, 'same key, same field', rtol=rt, atol=rt * .1)
      ok &= rec.expect(all(not np.allclose(got, s) for s in seen), key, 'different keys, different fields')
      seen.append(got)
      rec.trace(ok)


# --------------------------------------------------------- evaluated fields


def unit_evaluated(rec, shape, domain):
  grid = grids.Grid(shape, domain=domain)
  nd = len(shape)
  fns = [lambda *x: jnp.zeros_like(x[0]), lambda *x: jnp.ones_like(x[0]) * 2.5, lambda *x: jnp.sin(x[0]) + .3 * sum(x), lambda *x: jnp.cos(3 * x[-1]) * x[0] - x[-1] ** 2]
  refs = [lambda *x: 0 * x[0], lambda *x: 0 * x[0] + 2.5, lambda *x: np.sin(x[0]) + .3 * sum(x), lambda *x: np.cos(3 * x[-1]) * x[0] - x[-1] ** 2]
  combos = list(itertools.product(range(4), repeat=nd))
  weights = np.array([np.eye(4)[list(c)] for c in combos])
  plain = np.array([[refs[c](*centers(grid, o)) for c, o in zip(combo, grid.cell_faces)] for combo in combos])
  flowed = np.array([np.stack(fourier_projection(list(w), grid, False)) for w in plain])
  def double(*a):
    return 2. * pressure.solve_fast_diag(*a)
  for bcs, its, twice in itertools.product((None, (periodic(grid),) * nd), (None, 0, 1, 2), (False, True)):
    if twice and (bcs is None or not its):
      continue
    key = f'initial field {shape} bc={"given" if bcs else "default"} iterations={its} doubled={twice}'
    kw = dict() if its is None else dict(iterations=its)
    if twice:
      kw['pressure_solve'] = double  # projections become reflections
    def make(wt):
      def fn(c):
        return lambda *x: sum(wt[c, m] * f(*x) for m, f in enumerate(fns))
      return initial_conditions.initial_velocity_field(tuple(fn(c) for c in range(nd)), grid, bcs, **kw)  # pylint: disable=cell-var-from-loop
    v = jax.jit(jax.vmap(make))(jnp.asarray(weights))
    want = plain if not its else flowed if not twice else plain if its == 2 else 2 * flowed - plain
    for c in combos:
      rec.state(key, c)
    rec.step(len(combos))
    ok = rec.expect(all(a.offset == o and a.grid == grid and a.bc == periodic(grid) for a, o in zip(v, grid.cell_faces)), key, 'metadata')
    ok &= rec.close(np.stack([np.asarray(a.data) for a in v], 1), want, key, 'evaluated at its own faces, projected', rtol=1e-8, atol=1e-8)
    rec.trace(len(combos) if ok else 0)
  # called with plain functions, outside of any transformation
  v = initial_conditions.initial_velocity_field(tuple(fns[:nd] if nd < 4 else fns), grid)
  rec.close(np.stack([np.asarray(a.data) for a in v]), plain[combos.index(tuple(range(nd)))], f'initial field {shape} eager', 'values', rtol=1e-9, atol=1e-9)


def unit_walls(rec, shape):
  """Periodic/wall combinations; the functions respect their walls."""
  nd = len(shape)
  grid = grids.Grid(shape, domain=tuple((0., 1. + .4 * i) for i in range(nd)))
  length = [hi for _, hi in grid.domain]
  n = int(np.prod(shape))
  for kinds in itertools.product('pw', repeat=nd):
    if 'w' not in kinds:
      continue
    bc = boundaries.HomogeneousBoundaryConditions(tuple((boundaries.BCType.DIRICHLET,) * 2 if k == 'w' else (boundaries.BCType.PERIODIC,) * 2 for k in kinds))
    def make(comp, m, xp):
      def f(*x):
        out = 1. + comp
        for i, (a, l) in enumerate(zip(x, length)):
          if kinds[i] == 'w':  # pylint: disable=cell-var-from-loop
            out = out * xp.sin(np.pi * a * (1 + m * (i == comp)) / l)
          else:
            out = out * xp.cos(TAU * a * (1 + m) / l + comp)
        return out + 0 * x[0]
      return f
    for m, its in itertools.product((0, 1), (None, 1, 2)):
      v = initial_conditions.initial_velocity_field(tuple(make(c, m, jnp) for c in range(nd)), grid, (bc,) * nd, iterations=its)
      want = np.stack([make(c, m, np)(*centers(grid, o)) for c, o in enumerate(grid.cell_faces)])
      key = f'initial field with walls {shape} {"".join(kinds)} m={m} iterations={its}'
      rec.state(key)
      rec.step()
      ok = rec.expect(all(a.offset == o and a.grid == grid and a.bc == bc for a, o in zip(v, grid.cell_faces)), key, 'metadata')
      got = np.stack([np.asarray(a.data) for a in v])
      if its is None:
        ok &= rec.close(got, want, key, 'evaluated at its own faces', rtol=1e-9, atol=1e-9)
      else:
        # orthogonal projection with frozen walls, built from impulses of plain differences
        free = np.ones((nd,) + tuple(shape), bool)
        for c in range(nd):
          if kinds[c] == 'w':
            free[(c,) + (slice(None),) * c + (-1,)] = False
        dmat = np.zeros((n, nd * n))
        eye = np.eye(n).reshape((n,) + tuple(shape))
        for c in range(nd):
          prev = np.roll(eye, 1, c + 1)
          if kinds[c] == 'w':
            idx = [slice(None)] * (nd + 1)
            idx[c + 1] = 0
            prev[tuple(idx)] = 0
          dmat[:, c * n:(c + 1) * n] = ((eye - prev) / grid.step[c]).reshape(n, n).T
        dmat = dmat * free.ravel()
        x = want.ravel() * free.ravel()
        x = x - dmat.T @ np.linalg.pinv(dmat @ dmat.T, rcond=1e-11) @ (dmat @ x)
        ok &= rec.close(got, x.reshape(got.shape), key, 'orthogonal projection', rtol=1e-8, atol=1e-8)
        ok &= rec.close(got[~free], 0 * got[~free], key, 'no flow through walls', atol=1e-12)
      rec.trace(ok)


def unit_wrap(rec, shape):
  nd = len(shape)
  grid = grids.Grid(shape, domain=tuple((0., 1. + i) for i in range(nd)))
  P, D, N = boundaries.BCType.PERIODIC, boundaries.BCType.DIRICHLET, boundaries.BCType.NEUMANN
  pairs = [((P, P), (0., 0.)), ((D, D), (1.5, -2.)), ((N, N), (0., 0.)), ((D, N), (.75, 0.)), ((N, D), (0., 3.))]
  for combo in itertools.product(pairs, repeat=nd):
    bc = boundaries.ConstantBoundaryConditions(tuple(p for p, _ in combo), tuple(v for _, v in combo))
    for offs in itertools.product((None, .5, 0., 1.), repeat=1) if nd > 2 else itertools.product((None, .5, 0., 1.), repeat=nd):
      if None in offs and any(o is not None for o in offs):
        continue
      dirich = [i for i in range(nd)]
      offsets = None if None in offs else (tuple(offs) * (nd if len(offs) == 1 else 1),) * nd
      real = offsets or grid.cell_faces
      if any(o[i] in (0., 1.) and N in combo[i][0] for o in real for i in range(nd)):
        continue  # edge-aligned Neumann data are refused
      base = np.stack([lin.generic((3,) + tuple(shape), i) for i in range(nd)], 1)
      def want_of(a, o):
        a = a.copy()
        edges = []
        for i in dirich:
          idx = lambda j, i=i: (Ellipsis,) + (j,) + (slice(None),) * (nd - 1 - i)
          if o[i] == 0. and combo[i][0][0] == D:  # pylint: disable=cell-var-from-loop
            edges.append((idx(0), combo[i][1][0]))  # pylint: disable=cell-var-from-loop
          if o[i] == 1. and combo[i][0][1] == D:  # pylint: disable=cell-var-from-loop
            edges.append((idx(-1), combo[i][1][1]))  # pylint: disable=cell-var-from-loop
        fuzzy = np.zeros(a.shape, int)
        for ix, val in edges:
          a[ix] = val
          fuzzy[ix] += 1
        return a, fuzzy > 1
      for batch in (False, True):
        key = f'wrap {shape} {combo} offsets={offsets} batch={batch}'
        arrays = tuple(jnp.asarray(base[:, i] if batch else base[0, i]) for i in range(nd))
        kw = {} if offsets is None else dict(offsets=offsets)
        if batch:
          kw['batch_dim'] = True
        v = initial_conditions.wrap_variables(arrays, grid, (bc,) * nd, **kw)
        rec.state(key)
        rec.step()
        ok = rec.expect(len(v) == nd and all(a.offset == o and a.grid == grid and a.bc == bc for a, o in zip(v, real)), key, 'metadata')
        for i in range(nd):
          w, skip = want_of(np.asarray(arrays[i]), real[i])
          got = np.asarray(v[i].array.data)
          if rec.expect(got.shape == w.shape, key, f'shape {got.shape} != {w.shape}'):
            ok &= rec.close(np.where(skip, 0, got), np.where(skip, 0, w), key, f'component {i}: wall values imposed, nothing else changed', rtol=0, atol=1e-14)
        rec.trace(ok)


def units(tier):
  th = tier == 'thorough'
  out = []
  for shape in ((4, 5), (6, 6)) + (((3, 8),) if th else ()):
    out.append((f'taylor-green-{shape}', unit_taylor_green, dict(shape=shape)))
  for n in (16,) + ((24,) if th else ()):
    out.append((f'taylor-green-ns-{n}', unit_taylor_green_ns, dict(n=n)))
  grids_ = [((8, 8), ((0., TAU),) * 2), ((6, 9), ((0., 1.), (.5, 2.))), ((4, 5, 6), ((0., TAU),) * 3), ((3, 4, 4), ((0., 1.), (0., 2.), (0., 1.)))]
  if th:
    grids_ += [((5, 7), ((0., TAU), (0., 3.))), ((16, 12), ((0., TAU), (0., 4.))), ((6, 6, 6), ((0., TAU),) * 3)]
  for (shape, dom), col in itertools.product(grids_, (False, True)):
    out.append((f'filtered-{shape}-{col}', unit_filtered, dict(shape=shape, domain=dom, collocated=col, keys=(16 if th else 4))))
    if len(shape) == 2 and (th or shape == (8, 8)):
      out.append((f'filtered32-{shape}-{col}', unit_filtered, dict(shape=shape, domain=dom, collocated=col, keys=2, x32=True, x64=False)))
  for shape, dom in (((5,), ((0., 2.),)), ((4, 5), ((0., 2.), (-1., 0.))), ((6, 6), ((0., TAU),) * 2), ((3, 4, 3), ((0., 1.), (1., 3.), (0., 1.)))):
    out.append((f'evaluated-{shape}', unit_evaluated, dict(shape=shape, domain=dom)))
  for shape in ((4, 5), (3, 3), (3, 4, 3)):
    out.append((f'walls-{shape}', unit_walls, dict(shape=shape)))
  for shape in ((4,), (3, 4)) + (((3, 3, 4),) if th else ()):
    out.append((f'wrap-{shape}', unit_wrap, dict(shape=shape)))
  return out
