"""C08: diffusion and the fast diagonalization solvers invert the right operator.

Implicit diffusion must return the exact solution of (1 - nu dt Laplacian) x = u
under the variable's boundary conditions; a separable function of operators must
equal the matrix function of their Kronecker sum for every implementation.
"""
import functools
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from jax_cfd.base import boundaries
from jax_cfd.base import diffusion
from jax_cfd.base import fast_diagonalization as fdg
from jax_cfd.base import grids
from jax_cfd.collocated import diffusion as cdiffusion

from checks.C03 import reference_cg
from checks.C06 import variable
from mc import lin
from mc import ref_fv

PROPERTY = 'C08'
P, D, N = ref_fv.P, ref_fv.D, ref_fv.N
RULE = ('all unit impulses through every implicit diffusion solve for every '
        'combination of boundary kinds and offsets, against a dense affine '
        'solve; all small symmetric (resp. circulant) operators over an '
        'alphabet x functions x implementations against the Kronecker sum')
BOUNDS = 'diffusion: up to 3 dimensions, 20 cells, nu*dt from 0 to 100; operators up to 4x4 per axis, 3 axes'
ASSUMPTIONS = ['float64 tolerance 1e-8 (cg: its own tolerance); pseudoinverse null '
               'spaces tested with eigenvalues separated from the cutoff']
STEPS = (0.5, 0.8, 0.25)
KINDS = [((P, P), 0.5, (0., 0.)), ((P, P), 1.0, (0., 0.)),
         ((D, D), 0.5, (0., 0.)), ((D, D), 1.0, (0., 0.)), ((D, D), 0.0, (0., 0.)),
         ((N, N), 0.5, (0., 0.)), ((D, N), 0.5, (0., 0.)), ((N, D), 0.5, (0., 0.)),
         ((D, D), 0.5, (1., -2.)), ((D, D), 1.0, (0.5, 1.5)), ((D, D), 0.0, (2., 0.)),
         ((D, N), 0.5, (3., 0.)), ((N, D), 0.5, (0., 1.))]


def field(shape, combo):
  types, offset, values = map(tuple, zip(*combo))
  grid = grids.Grid(shape, step=STEPS[:len(shape)])
  return grid, ref_fv.Field(shape, grid.step, types, values, offset)


def solve_ref(f, xs, k):
  """Dense solution of (1 - k Laplacian) x = u on the free entries."""
  a, b = f.laplacian()
  free = ref_fv.free_mask(f)
  wall = ref_fv.wall_values(f)
  m = np.eye(f.size) - k * a
  # unknown free values z: (M (wall + z) - k b)|free = u|free
  rhs = xs[:, free] - (m @ wall - k * b)[free]
  z = np.linalg.solve(m[np.ix_(free, free)], rhs.T).T
  out = np.broadcast_to(wall, xs.shape).copy()
  out[:, free] = z
  return out


def unit_implicit(rec, shape, combos):
  for combo in combos:
    if any(t[0] != P and o != .5 and n < 2 for (t, o, _), n in zip(combo, shape)):
      continue
    grid, f = field(shape, combo)
    base, xs, mask = ref_fv.free_basis([f])
    xs = np.concatenate([xs, base + lin.generic((1, f.size)) * mask])
    periodic = all(t == (P, P) for t, _, _ in combo)
    impls = [None, 'matmul', 'fft'] + (['rfft'] if shape[-1] % 2 == 0 else []) if periodic else [None]
    solvers = [(f'fast_diag:{i}', functools.partial(diffusion.solve_fast_diag, implementation=i), 1e-8) for i in impls]
    if periodic:
      solvers += [('cg', functools.partial(diffusion.solve_cg, rtol=1e-12, atol=1e-12), 1e-8),
                  ('cg default', diffusion.solve_cg, 1e-4)]
    for nu, dt in ((0., 1.), (1., 0.), (1e-3, .01), (.1, .5), (2., 1.), (10., 10.)):
      want = solve_ref(f, xs, nu * dt)
      for name, solver, tol in solvers:
        key = f'{name} shape={shape} kinds={combo} nu={nu} dt={dt}'
        rec.state(key)
        box = {}

        def fn(x):
          r = solver((variable(grid, f, x),), nu, dt)
          box['r'] = (len(r), tuple(r[0].offset), r[0].bc.types, r[0].grid)
          return r[0].data.ravel()
        done, out = rec.attempt(lambda: np.asarray(jax.jit(jax.vmap(fn))(jnp.asarray(xs))), key, 'solve')
        rec.step(len(xs))
        if not done:
          continue
        good = rec.close(out, want, key, 'solution', rtol=tol, atol=tol)
        good &= rec.expect(box['r'] == (1, f.offset, f.types, grid), key, f"meta {box['r']}")
        rec.outcome(out)
        if good:
          rec.trace()
  rec.sample(dict(key=key))


def unit_vector(rec, shape, kinds):
  """A staggered velocity as a whole: each component by its own conditions."""
  ndim = len(shape)
  grid = grids.Grid(shape, step=STEPS[:ndim])
  n = int(np.prod(shape))
  for tang in (((D, D), (0., 0.)), ((D, D), (0., 1.)), ((N, N), (0., 0.))):
    vf = ref_fv.velocity_fields(shape, grid.step, kinds, tang, (0., 0.))
    base, xs, mask = ref_fv.free_basis(vf)
    xs = np.concatenate([xs, base + lin.generic((1, len(base))) * mask])
    for k in (.01, 3.):
      key = f'vector shape={shape} axes={kinds} tangential={tang} k={k}'
      rec.state(key)

      def fn(x):
        v = tuple(variable(grid, g, x[i * n:(i + 1) * n]) for i, g in enumerate(vf))
        return jnp.concatenate([u.data.ravel() for u in diffusion.solve_fast_diag(v, k, 1.0)])
      done, out = rec.attempt(lambda: np.asarray(jax.jit(jax.vmap(fn))(jnp.asarray(xs))), key, 'solve')
      rec.step(len(xs))
      if not done:
        continue
      want = np.concatenate([solve_ref(g, xs[:, i * n:(i + 1) * n], k) for i, g in enumerate(vf)], 1)
      if rec.close(out, want, key, 'solution', rtol=1e-8):
        rec.trace()
      rec.outcome(out)


def unit_explicit(rec, shape):
  """diffuse() = nu Laplacian; the recommended step keeps it monotone."""
  ndim = len(shape)
  combos = list(itertools.product(KINDS, repeat=ndim))
  if ndim > 1:
    combos = [c for i, c in enumerate(combos) if i % 3 == 0 or c[0] == c[1]]
  for combo in combos:
    grid, f = field(shape, combo)
    base, xs, mask = ref_fv.free_basis([f])
    a, b = f.laplacian()
    free = ref_fv.free_mask(f)
    for nu in (1., .3):
      key = f'diffuse shape={shape} kinds={combo} nu={nu}'
      rec.state(key)
      done, out = rec.attempt(lambda: np.asarray(jax.vmap(
          lambda x: diffusion.diffuse(variable(grid, f, x), nu).data.ravel())(jnp.asarray(xs))), key, 'diffuse')
      rec.step(len(xs))
      if not done:
        continue
      good = rec.close(out[:, free], (nu * (xs @ a.T + b))[:, free], key, 'values')
      if all(v == (0., 0.) for _, _, v in combo):
        dt = diffusion.stable_time_step(nu, grid)
        m = (xs + dt * out)[1:][:, free]
        # the weights of one explicit step: eigenvalues within the unit disc
        r = np.abs(np.linalg.eigvals(m)).max()
        good &= rec.expect(r <= 1 + 1e-9, key, f'explicit step amplifies by {r}')
        if all(t != (D, D) for t, _, _ in combo) and all(D not in t for t, _, _ in combo):
          good &= rec.close(out.sum(1), np.zeros(len(out)), key, 'total is conserved')
          good &= rec.expect(m.min() >= -1e-9, key, f'weight {m.min()}: new extrema')
      rec.outcome(out)
      if good:
        rec.trace()
  for steps in sorted(set(itertools.permutations(STEPS[:ndim]))):
    grid = grids.Grid(shape, step=steps)
    h = min(steps)
    for nu in (1e-3, 1., 7.):
      rec.state('step', nu, steps)
      rec.step()
      rec.close(diffusion.stable_time_step(nu, grid), h * h / (nu * 2 ** ndim), f'stable_time_step {shape} {steps} {nu}', 'value')
  rec.expect(diffusion.stable_time_step(0., grid) == float('inf'), f'stable_time_step {shape} 0', 'not infinite')
  grid = grids.Grid(shape, step=STEPS[:ndim])
  # collocated: divergence of the central gradient
  f = ref_fv.Field(shape, STEPS[:ndim], ((P, P),) * ndim, ((0., 0.),) * ndim, (.5,) * ndim)
  a = sum(f.central(i)[0] @ f.central(i)[0] for i in range(ndim))
  xs = np.concatenate([np.eye(f.size), lin.generic((1, f.size))])
  out = np.asarray(jax.vmap(lambda x: cdiffusion.diffuse(variable(grid, f, x), .3).data.ravel())(jnp.asarray(xs)))
  rec.step(len(xs))
  rec.state('collocated')
  if rec.close(out, .3 * xs @ a.T, f'collocated diffuse {shape}', 'values'):
    rec.trace()
  bad = ref_fv.Field(shape, STEPS[:ndim], ((D, D),) * ndim, ((0., 0.),) * ndim, (.5,) * ndim)
  rec.raises(lambda: cdiffusion.diffuse(variable(grid, bad, jnp.ones(f.size)), .3),
             f'collocated walls {shape}', 'non periodic', (ValueError,))
  rec.raises(lambda: diffusion.solve_cg((variable(grid, bad, jnp.ones(f.size)),), .3, .1),
             f'cg walls {shape}', 'non periodic', (ValueError,))


FUNCS = {
    'identity': lambda x: x,
    'square': lambda x: x * x,
    'resolvent': lambda x: 1 / (5.0 + x * x),
    'exp': lambda x: np.exp(-x / 4),
    'one': lambda x: np.ones_like(x),
}


def kron_sum(ops):
  shape = [o.shape[0] for o in ops]
  return sum(ref_fv.along(o, shape, i) for i, o in enumerate(ops))


def matrix_function(name, k):
  n = len(k)
  if name == 'identity':
    return k
  if name == 'square':
    return k @ k
  if name == 'resolvent':
    return np.linalg.inv(5 * np.eye(n) + k @ k)
  if name == 'exp':
    # exact Taylor series with scaling and squaring
    a = -k / 4 / 64
    out, term = np.eye(n), np.eye(n)
    for i in range(1, 25):
      term = term @ a / i
      out = out + term
    for _ in range(6):
      out = out @ out
    return out
  return np.eye(n)


def symmetric(n, alphabet):
  iu = np.triu_indices(n)
  for w in itertools.product(alphabet, repeat=len(iu[0])):
    m = np.zeros((n, n))
    m[iu] = w
    yield m + np.triu(m, 1).T


def circulant(col):
  n = len(col)
  return np.array([[col[(i - j) % n] for j in range(n)] for i in range(n)], float)


def check_ops(rec, ops, impls, key, funcs=FUNCS):
  shape = tuple(o.shape[0] for o in ops)
  n = int(np.prod(shape))
  k = kron_sum(ops)
  xs = np.concatenate([np.eye(n), lin.generic((1, n))])
  for fname in funcs:
    want = (xs @ matrix_function(fname, k).T).reshape((-1,) + shape)
    for impl, kw in impls:
      kk = f'{key} func={fname} impl={impl}'
      done, out = rec.attempt(lambda: np.asarray(jax.vmap(fdg.transform(
          FUNCS[fname], ops, np.dtype(np.float64), implementation=impl, **kw))(jnp.asarray(xs).reshape((-1,) + shape))), kk, 'transform')
      rec.step(len(xs))
      if done:
        if rec.close(out, want, kk, 'values', atol=1e-8, rtol=1e-8):
          rec.trace()
        rec.outcome(out)
  if True:
    ev = np.linalg.eigvals(k)
    small = np.abs(ev) < 1e-3
    if np.all(np.abs(ev[small]) < 1e-9):
      want = (xs @ np.linalg.pinv(k, rcond=1e-8).T).reshape((-1,) + shape)
      for impl, kw in impls:
        kk = f'{key} pseudoinverse impl={impl}'
        done, out = rec.attempt(lambda: np.asarray(jax.vmap(fdg.pseudoinverse(
            ops, np.dtype(np.float64), implementation=impl, cutoff=1e-6, **kw))(jnp.asarray(xs).reshape((-1,) + shape))), kk, 'pseudoinverse')
        rec.step(len(xs))
        if done:
          if rec.close(out, want, kk, 'values', atol=1e-8, rtol=1e-8):
            rec.trace()
          rec.outcome(out)


def unit_symmetric(rec, sizes, alphabet, funcs=('identity', 'resolvent')):
  pools = [list(symmetric(n, alphabet)) for n in sizes]
  for i, ops in enumerate(itertools.product(*pools)):
    rec.state(i)
    check_ops(rec, list(ops), [('matmul', dict(hermitian=True))],
              f'symmetric {[o.tolist() for o in ops]}', funcs)
  rec.sample(dict(ops=[o.tolist() for o in ops]))


def unit_circulant(rec, sizes, alphabet, funcs=('identity', 'exp'), stride=1):
  pools = [[circulant(c) for c in itertools.product(alphabet, repeat=n)] for n in sizes]
  impls = [('fft', dict(circulant=True))]
  if sizes[-1] % 2 == 0:
    impls += [('rfft', dict(circulant=True)), (None, dict(circulant=True))]
  for i, ops in enumerate(itertools.product(*pools)):
    if i % stride:
      continue
    rec.state(i)
    check_ops(rec, list(ops), impls, f'circulant {[o.tolist() for o in ops]}', funcs)
  # symmetric circulant: all implementations agree
  for c in itertools.product(alphabet, repeat=2):
    ops = [circulant([c[0]] + [c[1]] + [0] * (n - 3) + [c[1]]) if n > 2 else circulant([c[0], c[1]][:n]) for n in sizes]
    rec.state('sym', c)
    check_ops(rec, ops, [(im, dict(hermitian=True, circulant=True)) for im in
                         ('matmul', 'fft', None) + (('rfft',) if sizes[-1] % 2 == 0 else ())],
              f'symmetric circulant {sizes} {c}')


def unit_refuse(rec):
  ve = (ValueError,)
  sym = np.array([[2., 1.], [1., 2.]])
  odd = circulant([2., 1., 1.])
  f64 = np.dtype(np.float64)
  t = lambda ops, **kw: fdg.transform(lambda x: x, ops, f64, **kw)
  cases = [
      ('not square', lambda: t([np.ones((2, 3))], hermitian=True, implementation='matmul')),
      ('not matrix', lambda: t([np.ones(3)], hermitian=True, implementation='matmul')),
      ('second not square', lambda: t([sym, np.ones((2, 3))], hermitian=True, implementation='matmul')),
      ('matmul without hermitian', lambda: t([sym], circulant=True, implementation='matmul')),
      ('fft without circulant', lambda: t([sym], hermitian=True, implementation='fft')),
      ('rfft without circulant', lambda: t([sym], hermitian=True, implementation='rfft')),
      ('rfft odd', lambda: t([sym, odd], circulant=True, implementation='rfft')),
      ('unknown', lambda: t([sym], circulant=True, hermitian=True, implementation='dense')),
      ('matmul shape', lambda: t([sym], hermitian=True, implementation='matmul')(jnp.ones(3))),
      ('matmul dtype', lambda: t([sym], hermitian=True, implementation='matmul')(jnp.ones(2, jnp.float32))),
      ('fft shape', lambda: t([sym], circulant=True, implementation='fft')(jnp.ones(3))),
      ('rfft dtype', lambda: t([sym], circulant=True, implementation='rfft')(jnp.ones(2, jnp.float32))),
      ('func shape', lambda: fdg.transform(lambda x: x[:1], [sym], f64, hermitian=True, implementation='matmul')),
  ]
  for name, fn in cases:
    rec.state(name)
    rec.step()
    if rec.raises(fn, f'refuse {name}', name, ve):
      rec.trace()
    rec.outcome(name)
  # a wall the matrices cannot represent: a variable on a Neumann wall
  for nd, o, t in itertools.product((1, 2, 3), (0., 1.), ((D, N), (N, D), (N, N))):
    for axis in range(nd):
      bc = boundaries.HomogeneousBoundaryConditions(tuple(t if a == axis else (P, P) for a in range(nd)))
      grid = grids.Grid((3, 4, 2)[:nd])
      offset = tuple(o if a == axis else .5 for a in range(nd))
      u = grids.GridVariable(grids.GridArray(jnp.ones(grid.shape), offset, grid), bc)
      name = f'implicit diffusion on a Neumann wall {bc.types} {offset}'
      rec.state(name)
      rec.step()
      if rec.raises(lambda: diffusion.solve_fast_diag((u,), .3, .1), name, 'Neumann wall',
                    (NotImplementedError, ValueError)):
        rec.trace()
  # default dispatch never picks an implementation that does not apply
  for n in (2, 3, 4, 5):
    ops = [circulant([-2.] + [1.] + [0.] * (n - 3) + [1.])] if n > 2 else [circulant([-2., 2.])]
    rec.state('default', n)
    check_ops(rec, ops, [(None, dict(hermitian=True, circulant=True))], f'default {n}', ('identity',))


def unit_x32(rec):
  """float32, default cutoff: the periodic and Neumann Laplacian null space."""
  for shape in ((4,), (6,), (4, 6), (8, 8), (3, 4, 2)):
    for h in (1., .1, 1e-4, 1e4):
      for impl in ('matmul', 'fft', 'rfft'):
        ops = [(circulant([-2.] + [1.] + [0.] * (n - 3) + [1.]) if n > 2 else circulant([-2., 2.])) / h ** 2 for n in shape]
        key = f'float32 pseudoinverse {shape} h={h} {impl}'
        rec.state(key)
        solve = fdg.pseudoinverse(ops, np.dtype(np.float32), hermitian=True, circulant=True, implementation=impl)
        n = int(np.prod(shape))
        xs = np.concatenate([np.eye(n), np.ones((1, n))]).astype(np.float32)
        want = (xs @ np.linalg.pinv(kron_sum(ops), rcond=1e-9).T).reshape((-1,) + shape) / h ** 2
        out = np.asarray(jax.vmap(solve)(jnp.asarray(xs).reshape((-1,) + shape)))
        rec.step(len(xs))
        rec.outcome(out)
        good = rec.close(out / h ** 2, want, key, 'values', rtol=1e-4, atol=1e-5)
        good &= rec.expect(out.dtype == np.float32, key, f'dtype {out.dtype}')
        if good:
          rec.trace()
  for shape, kinds in (((6, 5), 'pw'), ((4, 4), 'pp'), ((5, 4), 'ww')):
    grid = grids.Grid(shape, step=(.2, .3))
    vf = ref_fv.velocity_fields(shape, grid.step, kinds, ((D, D), (0., 1.)), (0., 0.))
    base, _, mask = ref_fv.free_basis(vf)
    x = base + lin.generic((1, len(base))) * mask
    n = int(np.prod(shape))
    v = tuple(variable(grid, g, jnp.asarray(x[0, i * n:(i + 1) * n], jnp.float32)) for i, g in enumerate(vf))
    key = f'float32 implicit {shape} {kinds}'
    rec.state(key)
    done, r = rec.attempt(lambda: diffusion.solve_fast_diag(v, .1, .2), key, 'solve')
    rec.step()
    if done:
      for i, g in enumerate(vf):
        want = solve_ref(g, x[:, i * n:(i + 1) * n], .02)[0]
        if rec.close(np.asarray(r[i].data).ravel(), want, key, 'solution', atol=2e-5):
          rec.trace()
        rec.expect(r[i].dtype == jnp.float32, key, 'dtype')


def unit_tolerance(rec, shape):
  """What the caller asks of the iterative solver: tolerances and budget."""
  ndim = len(shape)
  bc = boundaries.periodic_boundary_conditions(ndim)
  grid = grids.Grid(shape, step=STEPS[:ndim])
  offsets = [(.5,) * ndim] + list(grid.cell_faces)
  seeds = np.stack([lin.generic(shape, 3 + i).ravel() for i in range(len(offsets))])
  f = ref_fv.Field(shape, grid.step, ((P, P),) * ndim, ((0., 0.),) * ndim, (.5,) * ndim)
  lap = f.laplacian()[0]

  @functools.partial(jax.jit, static_argnums=5)
  def run(us, nu, dt, rtol, atol, maxiter):
    v = tuple(grids.GridVariable(grids.GridArray(u.reshape(shape), o, grid), bc) for u, o in zip(us, offsets))
    w = diffusion.solve_cg(v, nu, dt, rtol=rtol, atol=atol, maxiter=maxiter)
    return jnp.stack([a.data.ravel() for a in w])

  for amp, (nu, dt) in itertools.product((1e-6, 1., 1e6), ((.1, .3), (20., .5), (0., 1.))):
    us = amp * seeds * np.array([1., 10., .1, 3.])[:len(seeds), None]  # each component has its own size
    m = np.eye(lap.shape[0]) - nu * dt * lap
    for rtol, atol in ((1e-3, 0.), (0., 1e-3), (1e-9, 1e-3), (1e-3, 1e-9), (1e-8, 1e-12), (0., 1e9), (1e9, 0.)):
      key = f'tolerance shape={shape} amplitude={amp:g} nu={nu} dt={dt} rtol={rtol:g} atol={atol:g}'
      rec.state(key)
      done, out = rec.attempt(lambda: np.asarray(run(us, nu, dt, rtol, atol, None)), key, 'solve')
      rec.step()
      if not done:
        continue
      good = True
      for u, x in zip(us, out):
        asked = max(rtol * np.linalg.norm(u), atol)
        left = np.linalg.norm(u - m @ x)
        good &= rec.expect(left <= asked * (1 + 1e-6) + 1e-12 * np.linalg.norm(m @ u), key,
                           f'residual {left:g} although {asked:g} was asked for')
      rec.outcome(out)
      if good:
        rec.trace()
    for k in range(4):
      key = f'budget shape={shape} amplitude={amp:g} nu={nu} dt={dt} maxiter={k}'
      rec.state(key)
      done, out = rec.attempt(lambda: np.asarray(run(us, nu, dt, 1e-9, 0., k)), key, 'solve')
      rec.step()
      if done:
        want = np.stack([reference_cg(m, u, u, k)[k] for u in us])
        if rec.close(out / amp, want / amp, key, f'answer after {k} iterations', atol=1e-6):
          rec.trace()
        rec.outcome(out)


def units(tier):
  th = tier == 'thorough'
  out = [('refuse', unit_refuse, {}), ('x32', unit_x32, dict(x64=False))]
  for n in [(4,), (3, 4)] + ([(2, 3, 3), (5, 5)] if th else []):
    out.append((f'tol-{n}', unit_tolerance, dict(shape=n)))
  one = [(k,) for k in KINDS]
  for n in (2, 3, 4) + ((5, 7) if th else ()):
    out.append((f'imp-{n}', unit_implicit, dict(shape=(n,), combos=one)))
  two = list(itertools.product(KINDS, repeat=2))
  two = [c for c in two if not all(t == (D, D) and o != .5 and any(v) for t, o, v in c)]
  sel = two if th else two[::2]
  for i in range(8):
    out.append((f'imp2-{i}', unit_implicit, dict(shape=(3, 4), combos=sel[i::8])))
  out.append(('imp3', unit_implicit, dict(shape=(2, 3, 2), combos=[
      tuple(KINDS[i] for i in c) for c in ((0, 0, 0), (1, 8, 0), (8, 5, 11), (2, 4, 6), (0, 9, 5), (12, 0, 8))])))
  for s, k in (((4, 3), 'pp'), ((4, 3), 'pw'), ((3, 3), 'ww'), ((2, 3, 2), 'pwp'), ((3, 2, 3), 'wwp')):
    out.append((f'vec-{s}-{k}', unit_vector, dict(shape=s, kinds=k)))
  for s in [(3,), (4,), (3, 2), (2, 4)]:
    out.append((f'exp-{s}', unit_explicit, dict(shape=s)))
  al = (-1., 0., 1.)
  out.append(('sym-2', unit_symmetric, dict(sizes=(2,), alphabet=al + (2.,), funcs=tuple(FUNCS))))
  out.append(('sym-3', unit_symmetric, dict(sizes=(3,), alphabet=(0., 1.), funcs=('square', 'exp'))))
  out.append(('sym-22', unit_symmetric, dict(sizes=(2, 2), alphabet=(0., 1.))))
  out.append(('sym-13', unit_symmetric, dict(sizes=(1, 2, 2), alphabet=(-1., 2.), funcs=('resolvent',))))
  out.append(('circ-3', unit_circulant, dict(sizes=(3,), alphabet=al)))
  out.append(('circ-4', unit_circulant, dict(sizes=(4,), alphabet=(0., 1.))))
  out.append(('circ-32', unit_circulant, dict(sizes=(3, 2), alphabet=(0., 1.))))
  out.append(('circ-23', unit_circulant, dict(sizes=(2, 3), alphabet=(-1., 1.))))
  out.append(('circ-222', unit_circulant, dict(sizes=(2, 3, 2), alphabet=(0., 1.), stride=3)))
  if th:
    out.append(('sym-3b', unit_symmetric, dict(sizes=(3,), alphabet=al)))
    out.append(('circ-44', unit_circulant, dict(sizes=(4, 4), alphabet=(0., 1.))))
    out.append(('circ-5', unit_circulant, dict(sizes=(5,), alphabet=al)))
  return out
