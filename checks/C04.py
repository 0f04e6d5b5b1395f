"""C04: finite-difference operators are the exact stencils on every grid, agree
with each other, and satisfy the discrete vector identities."""
import functools
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from jax_cfd.base import array_utils
from jax_cfd.base import boundaries
from jax_cfd.base import finite_differences as fd
from jax_cfd.base import grids
from mc import lin
from mc import ref_fv

PROPERTY = 'C04'
RULE = ('state = (shape, steps, offset, bc per axis, operator); transition = one real operator '
        'applied to one unit impulse; validated when the full matrix, the offset and the grid '
        'equal the independent dense stencil')
BOUNDS = ('1-d lines 2..6, 2-d and 3-d boxes with sides 2..4, anisotropic steps, shifted '
          'origins; offsets 0/.5/1; every bc kind per axis; every unit impulse')
P, D, N = 'periodic', 'dirichlet', 'neumann'
KINDS = [((P, P), 0.5, (0., 0.)), ((P, P), 1.0, (0., 0.)), ((P, P), 0.0, (0., 0.)),
         ((D, D), 0.5, (1., -2.)), ((D, D), 1.0, (0.5, 1.5)), ((D, D), 0.0, (0.5, 1.5)),
         ((N, N), 0.5, (1., 3.)), ((N, D), 0.5, (-1., 2.)), ((D, N), 0.5, (0., 0.))]


def make(shape, combo, scale=1.0, origin=0.0):
  ndim = len(shape)
  steps = tuple(scale * s for s in (0.5, 0.8, 0.25)[:ndim])
  grid = grids.Grid(shape, domain=tuple((origin, origin + n * s) for n, s in zip(shape, steps)))
  types, offset, values = map(tuple, zip(*combo))
  bc = boundaries.ConstantBoundaryConditions(types, values)
  f = ref_fv.Field(shape, grid.step, types, values, offset)
  return grid, bc, f


def free_inputs(f):
  base, xs, _ = ref_fv.free_basis([f])
  return np.concatenate([xs, base + lin.generic(f.shape).ravel()[None] * ref_fv.free_mask(f)])


def real(grid, bc, f, x):
  return grids.GridVariable(grids.GridArray(x.reshape(f.shape), f.offset, grid), bc)


def run(rec, key, fn, xs):
  box = {}

  def g(x):
    u = fn(x)
    box['o'], box['g'] = u.offset, u.grid
    return u.data.ravel()
  done, out = rec.attempt(lambda: np.asarray(jax.vmap(g)(jnp.asarray(xs))), key, 'operator')
  rec.step(len(xs))
  return done, out, box


def check(rec, key, fn, xs, mat, vec, offset, grid, tol=1e-9):
  rec.state(key)
  done, out, box = run(rec, key, fn, xs)
  if not done:
    return False
  want = xs @ mat.T + vec
  good = rec.close(out, want, key, 'values', rtol=tol, atol=tol)
  good &= rec.expect(len(box['o']) == len(offset) and np.allclose(box['o'], offset), key,
                     f"offset {box['o']} expected {offset}")
  good &= rec.expect(box['g'] == grid, key, 'grid changed')
  rec.outcome(out)
  if good:
    rec.trace()
  return good


def off(offset, axis, d):
  return tuple(o + d if i == axis else o for i, o in enumerate(offset))


def unit_scalar(rec, shape, combos, scale=1.0, origin=0.0):
  ndim = len(shape)
  for combo in combos:
    grid, bc, f = make(shape, combo, scale, origin)
    xs = free_inputs(f)
    key = f'shape={shape} scale={scale} origin={origin} kinds={combo}'
    for axis in range(ndim):
      for name, op, (m, c), d in (
          ('central', fd.central_difference, f.central(axis), 0.),
          ('backward', fd.backward_difference, f.backward(axis), -.5),
          ('forward', fd.forward_difference, f.forward(axis), .5)):
        check(rec, f'{name}_difference axis={axis} {key}',
              lambda x: op(real(grid, bc, f, x), axis), xs, m, c, off(f.offset, axis, d), grid)
    m, c = f.laplacian()
    check(rec, f'laplacian {key}', lambda x: fd.laplacian(real(grid, bc, f, x)), xs, m, c,
          f.offset, grid, 1e-8)
    rec.sample(dict(key=key))


def unit_axis_args(rec, shape):
  """None, a sequence and a single axis select the same derivatives."""
  ndim = len(shape)
  for combo in itertools.product(KINDS[:1] + KINDS[3:5], repeat=ndim):
    grid, bc, f = make(shape, combo)
    x = free_inputs(f)[-1]
    u = real(grid, bc, f, jnp.asarray(x))
    key = f'axis argument shape={shape} kinds={combo}'
    rec.state(shape, combo)
    for nm in ('central_difference', 'backward_difference', 'forward_difference'):
      op = getattr(fd, nm)
      single = [op(u, a) for a in range(ndim)]
      seqs = [None, tuple(range(ndim)), list(reversed(range(ndim))), (ndim - 1,), (0,)]
      for s in seqs:
        done, got = rec.attempt(lambda: op(u) if s is None else op(u, s), key, nm)
        rec.step()
        if not done:
          continue
        idx = range(ndim) if s is None else s
        good = rec.expect(len(got) == len(list(idx)), key, f'{nm}: wrong number of derivatives')
        for g, a in zip(got, idx):
          good &= rec.close(g.data, single[a].data, key, f'{nm} axis={s}')
          good &= rec.expect(g.offset == single[a].offset, key, f'{nm} offset')
          rec.outcome(np.asarray(g.data))
        if good:
          rec.trace()


def unit_vector(rec, shape, kinds_list):
  """divergence, centered divergence, curl, gradient tensor, identities."""
  ndim = len(shape)
  n = int(np.prod(shape))
  for kinds, tang, nv in kinds_list:
    steps = (0.5, 0.8, 0.25)[:ndim]
    grid = grids.Grid(shape, step=steps)
    fields = ref_fv.velocity_fields(shape, grid.step, kinds, tang, nv)
    base, xs, free = ref_fv.free_basis(fields)
    gen = np.concatenate([lin.generic(shape, i).ravel() for i in range(ndim)])
    xs = np.concatenate([xs, base[None] + gen * free])
    bcs = [boundaries.ConstantBoundaryConditions(f.types, f.values) for f in fields]

    def vel(x, fields=fields, bcs=bcs):
      return tuple(real(grid, b, f, x[i * n:(i + 1) * n])
                   for i, (f, b) in enumerate(zip(fields, bcs)))
    key = f'shape={shape} axes={kinds} tangential={tang} normal={nv}'

    def blocks(parts):
      m = np.zeros((n, n * ndim))
      c = np.zeros(n)
      for i, (a, b) in parts:
        m[:, i * n:(i + 1) * n] += a
        c += b
      return m, c
    neg = lambda ab: (-ab[0], -ab[1])
    m, c = blocks([(i, f.backward(i)) for i, f in enumerate(fields)])
    check(rec, f'divergence {key}', lambda x: fd.divergence(vel(x)), xs, m, c, (0.5,) * ndim, grid)
    if ndim == 2:
      m, c = blocks([(1, fields[1].forward(0)), (0, neg(fields[0].forward(1)))])
      check(rec, f'curl_2d {key}', lambda x: fd.curl_2d(vel(x)), xs, m, c, (1., 1.), grid)
    if ndim == 3:
      for k in range(3):
        a, b = (k + 1) % 3, (k + 2) % 3
        m, c = blocks([(b, fields[b].forward(a)), (a, neg(fields[a].forward(b)))])
        o = tuple(0.5 if i == k else 1.0 for i in range(3))
        check(rec, f'curl_3d[{k}] {key}', lambda x: fd.curl_3d(vel(x))[k], xs, m, c, o, grid)
    # gradient tensor: entry (i, j) is d_i of component j, at cell centres
    for j, f in enumerate(fields):
      for i in range(ndim):
        if i == j:
          m1, c1 = f.backward(i)
        else:
          # interpolate to cell centre along j, then difference centrally
          s, sc = f.shift(j, -1)
          interp, ic = (np.eye(n) + s) / 2, sc / 2
          cf = ref_fv.Field(shape, grid.step, f.types, f.values, (0.5,) * ndim)
          cm, cc = cf.central(i)
          m1, c1 = cm @ interp, cm @ ic + cc
        m, c = blocks([(j, (m1, c1))])
        if 'w' in kinds and nv != (0., 0.):
          continue
        check(rec, f'gradient_tensor[{i},{j}] {key}',
              lambda x: fd.gradient_tensor(vel(x))[i, j], xs, m, c, (0.5,) * ndim, grid)
    rec.sample(dict(key=key))


def unit_centered(rec, shape):
  """Collocated: centered divergence; single-field gradient tensor."""
  ndim = len(shape)
  n = int(np.prod(shape))
  for combo in itertools.product(KINDS[:1] + KINDS[3:4] + KINDS[6:7], repeat=ndim):
    grid, bc, f = make(shape, combo)
    xs1 = free_inputs(f)
    xs = np.concatenate([np.zeros((1, n * ndim)), np.eye(n * ndim),
                         lin.generic((1, n * ndim))])
    m = np.concatenate([f.central(i)[0] for i in range(ndim)], axis=1)
    c = sum(f.central(i)[1] for i in range(ndim))
    key = f'shape={shape} kinds={combo}'
    check(rec, f'centered_divergence {key}',
          lambda x: fd.centered_divergence(tuple(
              real(grid, bc, f, x[i * n:(i + 1) * n]) for i in range(ndim))),
          xs, m, c, f.offset, grid)
    for i in range(ndim):
      check(rec, f'scalar gradient_tensor[{i}] {key}',
            lambda x: fd.gradient_tensor(real(grid, bc, f, x))[i], xs1, *f.central(i),
            f.offset, grid)


def unit_identities(rec, shape, scale):
  """Operators composed with each other, on periodic boxes, by real calls only."""
  ndim = len(shape)
  n = int(np.prod(shape))
  steps = tuple(scale * s for s in (0.5, 0.8, 0.25)[:ndim])
  grid = grids.Grid(shape, step=steps)
  bc = boundaries.periodic_boundary_conditions(ndim)
  center = grid.cell_center
  basis = jnp.asarray(np.concatenate([np.eye(n), lin.generic((1, n))]))
  key = f'identities shape={shape} scale={scale}'
  rec.state(shape, scale)
  var = lambda a: grids.GridVariable(a, bc)

  def mat(f):
    rec.step(len(basis))
    return np.asarray(jax.vmap(lambda x: f(x.reshape(shape)))(basis))
  p = lambda x: grids.GridVariable(grids.GridArray(x, center, grid), bc)
  grad = lambda x: tuple(var(g) for g in fd.forward_difference(p(x)))
  lap = mat(lambda x: fd.laplacian(p(x)).data.ravel())
  divgrad = mat(lambda x: fd.divergence(grad(x)).data.ravel())
  s = 1 / min(steps) ** 2
  good = rec.close(lap, divgrad, key, 'laplacian == divergence of gradient', atol=1e-10 * s)
  good &= rec.close(lap[:n].T, lap[:n], key, 'laplacian is symmetric', atol=1e-10 * s)
  g = mat(lambda x: jnp.concatenate([u.data.ravel() for u in grad(x)]))[:n]   # n x (d n)
  e = jnp.asarray(np.eye(n * ndim))

  def divm(x):
    v = tuple(grids.GridVariable(grids.GridArray(x[i * n:(i + 1) * n].reshape(shape), o, grid), bc)
              for i, o in enumerate(grid.cell_faces))
    return fd.divergence(v).data.ravel()
  rec.step(n * ndim)
  dm = np.asarray(jax.vmap(divm)(e))         # (d n) x n
  good &= rec.close(dm, -g.T, key, 'divergence is minus the adjoint of the gradient', atol=1e-10 * s)
  good &= rec.close(dm.sum(1), np.zeros(n * ndim), key, 'total divergence is zero', atol=1e-10 * s)
  if ndim == 2:
    cg = mat(lambda x: fd.curl_2d(grad(x)).data.ravel())
    good &= rec.close(cg, 0 * cg, key, 'curl of gradient', atol=1e-10 * s)
  if ndim == 3:
    cg = mat(lambda x: jnp.concatenate([c.data.ravel() for c in fd.curl_3d(grad(x))]))
    good &= rec.close(cg, 0 * cg, key, 'curl of gradient', atol=1e-10 * s)

    def divcurl(x):
      v = tuple(grids.GridVariable(grids.GridArray(x[i * n:(i + 1) * n].reshape(shape), o, grid), bc)
                for i, o in enumerate(grid.cell_faces))
      c = fd.curl_3d(v)
      return sum(fd.forward_difference(var(a), i).data for i, a in enumerate(c)).ravel()
    rec.step(n * ndim)
    dc = np.asarray(jax.vmap(divcurl)(e))
    good &= rec.close(dc, 0 * dc, key, 'divergence of curl', atol=1e-10 * s)
  rec.outcome(lap)
  # one-dimensional laplacian matrices describe the same operator
  ms = array_utils.laplacian_matrix_w_boundaries(grid, center, bc)
  kron = sum(ref_fv.along(np.asarray(m), shape, i) for i, m in enumerate(ms))
  good &= rec.close(kron, lap[:n], key, 'laplacian matrices', atol=1e-10 * s)
  if good:
    rec.trace()


def unit_lapmat(rec, shape, kinds):
  """Laplacian matrices with walls == the finite-difference laplacian."""
  ndim = len(shape)
  for combo in itertools.product(kinds, repeat=ndim):
    if any(k[0] == (D, D) and k[1] == 0.0 for k in combo):
      continue
    hom = tuple((t, o, (0., 0.)) for t, o, _ in combo)
    grid, bc, f = make(shape, hom)
    key = f'laplacian_matrix_w_boundaries shape={shape} kinds={hom}'
    rec.state(key)
    done, ms = rec.attempt(
        lambda: array_utils.laplacian_matrix_w_boundaries(grid, f.offset, bc), key, 'matrices')
    rec.step()
    if not done:
      continue
    mask = ref_fv.free_mask(f)
    xs = np.eye(f.size)[mask]
    _, lap, _ = run(rec, key, lambda x: fd.laplacian(real(grid, bc, f, x)), xs)
    lap = lap[:, mask]
    ishape = tuple(m.shape[0] for m in ms)
    good = rec.expect(int(np.prod(ishape)) == mask.sum(), key, f'sizes {ishape}')
    if good:
      kron = sum(ref_fv.along(np.asarray(m), ishape, i) for i, m in enumerate(ms))
      good &= rec.close(kron, lap.T, key, 'matrix vs operator')
      rec.outcome(kron)
    if good:
      rec.trace()


def unit_reject(rec):
  """Wrong numbers of components, mismatched grids, unsupported walls are refused."""
  for nd in (1, 2, 3):
    grid = grids.Grid((3, 4, 2)[:nd])
    for axis, o, t in itertools.product(range(nd), (0., 1.), ((D, N), (N, D), (N, N))):
      for rest in ((P, P), (D, D), (N, N)):
        types = tuple(t if a == axis else rest for a in range(nd))
        offset = tuple(o if a == axis else .5 for a in range(nd))
        bc = boundaries.HomogeneousBoundaryConditions(types)
        key = f'laplacian matrix at a Neumann wall {types} offset={offset}'
        rec.state(key)
        rec.step()
        if rec.raises(lambda: array_utils.laplacian_matrix_w_boundaries(grid, offset, bc), key,
                      'edge-aligned Neumann', (NotImplementedError,)):
          rec.trace()
  for nd in (1, 2, 3):
    grid = grids.Grid((3,) * nd)
    grid2 = grids.Grid((3,) * nd, step=0.5)
    bc = boundaries.periodic_boundary_conditions(nd)
    mk = lambda g, o=None: grids.GridVariable(
        grids.GridArray(jnp.ones(g.shape), o or g.cell_center, g), bc)
    for count in (1, 2, 3, 4):
      v = tuple(mk(grid) for _ in range(count))
      key = f'components ndim={nd} count={count}'
      rec.state(key)
      rec.step()
      ok = True
      for nm in ('divergence', 'centered_divergence'):
        f = getattr(fd, nm)
        if count != nd:
          ok &= rec.raises(lambda: f(v), key, nm, (ValueError,))
        else:
          ok &= rec.attempt(lambda: f(tuple(
              mk(grid, o if nm == 'divergence' else None)
              for o in grid.cell_faces)), key, nm)[0]
      if not (nd == 2 and count == 2):
        ok &= rec.raises(lambda: fd.curl_2d(v), key, 'curl_2d', (ValueError,))
      if not (nd == 3 and count == 3):
        ok &= rec.raises(lambda: fd.curl_3d(v), key, 'curl_3d', (ValueError,))
      rec.outcome((nd, count))
      if ok:
        rec.trace()
    if nd > 1:
      v = (mk(grid),) * (nd - 1) + (mk(grid2),)
      for nm in ('divergence', 'centered_divergence', 'curl_2d' if nd == 2 else 'curl_3d'):
        rec.raises(lambda: getattr(fd, nm)(v), f'mixed grids {nm} ndim={nd}', nm,
                   (grids.InconsistentGridError,))
        rec.step()
        rec.state(nd, nm)
    for bad in (0.25, 0.75, 1.5, -0.5):
      u = mk(grid, (bad,) * nd)
      rec.raises(lambda: fd.gradient_tensor(u), f'gradient_tensor offset {bad}', 'gradient_tensor',
                 (ValueError,))
      rec.step()


def unit_x32(rec):
  for shape in ((5,), (3, 4), (2, 3, 4)):
    ndim = len(shape)
    for combo in itertools.product((KINDS[0], KINDS[4], KINDS[7]), repeat=ndim):
      grid, bc, f = make(shape, combo)
      x = free_inputs(f)[-1]
      u = real(grid, bc, f, jnp.asarray(x, jnp.float32))
      key = f'single precision shape={shape} kinds={combo}'
      rec.state(shape, combo)
      ops = [(f'{n}{a}', lambda v, n=n, a=a: getattr(fd, n)(v, a), getattr(f, n.split('_')[0])(a))
             for n in ('central_difference', 'backward_difference', 'forward_difference')
             for a in range(ndim)] + [('laplacian', fd.laplacian, f.laplacian())]
      good = True
      for nm, op, (m, c) in ops:
        done, out = rec.attempt(lambda: jax.jit(op)(u), key, nm)
        rec.step()
        if done:
          good &= rec.close(out.data.ravel(), m @ x + c, key, nm, rtol=1e-5, atol=1e-4)
          good &= rec.expect(out.dtype == np.float32, key, f'{nm} dtype {out.dtype}')
          rec.outcome(np.asarray(out.data))
      if good:
        rec.trace()


def units(tier):
  th = tier == 'thorough'
  out = [('reject', unit_reject, {}), ('x32', unit_x32, dict(x64=False))]
  for n in range(2, 9 if th else 6):
    out.append((f'line-{n}', unit_scalar, dict(shape=(n,), combos=[(k,) for k in KINDS])))
  out.append(('line-fine', unit_scalar, dict(shape=(4,), combos=[(k,) for k in KINDS],
                                             scale=0.01, origin=-3.0)))
  for s in [(3, 4), (2, 3)] + ([(4, 3), (5, 4), (2, 2)] if th else []):
    ks = KINDS if s == (3, 4) or th else KINDS[::3]
    for i, k in enumerate(ks):
      out.append((f'box-{s}-{i}', unit_scalar,
                  dict(shape=s, combos=[(k, b) for b in ks], origin=0.5)))
  for i, k in enumerate(KINDS if th else KINDS[1::3] + KINDS[:1]):
    sub = [KINDS[0], KINDS[4], KINDS[6]]
    out.append((f'box3-{i}', unit_scalar,
                dict(shape=(2, 3, 4), combos=[(k, b, c) for b in sub for c in sub])))
  for s in ((4,), (2, 3), (2, 3, 2)):
    out.append((f'axis-{s}', unit_axis_args, dict(shape=s)))
  t0 = ((D, D), (0., 0.))
  tangs = [(t0, (0., 0.)), (((D, D), (1., -2.)), (0., 0.)), (((N, N), (0.5, 1.)), (0., 0.)),
           (((N, D), (0., 1.)), (0.5, 1.5))]
  for s in [(3, 4), (2, 3), (3, 2, 4)] + ([(4, 4), (5, 3), (2, 3, 3), (4, 3, 2)] if th else []):
    for kinds in itertools.product('pw', repeat=len(s)):
      if len(s) == 3 and not th and kinds not in (tuple('ppp'), tuple('pwp'), tuple('wpw')):
        continue
      kl = [(kinds,) + t for t in (tangs if 'w' in kinds else tangs[:1])]
      out.append((f'vec-{s}-{"".join(kinds)}', unit_vector, dict(shape=s, kinds_list=kl)))
  for s in [(4,), (3, 4), (2, 3, 3)]:
    out.append((f'centered-{s}', unit_centered, dict(shape=s)))
  for s in [(4,), (2,), (3,), (4, 3), (2, 4), (3, 2, 3), (2, 2, 4)] + ([(5, 5), (3, 3, 3)] if th else []):
    for sc in (1.0, 0.01):
      out.append((f'ident-{s}-{sc}', unit_identities, dict(shape=s, scale=sc)))
  for s in [(2,), (3,), (5,), (2, 3), (3, 4), (3, 2, 2)]:
    ks = KINDS if len(s) < 3 else KINDS[::3] + KINDS[4:5]
    out.append((f'lapmat-{s}', unit_lapmat, dict(shape=s, kinds=ks)))
  return out
