"""C05: interpolation: linear, upwind, Lax-Wendroff, flux-limited and pointwise."""
import itertools
import math

import jax
import jax.numpy as jnp
import numpy as np

from jax_cfd.base import boundaries
from jax_cfd.base import grids
from jax_cfd.base import interpolation
from mc import lin
from mc import ref_fv

PROPERTY = 'C05'
RULE = ('state = (shape, bc, source offset, target offset, velocity word, method); transition = one '
        'real interpolation of one unit impulse / one word of cell values; validated when values, '
        'offset and grid equal the reference')
BOUNDS = ('linear: lines 2..5, 2-d/3-d boxes, source offsets 0/.5/1, targets -1..2 in steps of 1/4, '
          'every bc kind, every impulse; upwind and Lax-Wendroff: every velocity word over '
          '{-1,-.5,0,.5,1}^n; limited: every cell word over {0,1,2,4}^n x velocity signs; pointwise: '
          'every eighth-step lattice point in and around the domain')
P, D, N = 'periodic', 'dirichlet', 'neumann'
KINDS = [((P, P), 0.5, (0., 0.)), ((P, P), 1.0, (0., 0.)), ((P, P), 0.0, (0., 0.)),
         ((D, D), 0.5, (1., -2.)), ((D, D), 1.0, (0.5, 1.5)), ((D, D), 0.0, (0.5, 1.5)),
         ((N, N), 0.5, (1., 3.)), ((N, D), 0.5, (-1., 2.))]


def setup(shape, combo, origin=0.0):
  ndim = len(shape)
  grid = grids.Grid(shape, domain=tuple(
      (origin, origin + n * s) for n, s in zip(shape, (0.5, 0.8, 0.25))))
  types, offset, values = map(tuple, zip(*combo))
  bc = boundaries.ConstantBoundaryConditions(types, values)
  return grid, bc, ref_fv.Field(shape, grid.step, types, values, offset)


def free_inputs(f):
  base, xs, mask = ref_fv.free_basis([f])
  return np.concatenate([xs, base[None] + lin.generic(f.shape).ravel() * mask])


def lin_ref(f, target):
  """Affine map of multilinear interpolation, axis after axis."""
  m, c = np.eye(f.size), np.zeros(f.size)
  off = list(f.offset)
  for axis, o in enumerate(target):
    d = o - off[axis]
    if d != 0:
      lo, hi = math.floor(d), math.ceil(d)
      g = ref_fv.Field(f.shape, f.steps, f.types, f.values, tuple(off))
      w = 1.0 if lo == hi else hi - d
      a, b = g.shift(axis, lo)
      a2, b2 = g.shift(axis, hi)
      a, b = w * a + (1 - w) * a2, w * b + (1 - w) * b2
      m, c = a @ m, a @ c + b
    off[axis] = o
  return m, c


def unit_linear(rec, shape, combos, targets, origin=0.0):
  for combo in combos:
    if sum(t == (D, D) and o != 0.5 and any(v) for t, o, v in combo) > 1:
      continue  # wall data that contradict each other where the walls meet
    grid, bc, f = setup(shape, combo, origin)
    xs = free_inputs(f)
    for target in itertools.product(targets, repeat=len(shape)):
      key = f'linear shape={shape} kinds={combo} target={target} origin={origin}'
      rec.state(key)
      box = {}

      def fn(x):
        u = grids.GridVariable(grids.GridArray(x.reshape(shape), f.offset, grid), bc)
        r = interpolation.linear(u, target)
        box['r'] = (r.offset, r.grid, r.bc)
        return r.data.ravel()
      done, out = rec.attempt(lambda: np.asarray(jax.vmap(fn)(jnp.asarray(xs))), key, 'linear')
      rec.step(len(xs))
      if not done:
        continue
      m, c = lin_ref(f, target)
      good = rec.close(out, xs @ m.T + c, key, 'values')
      good &= rec.expect(tuple(box['r'][0]) == tuple(target), key, f"offset {box['r'][0]}")
      good &= rec.expect(box['r'][1] == grid and box['r'][2] == bc, key, 'grid or bc changed')
      rec.outcome(out)
      if good:
        rec.trace()
  rec.sample(dict(key=key))


def unit_affine(rec):
  """Affine functions are reproduced exactly away from boundaries."""
  for shape in ((6,), (5, 6), (5, 4, 5)):
    ndim = len(shape)
    for origin in (0.0, -1.0):
      grid = grids.Grid(shape, domain=tuple(
          (origin, origin + n * s) for n, s in zip(shape, (0.5, 0.8, 0.25))))
      bc = boundaries.periodic_boundary_conditions(ndim)
      coef = (2., -3., .5)[:ndim]
      for o in itertools.product((0.0, 0.5, 1.0), repeat=ndim):
        for t in itertools.product((-0.5, 0.0, 0.25, 0.5, 1.0, 1.5), repeat=ndim):
          if ndim == 3 and len(set(t)) > 2:
            continue
          fun = lambda *x: 1.0 + sum(a * b for a, b in zip(coef, x))
          u = grids.GridVariable(grid.eval_on_mesh(fun, o), bc)
          key = f'affine shape={shape} origin={origin} from={o} to={t}'
          rec.state(key)
          done, r = rec.attempt(lambda: interpolation.linear(u, t), key, 'linear')
          rec.step()
          if not done:
            continue
          want = np.asarray(grid.eval_on_mesh(fun, t).data)
          sl = (slice(1, -2),) * ndim
          if all(t_ - o_ >= 0 for t_, o_ in zip(t, o)):
            sl = (slice(0, -2),) * ndim
          else:
            sl = tuple(slice(2, -2) for _ in shape)
          if rec.close(np.asarray(r.data)[sl], want[sl], key, 'interior values'):
            rec.trace()
          rec.outcome(np.asarray(r.data)[sl])


def face_cases(ndim):
  for co in itertools.product((0.0, 0.5, 1.0), repeat=ndim):
    for axis in range(ndim):
      for d in (0.5, -0.5):
        yield co, axis, d


def unit_upwind(rec, shape, alphabet, dt):
  """upwind and Lax-Wendroff for every velocity word along the axis."""
  ndim = len(shape)
  n = int(np.prod(shape))
  grid = grids.Grid(shape, step=(0.5, 0.8, 0.25)[:ndim])
  bc = boundaries.periodic_boundary_conditions(ndim)
  words = lin.words(alphabet, n) if len(alphabet) ** n <= 4000 else np.concatenate(
      [np.eye(n) * a for a in alphabet if a] + [-np.eye(n) + 1] +
      [np.sign(lin.generic((n,), k))[None] for k in range(8)] + [np.full((1, n), a) for a in alphabet])
  cs = np.concatenate([np.eye(n), lin.generic((1, n)) * 3])
  for co, axis, d in face_cases(ndim):
    target = tuple(o + d if i == axis else o for i, o in enumerate(co))
    if target[axis] not in (0.0, 0.5, 1.0):
      continue
    f = ref_fv.Field(shape, grid.step, ((P, P),) * ndim, ((0., 0.),) * ndim, co)
    left = f.shift(axis, math.floor(d))[0]
    right = f.shift(axis, math.ceil(d))[0]
    key = f'shape={shape} c.offset={co} target={target} dt={dt}'
    box = {}

    def fn(w, x, which):
      c = grids.GridVariable(grids.GridArray(x.reshape(shape), co, grid), bc)
      u = grids.GridVariable(grids.GridArray(w.reshape(shape), target, grid), bc)
      other = grids.GridVariable(grids.GridArray(-3 * w.reshape(shape), target, grid), bc)
      v = tuple(u if i == axis else other for i in range(ndim))
      r = getattr(interpolation, which)(c, target, v, dt)
      box['r'] = (r.offset, r.grid)
      return r.data.ravel()
    L, R = cs @ left.T, cs @ right.T           # (cs, n)
    for which in ('upwind', 'lax_wendroff'):
      rec.state(key, which)
      g = jax.jit(jax.vmap(jax.vmap(lambda w, x: fn(w, x, which), (None, 0)), (0, None)))
      done, out = rec.attempt(lambda: np.asarray(g(jnp.asarray(words), jnp.asarray(cs))),
                              f'{which} {key}', which)
      rec.step(len(words) * len(cs))
      if not done:
        continue
      w = words[:, None, :]
      if which == 'upwind':
        want = np.where(w > 0, L[None], R[None])
        # at a stagnant face either neighbour is upstream
        got = np.where((w == 0) & np.isclose(out, L[None]), want, out)
      else:
        cn = dt / grid.step[axis] * w
        want = np.where(w > 0, L + .5 * (1 - cn) * (R - L), R - .5 * (1 + cn) * (R - L))
        got = out
      good = rec.close(got, want, f'{which} {key}', 'values')
      good &= rec.expect(box['r'] == (target, grid), f'{which} {key}', f"meta {box['r']}")
      rec.outcome(out[:50])
      if good:
        rec.trace(len(words))
    # same offset: returned unchanged
    for which in ('upwind', 'lax_wendroff'):
      c = grids.GridVariable(grids.GridArray(jnp.asarray(cs[-1]).reshape(shape), co, grid), bc)
      u = grids.GridVariable(grids.GridArray(jnp.ones(shape), co, grid), bc)
      r = getattr(interpolation, which)(c, co, (u,) * ndim, dt)
      rec.step()
      rec.close(r.data, c.data, f'{which} same offset {key}', 'values')
  # more than one axis at once is refused
  if ndim > 1:
    c = grids.GridVariable(grids.GridArray(jnp.ones(shape), (0.5,) * ndim, grid), bc)
    for which in ('upwind', 'lax_wendroff'):
      rec.raises(lambda: getattr(interpolation, which)(c, (1.0,) * ndim, (c,) * ndim, dt),
                 f'{which} several axes', which, (grids.InconsistentOffsetError,))


def unit_upwind_walls(rec):
  """Upwind next to walls uses the boundary extension."""
  for n in (2, 3, 4):
    for kind in KINDS[3:]:
      if kind[1] != 0.5:
        continue
      grid, bc, f = setup((n,), (kind,))
      words = lin.words((-1., 1.), n)
      cs = np.concatenate([np.zeros((1, n)), np.eye(n), lin.generic((1, n))])
      for target, d in ((1.0, 0.5), (0.0, -0.5)):
        key = f'upwind wall n={n} kind={kind} target={target}'
        rec.state(key)
        a, b = f.shift(0, math.floor(d))
        a2, b2 = f.shift(0, math.ceil(d))

        def fn(w, x):
          c = grids.GridVariable(grids.GridArray(x, (0.5,), grid), bc)
          u = grids.GridVariable(grids.GridArray(w, (target,), grid), bc)
          return interpolation.upwind(c, (target,), (u,)).data
        done, out = rec.attempt(lambda: np.asarray(jax.vmap(jax.vmap(fn, (None, 0)), (0, None))(
            jnp.asarray(words), jnp.asarray(cs))), key, 'upwind')
        rec.step(len(words) * len(cs))
        if done:
          want = np.where(words[:, None] > 0, (cs @ a.T + b)[None], (cs @ a2.T + b2)[None])
          if rec.close(out, want, key, 'values'):
            rec.trace(len(words))
          rec.outcome(out)


def unit_limiter(rec):
  r = np.concatenate([np.arange(-64, 65) / 16., 2.0 ** np.arange(-40, 41),
                      -2.0 ** np.arange(-10, 20)])
  rec.step(len(r))
  phi = np.asarray(interpolation.van_leer_limiter(jnp.asarray(r)))
  want = np.where(r > 0, 2 * np.abs(r) / (1 + np.abs(r)), 0)
  ok = rec.close(phi, want, 'van_leer_limiter', 'values')
  ok &= rec.expect(np.all(phi >= 0) and np.all(phi <= np.maximum(0, np.minimum(2, 2 * r)) + 1e-12),
                   'van_leer_limiter', 'limiter leaves the TVD region')
  for x in (-2., 0., 3.):
    for y in (-4., -1e-30, 0., 1e-30, 5.):
      for dn in (1, 7.):
        rec.state('safe_div', x, y, dn)
        rec.step()
        got = interpolation.safe_div(jnp.float64(x), jnp.float64(y), dn)
        ok &= rec.close(got, x / (y if y != 0 else dn), f'safe_div({x},{y},{dn})', 'value')
  for v in r:
    rec.state('r', float(v))
  rec.outcome(phi)
  rec.outcome(want[:5])
  # derivative must stay finite everywhere (used in training)
  g = np.asarray(jax.vmap(jax.grad(lambda q: interpolation.van_leer_limiter(q)))(jnp.asarray(r)))
  ok &= rec.expect(np.all(np.isfinite(g)), 'van_leer_limiter', 'gradient not finite')
  if ok:
    rec.trace(len(r))


def unit_tvd(rec, n, alphabet, ndim):
  """Limited interpolation for every word of cell values."""
  words = lin.words(alphabet, n)
  h = 0.5
  for axis in range(ndim):
    shape = tuple(n if i == axis else 2 for i in range(ndim))
    grid = grids.Grid(shape, step=h)
    bc = boundaries.periodic_boundary_conditions(ndim)
    target = tuple(1.0 if i == axis else 0.5 for i in range(ndim))
    expand = lambda x: jnp.broadcast_to(
        x.reshape([-1 if i == axis else 1 for i in range(ndim)]), shape)
    first = lambda a: jnp.moveaxis(a, axis, 0).reshape(n, -1)[:, -1]
    for hname in ('lax_wendroff', 'linear'):
      fn_i = interpolation.apply_tvd_limiter(getattr(interpolation, hname))
      for cfl in (0.25, 0.5, 1.0):
        dt = cfl * h
        uwords = lin.words((-1., 1.), n) if n <= 4 else np.array(
            [[1.] * n, [-1.] * n, [1., -1.] * (n // 2) + [1.] * (n % 2)])

        def fn(u, x):
          c = grids.GridVariable(grids.GridArray(expand(x), grid.cell_center, grid), bc)
          uu = grids.GridVariable(grids.GridArray(expand(u), target, grid), bc)
          v = tuple(uu if i == axis else grids.GridVariable(
              grids.GridArray(5 * expand(-u), target, grid), bc) for i in range(ndim))
          r = fn_i(c, target, v, dt)
          return first(r.data)
        key = f'tvd({hname}) n={n} ndim={ndim} axis={axis} cfl={cfl}'
        g = jax.jit(jax.vmap(jax.vmap(fn, (None, 0)), (0, None)))
        done, out = rec.attempt(lambda: np.asarray(g(jnp.asarray(uwords), jnp.asarray(words))), key, 'tvd')
        rec.step(len(uwords) * len(words))
        if not done:
          continue
        for w in words:
          rec.state(n, ndim, axis, hname, cfl, tuple(w))
        c = words[None]
        cl, cr, crr = (np.roll(words, s, axis=1)[None] for s in (1, -1, -2))
        u = uwords[:, None]
        div = lambda a, b: a / np.where(b != 0, b, 1)
        phi = lambda r: np.where(r > 0, 2 * r / np.where(1 + r != 0, 1 + r, 1), 0)
        low = np.where(u > 0, c, cr)
        if hname == 'linear':
          high = (c + cr) / 2 + 0 * u
        else:
          high = np.where(u > 0, c + .5 * (1 - cfl * u) * (cr - c), cr - .5 * (1 + cfl * u) * (cr - c))
        ph = np.where(u > 0, phi(div(c - cl, cr - c)), phi(div(crr - cr, cr - c)))
        want = low - (low - high) * ph
        good = rec.close(out, want, key, 'values')
        lo, hi = np.minimum(c, cr), np.maximum(c, cr)
        good &= rec.expect(np.all(out >= lo - 1e-12) and np.all(out <= hi + 1e-12), key,
                           'face value leaves the range of its two neighbours')
        rec.outcome(out[:, :64])
        if good:
          rec.trace(len(words) * len(uwords))
    bad = tuple(0.0 if i == axis else 0.5 for i in range(ndim))
    c = grids.GridVariable(grids.GridArray(jnp.ones(shape), grid.cell_center, grid), bc)
    rec.raises(lambda: fn_i(c, bad, (c,) * ndim, 0.1), f'tvd backward axis={axis}', 'tvd',
               (NotImplementedError,))


def resolve(i, n, mode):
  """Index extension of the documented modes; None means outside."""
  if 0 <= i < n:
    return i
  if mode == 'constant':
    return None
  if mode == 'nearest':
    return min(max(i, 0), n - 1)
  if mode == 'wrap':
    return i % n
  if mode == 'reflect':          # d c b a | a b c d | d c b a
    j = i % (2 * n)
    return j if j < n else 2 * n - 1 - j
  if mode == 'mirror':           # d c b | a b c d | c b a
    if n == 1:
      return 0
    j = i % (2 * (n - 1))
    return j if j < n else 2 * (n - 1) - j


def unit_point(rec, shape, mode):
  ndim = len(shape)
  for origin, steps in ((0.0, (1.0, 1.0, 1.0)), (-1.5, (0.5, 2.0, 0.25))):
    grid = grids.Grid(shape, domain=tuple(
        (origin, origin + n * s) for n, s in zip(shape, steps)))
    for o in itertools.product((0.0, 0.5, 1.0), repeat=ndim):
      n = int(np.prod(shape))
      data = np.concatenate([np.eye(n), lin.generic((1, n)) * 2]).reshape((-1,) + shape)
      eighth = 8 if ndim == 1 else 4
      axes = [np.arange(-2 * eighth, (s + 2) * eighth + 1) / eighth for s in shape]
      if ndim == 2:
        axes = [a[::2] if i else a[::3] for i, a in enumerate(axes)]
      if ndim == 3:
        axes = [a[::5] for a in axes]
      pts = np.array(list(itertools.product(*axes)))      # in index units
      xs = np.stack([origin + (pts[:, i] + o[i]) * steps[i] for i in range(ndim)], 1)
      for cval in ((0.0, 7.5) if mode == 'constant' else (0.0,)):
        key = f'point_interpolation shape={shape} offset={o} origin={origin} mode={mode} cval={cval}'
        rec.state(key)

        def fn(p, d):
          return interpolation.point_interpolation(
              p, grids.GridArray(d, o, grid), order=1, mode=mode, cval=cval)
        g = jax.jit(jax.vmap(jax.vmap(fn, (None, 0)), (0, None)))
        done, out = rec.attempt(lambda: np.asarray(g(jnp.asarray(xs), jnp.asarray(data))), key,
                                'point_interpolation')
        rec.step(out.size if done else 1)
        if not done:
          continue
        want = np.zeros((len(pts), len(data)))
        for corner in itertools.product((0, 1), repeat=ndim):
          base = np.floor(pts).astype(int) + np.array(corner)
          w = np.prod([np.where(corner[i], pts[:, i] - np.floor(pts[:, i]),
                                1 - (pts[:, i] - np.floor(pts[:, i]))) for i in range(ndim)], axis=0)
          for k, idx in enumerate(base):
            r = [resolve(int(j), shape[i], mode) for i, j in enumerate(idx)]
            val = cval if None in r else data[(slice(None),) + tuple(r)]
            want[k] += w[k] * val
        good = rec.close(out, want, key, 'values', atol=1e-8)
        rec.outcome(out)
        if good:
          rec.trace(len(pts))
  # defaults: linear, edge values continued
  if mode == 'nearest':
    grid = grids.Grid(shape, step=0.5)
    d = lin.generic(shape)
    rec.step()
    p = [0.3 + 0.2 * i for i in range(ndim)]
    a = interpolation.point_interpolation(p, grids.GridArray(jnp.asarray(d), (0.5,) * ndim, grid))
    b = interpolation.point_interpolation(p, grids.GridArray(jnp.asarray(d), (0.5,) * ndim, grid),
                                          order=1, mode='nearest')
    rec.close(a, b, 'point_interpolation defaults', 'value')


def unit_point_order0(rec):
  """order=0: the nearest sample."""
  n = 5
  grid = grids.Grid((n,), domain=((-1., 1.5),))
  for o in (0.0, 0.5, 1.0):
    d = lin.generic((n,))
    for k in range(-3, 8 * n):
      p = k / 8 + 1 / 16
      if p > n - 1 or p < 0:
        continue
      x = -1 + (p + o) * .5
      rec.state(o, k)
      rec.step()
      got = interpolation.point_interpolation(
          jnp.array([x]), grids.GridArray(jnp.asarray(d), (o,), grid), order=0)
      if rec.close(got, d[int(round(p))], f'order 0 offset={o} position={p}', 'value'):
        rec.trace()
      rec.outcome(float(got))


def unit_reject(rec):
  for nd in (1, 2, 3):
    grid = grids.Grid((3,) * nd)
    bc = boundaries.periodic_boundary_conditions(nd)
    c = grids.GridVariable(grids.GridArray(jnp.ones(grid.shape), grid.cell_center, grid), bc)
    for m in range(5):
      rec.state(nd, m)
      rec.step()
      if m == nd:
        rec.trace()
        rec.outcome((nd, m))
        continue
      rec.raises(lambda: interpolation.linear(c, (0.5,) * m), f'linear offset length {m} in {nd}-d',
                 'linear', (ValueError,))


def unit_x32(rec):
  for combo in itertools.product((KINDS[0], KINDS[4], KINDS[6]), repeat=2):
    grid, bc, f = setup((3, 4), combo)
    x = free_inputs(f)[-1]
    for target in itertools.product((0.5, 1.0, 0.75), repeat=2):
      u = grids.GridVariable(grids.GridArray(jnp.asarray(x, jnp.float32).reshape(3, 4), f.offset, grid), bc)
      key = f'single precision linear kinds={combo} target={target}'
      rec.state(key)
      rec.step()
      done, r = rec.attempt(lambda: jax.jit(lambda u: interpolation.linear(u, target))(u), key, 'linear')
      if done:
        m, c = lin_ref(f, target)
        good = rec.close(r.data.ravel(), m @ x + c, key, 'values', rtol=1e-5, atol=1e-5)
        good &= rec.expect(r.dtype == np.float32, key, f'dtype {r.dtype}')
        rec.outcome(np.asarray(r.data))
        if good:
          rec.trace()


def units(tier):
  th = tier == 'thorough'
  targets = tuple(np.arange(-4, 9) / 4)
  out = [('limiter', unit_limiter, {}), ('reject', unit_reject, {}), ('order0', unit_point_order0, {}),
         ('walls', unit_upwind_walls, {}), ('x32', unit_x32, dict(x64=False)),
         ('affine', unit_affine, {})]
  for n in range(2, 7 if th else 5):
    out.append((f'lin-{n}', unit_linear, dict(shape=(n,), combos=[(k,) for k in KINDS], targets=targets)))
  out.append(('lin-origin', unit_linear, dict(shape=(4,), combos=[(k,) for k in KINDS],
                                              targets=targets, origin=-2.0)))
  sub = (0.0, 0.5, 0.75, 1.0, 1.5)
  for i, k in enumerate(KINDS):
    oth = KINDS if th else KINDS[i % 2::3]
    out.append((f'lin2-{i}', unit_linear, dict(shape=(3, 2), combos=[(k, b) for b in oth], targets=sub)))
  for i, k in enumerate(KINDS[::3] if not th else KINDS):
    out.append((f'lin3-{i}', unit_linear,
                dict(shape=(2, 3, 2), combos=[(k, b, c) for b in KINDS[1:5:3] for c in KINDS[:7:6]],
                     targets=(0.5, 1.0))))
  al = (-1., -.5, 0., .5, 1.)
  out.append(('up-3', unit_upwind, dict(shape=(3,), alphabet=al, dt=0.25)))
  out.append(('up-4', unit_upwind, dict(shape=(4,), alphabet=al, dt=0.3)))
  out.append(('up-22', unit_upwind, dict(shape=(2, 2), alphabet=al, dt=0.2)))
  out.append(('up-32', unit_upwind, dict(shape=(3, 2), alphabet=(-1., 0., 1.), dt=0.2)))
  out.append(('up-222', unit_upwind, dict(shape=(2, 3, 2), alphabet=al, dt=0.1)))
  if th:
    out.append(('up-5', unit_upwind, dict(shape=(5,), alphabet=al, dt=0.1)))
    out.append(('up-23', unit_upwind, dict(shape=(2, 3), alphabet=(-1., 0., 1.), dt=0.2)))
  out.append(('tvd-4', unit_tvd, dict(n=4, alphabet=(0., 1., 2., 4.), ndim=1)))
  out.append(('tvd-5', unit_tvd, dict(n=5, alphabet=(0., 1., 3.), ndim=1)))
  out.append(('tvd-4-2d', unit_tvd, dict(n=4, alphabet=(0., 1., 3.), ndim=2)))
  out.append(('tvd-4-3d', unit_tvd, dict(n=4, alphabet=(0., 1., -2.), ndim=3)))
  if th:
    out.append(('tvd-6', unit_tvd, dict(n=6, alphabet=(0., 1., 2., 4.), ndim=1)))
  for mode in ('nearest', 'wrap', 'reflect', 'mirror', 'constant'):
    for s in [(2,), (4,), (3, 4), (2, 3, 2)]:
      if len(s) == 3 and not th and mode not in ('nearest',):
        continue
      out.append((f'point-{mode}-{s}', unit_point, dict(shape=s, mode=mode)))
  return out
