"""C15: coarsening keeps what it promises to keep.

Every unit impulse (so every field), grid pair, boundary condition and factor
of the bound goes through the real coarsening operators; the results are
compared with face averages, with an index-arithmetic top-hat reference and,
for the spectral operator, with sampling of every Fourier mode.
"""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from checks.C05 import lin_ref
from jax_cfd.base import boundaries
from jax_cfd.base import finite_differences as fd
from jax_cfd.base import grids
from jax_cfd.base import resize
from jax_cfd.spectral import utils as spectral_utils
from mc import ref_bc
from mc import ref_fv

PROPERTY = 'C15'
RULE = ('state = (operator, source and destination grid, boundary condition, offset, filter, input form); transition = one real '
        'coarsening of one unit impulse or one Fourier mode; validated when values, offset, grid and boundary condition equal the reference')
BOUNDS = ('staggered: factors 1..4, 1-3 dimensions, every impulse of every component, chains of two coarsenings; top hat: factors 2 and 4, filters '
          'up to 6, every boundary kind and offset; spectral: every mode of grids up to 12x12 onto every smaller grid of the list')
ASSUMPTIONS = ['spectral modes exactly on the Nyquist row or column of the destination are aliased by construction and only required to be finite',
               'top-hat coarsening: axes whose factor is 1 use filter 1 (an even filter is centred between cells)']
P, D, N = 'periodic', 'dirichlet', 'neumann'


def box(shape, steps=(.5, .8, .25), origin=0.):
  return grids.Grid(shape, domain=tuple((origin, origin + n * s) for n, s in zip(shape, steps)))


def face_mean(shape, d, k):
  """Matrix of the mean over coarse faces in direction d."""
  coarse = tuple(n // k for n in shape)
  m = np.zeros((int(np.prod(coarse)), int(np.prod(shape))))
  for r, c in enumerate(np.ndindex(*coarse)):
    ranges = [range(i * k, (i + 1) * k) for i in c]
    ranges[d] = [(c[d] + 1) * k - 1]
    for f in itertools.product(*ranges):
      m[r, np.ravel_multi_index(f, shape)] += 1 / k ** (len(shape) - 1)
  return m


def block_mean(shape, k):
  coarse = tuple(n // k for n in shape)
  m = np.zeros((int(np.prod(coarse)), int(np.prod(shape))))
  for r, c in enumerate(np.ndindex(*coarse)):
    for f in itertools.product(*[range(i * k, (i + 1) * k) for i in c]):
      m[r, np.ravel_multi_index(f, shape)] += 1 / k ** len(shape)
  return m


def unit_staggered(rec, shape, factor):
  ndim = len(shape)
  src = box(shape)
  dst = grids.Grid(tuple(n // factor for n in shape), domain=src.domain)
  n = int(np.prod(shape))
  eye = np.eye(n).reshape((n,) + shape)
  for walls in itertools.product((False, True), repeat=ndim):
    types = tuple((D, D) if w else (P, P) for w in walls)
    bc = boundaries.ConstantBoundaryConditions(types, tuple((0., 0.) if w else (None, None) for w in walls))
    # each component has conditions of its own
    bcs = [boundaries.ConstantBoundaryConditions(types, tuple((.5 * j, j) if w else (None, None) for w in walls))
           for j in range(ndim)]
    offs = [tuple(1. if i == j else .5 for i in range(ndim)) for j in range(ndim)]
    key = f'staggered {shape} factor {factor} walls {walls}'

    def fn(form, xs):
      arrays = [grids.GridArray(x, o, src) for x, o in zip(xs, offs)]
      v = {'raw': xs, 'array': arrays, 'variable': [grids.GridVariable(a, b) for a, b in zip(arrays, bcs)]}[form]
      return resize.downsample_staggered_velocity(src, dst, tuple(v))
    zero = np.zeros((n,) + shape)
    for d in range(ndim):
      xs = [jnp.asarray(eye if j == d else zero) for j in range(ndim)]
      want = eye.reshape(n, -1) @ face_mean(shape, d, factor).T
      for form in ('raw', 'array', 'variable'):
        k2 = f'{key} component {d} as {form}'
        rec.state(k2)
        rec.step(n)
        done, out = rec.attempt(lambda: jax.vmap(lambda *x: fn(form, x))(*xs), k2, 'coarsening')
        if not done:
          continue
        good = rec.expect(len(out) == ndim and isinstance(out, tuple), k2, 'number of components')
        for j, o in enumerate(out):
          if form != 'raw':
            good &= rec.expect(o.offset == offs[j] and o.grid == dst, k2, f'metadata of component {j}: {o.offset} {o.grid}')
          if form == 'variable':
            good &= rec.expect(o.bc == bcs[j], k2, f'boundary condition of component {j}')
          data = np.asarray(o if form == 'raw' else o.data)
          good &= rec.close(data.reshape(n, -1), want if j == d else 0 * want, k2, f'face means of component {j}')
        rec.trace(bool(good))
        rec.outcome(np.asarray(out[d] if form == 'raw' else out[d].data))
      # the divergence on the coarse grid is the block mean of the fine one
      # (so solenoidal fields stay solenoidal)
      wall = np.ones(shape, bool)
      if walls[d]:
        wall[tuple(slice(-1, None) if i == d else slice(None) for i in range(ndim))] = False
      keep = np.flatnonzero(wall.ravel())
      ys = [x[keep] for x in xs]

      def div(*x):
        fine = tuple(grids.GridVariable(grids.GridArray(z, o, src), bc) for z, o in zip(x, offs))
        coarse = resize.downsample_staggered_velocity(src, dst, fine)
        return fd.divergence(fine).data, fd.divergence(coarse).data
      rec.state(key, d, 'divergence')
      rec.step(len(keep))
      fine, coarse = jax.vmap(div)(*ys)
      rec.trace(rec.close(np.asarray(coarse).reshape(len(keep), -1), np.asarray(fine).reshape(len(keep), -1) @ block_mean(shape, factor).T,
                          f'{key} component {d}', 'coarse divergence'))
  # two coarsenings in a row are one
  if factor in (4,) or (factor == 6):
    k1 = 2
    k2 = factor // 2
    mid = grids.Grid(tuple(m // k1 for m in shape), domain=src.domain)

    def chain(x):
      v = tuple(grids.GridArray(x, o, src) for o in offs)
      a = resize.downsample_staggered_velocity(mid, dst, resize.downsample_staggered_velocity(src, mid, v))
      b = resize.downsample_staggered_velocity(src, dst, v)
      return tuple(z.data for z in a), tuple(z.data for z in b)
    a, b = jax.vmap(chain)(jnp.asarray(eye))
    rec.state('chain', shape, factor)
    rec.step(n)
    rec.trace(all([rec.close(np.asarray(x), np.asarray(y), f'chain {shape} {factor}', 'composition') for x, y in zip(a, b)]))
  other = grids.Grid(shape)
  for bad in (grids.GridArray(jnp.asarray(eye[0]), offs[0], other), grids.GridVariable(grids.GridArray(jnp.asarray(eye[0]), offs[0], other), boundaries.periodic_boundary_conditions(ndim))):
    rec.raises(lambda: resize.downsample_staggered_velocity(src, dst, (bad,)), f'staggered {shape} foreign grid', 'velocity of another grid', (grids.InconsistentGridError,))
  if len(set(shape)) == 1 and ndim == 2 and factor > 1:
    rec.raises(lambda: resize.downsample_staggered_velocity(src, grids.Grid(dst.shape, domain=other.domain), (grids.GridArray(jnp.asarray(eye[0]), offs[0], src),)),
               f'staggered {shape} domain', 'different domain')


def top_hat_ref(f, factor, filt, dst_shape):
  """Affine reference map on the flattened field."""
  target = tuple(.5 if w > 1 else o for o, w in zip(f.offset, filt))
  m, c = lin_ref(f, target)
  shape, off = list(f.shape), list(target)
  for ax in range(len(shape)):
    k, w = factor[ax], filt[ax]
    if w == 1:
      continue
    n = shape[ax]
    line = ref_bc.Line(n, .5, *f.types[ax], *f.values[ax], f.steps[ax], 'mirror')
    first = {0.: 0, .5: k // 2, 1.: k}[f.offset[ax]]  # edge on which the first window is centred
    rows, cons = [], []
    for i in range(dst_shape[ax]):
      e = first + i * k
      parts = [line.matrix_row(j) for j in range(e - w // 2, e + w // 2)]
      rows.append(sum(p[0] for p in parts) / w)
      cons.append(sum(p[1] for p in parts) / w)
    mat, vec = np.array(rows), np.array(cons)
    full = np.eye(1)
    new = shape[:ax] + [dst_shape[ax]] + shape[ax + 1:]
    for i, s in enumerate(shape):
      full = np.kron(full, mat if i == ax else np.eye(s))
    add = np.broadcast_to(vec.reshape([-1 if i == ax else 1 for i in range(len(new))]), new).ravel()
    m, c = full @ m, full @ c + add
    shape = new
  return m, c


COMBOS = [((P, P), 0., (0., 0.)), ((P, P), .5, (0., 0.)), ((P, P), 1., (0., 0.)), ((D, D), .5, (1., -2.)), ((D, D), 1., (0.5, 1.5)),
          ((D, D), 0., (.5, 1.5)), ((N, N), .5, (1., 3.)), ((N, D), .5, (-1., 2.)), ((D, N), .5, (2., 0.))]


def unit_top_hat(rec, shape, factors, filters, combos_per_axis):
  src = box(shape)
  steps = src.step
  for combo in itertools.product(*combos_per_axis):
    if sum(t == (D, D) and o != .5 and any(v) for t, o, v in combo) > 1:
      continue
    types, offset, values = map(tuple, zip(*combo))
    bc = boundaries.ConstantBoundaryConditions(types, values)
    f = ref_fv.Field(shape, steps, types, values, offset)
    base, xs, mask = ref_fv.free_basis([f])
    for factor in factors:
      for filt in filters:
        w = factor if filt is None else filt
        if isinstance(w, int):
          w = (w,) * len(shape)
        if any(a < b or (b == 1 and a != 1) for a, b in zip(w, factor)):
          continue
        if any(s % k for s, k in zip(shape, factor)) or any(a // 2 > s for a, s in zip(w, shape)):
          continue
        dst = grids.Grid(tuple(s // k for s, k in zip(shape, factor)), domain=src.domain)
        key = f'top hat {shape} factor={factor} filter={filt} {combo}'
        rec.state(key)
        rec.step(len(xs))
        meta = {}

        def fn(x):
          u = grids.GridVariable(grids.GridArray(x.reshape(shape), offset, src), bc)
          r, = resize.top_hat_downsample(src, dst, (u,), filt)
          meta['r'] = (r.offset, r.grid, r.bc, r.shape)
          return r.data
        done, out = rec.attempt(lambda: np.asarray(jax.vmap(fn)(jnp.asarray(xs))), key, 'top hat')
        if not done:
          continue
        m, c = top_hat_ref(f, factor, w, dst.shape)
        good = rec.close(out.reshape(len(xs), -1), xs @ m.T + c, key, 'window means')
        good &= rec.expect(tuple(meta['r'][0]) == offset and meta['r'][1] == dst and meta['r'][2] == bc and meta['r'][3] == dst.shape, key, f"metadata {meta['r']}")
        if not any(any(v) for v in values) and all(D not in t for t in types):
          good &= rec.close(m.sum(1), np.ones(len(m)), key, 'constants are kept')
        rec.outcome(out)
        rec.trace(bool(good))
  u = grids.GridVariable(grids.GridArray(jnp.zeros(shape), (.5,) * len(shape), box(shape, (1., 1., 1.))), boundaries.periodic_boundary_conditions(len(shape)))
  dst = grids.Grid(tuple(s // 2 for s in shape), domain=src.domain)
  rec.raises(lambda: resize.top_hat_downsample(src, dst, (u,)), f'top hat {shape} foreign grid', 'variable of another grid', (grids.InconsistentGridError,))
  # several variables of different offsets at once are coarsened independently
  dst = grids.Grid(tuple(s // 2 for s in shape), domain=src.domain)
  rng = np.random.RandomState(0)
  sides = [(P, P), (D, D), (P, P)]
  vs = tuple(grids.GridVariable(grids.GridArray(jnp.asarray(rng.rand(*shape)), (o,) * len(shape), src),
                                boundaries.HomogeneousBoundaryConditions((t,) * len(shape))) for o, t in zip((0., .5, 1.), sides))
  together = resize.top_hat_downsample(src, dst, vs)
  for i, (a, v) in enumerate(zip(together, vs)):
    b, = resize.top_hat_downsample(src, dst, (v,))
    rec.state('several', shape, i)
    rec.trace(rec.close(np.asarray(a.data), np.asarray(b.data), f'top hat {shape} several', 'joint coarsening') and rec.expect(
        a.offset == v.offset and a.bc == v.bc and a.grid == dst, f'top hat {shape} several', f'metadata of variable {i}'))


def unit_spectral(rec, shape, dests):
  src = grids.Grid(shape, domain=((0., 2 * np.pi), (0., 2 * np.pi)))
  nx, ny = shape
  ii, jj = np.meshgrid(np.arange(nx), np.arange(ny), indexing='ij')
  for dshape in dests:
    mx, my = dshape
    if mx * ny != my * nx:
      continue
    dst = grids.Grid(dshape, domain=src.domain)
    fields, wants, strict = [], [], []
    di, dj = np.meshgrid(np.arange(mx), np.arange(my), indexing='ij')
    for kx in range(-(nx // 2), nx // 2 + 1):
      for ky in range(0, ny // 2 + 1):
        for phase in (0., np.pi / 2):
          fields.append(np.cos(2 * np.pi * (kx * ii / nx + ky * jj / ny) + phase))
          coarse = np.cos(2 * np.pi * (kx * di / mx + ky * dj / my) + phase)
          inside = 2 * abs(kx) < mx and 2 * ky < my
          outside = 2 * abs(kx) > mx or 2 * ky > my
          wants.append(coarse * inside)
          # modes exactly on the source or destination Nyquist line are aliased
          strict.append((inside or outside) and 2 * abs(kx) != nx and 2 * ky != ny and 2 * abs(kx) != mx and 2 * ky != my)
    fields, wants, strict = map(np.array, (fields, wants, strict))

    def fn(x):
      h = resize.downsample_spectral(src, dst, jnp.fft.rfftn(x))
      return h, jnp.fft.irfftn(h, dshape)
    key = f'spectral {shape}->{dshape}'
    rec.step(len(fields))
    done, out = rec.attempt(lambda: jax.vmap(fn)(jnp.asarray(fields)), key, 'coarsening')
    if not done:
      continue
    hats, outs = map(np.asarray, out)
    rec.expect(hats.shape[1:] == (mx, my // 2 + 1), key, f'shape {hats.shape}')
    for i in range(len(fields)):
      rec.state(key, i)
      if strict[i]:
        rec.trace(rec.close(outs[i], wants[i], f'{key} mode {i}', 'sampled mode', atol=1e-12, rtol=1e-12))
      else:
        rec.expect(np.all(np.isfinite(outs[i])), f'{key} mode {i}', 'finite')
      rec.outcome(np.round(outs[i], 6))
    # every coefficient is the one of the same wavenumber, whatever the spectrum
    fine = np.zeros((nx, ny // 2 + 1), complex)
    rng = np.random.RandomState(7)
    fine += rng.rand(*fine.shape) + 1j * rng.rand(*fine.shape)
    labels = np.rint(np.fft.fftfreq(mx, 1 / mx)).astype(int)
    own = np.rint(np.fft.fftfreq(nx, 1 / nx)).astype(int).tolist()
    want = np.stack([fine[own.index(k), :my // 2 + 1] for k in labels]) * (mx / nx) ** 2
    rec.state(key, 'coefficients')
    rec.step()
    done, got = rec.attempt(lambda: np.asarray(resize.downsample_spectral(src, dst, jnp.asarray(fine))), key, 'coefficients')
    if done:
      rec.trace(rec.close(got, want, key, 'coefficient of each wavenumber', atol=1e-12))
    # the mean is kept and, with all modes inside, nothing is lost
    x = np.random.RandomState(1).rand(*shape)
    rec.close(np.asarray(fn(jnp.asarray(x))[1]).mean(), x.mean(), key, 'mean')
    if dshape == shape:
      rec.close(np.asarray(fn(jnp.asarray(x))[0]), np.fft.rfftn(x), key, 'identity')
    # velocity of the coarse vorticity is the coarse velocity
    if mx % 2 == 0:
      band = np.array([f for f, s, w in zip(fields, strict, wants) if s and np.any(w)])

      def solve(x):
        h = jnp.fft.rfftn(x)
        fine = spectral_utils.vorticity_to_velocity(src)(h)
        coarse = spectral_utils.vorticity_to_velocity(dst)(resize.downsample_spectral(src, dst, h))
        return [resize.downsample_spectral(src, dst, v) for v in fine], coarse
      if len(band):
        a, b = jax.vmap(solve)(jnp.asarray(band))
        rec.step(len(band))
        rec.state(key, 'velocity')
        rec.trace(all([rec.close(np.asarray(p), np.asarray(q), key, 'velocity of coarse vorticity', atol=1e-11) for p, q in zip(a, b)]))


def units(tier):
  th = tier == 'thorough'
  out = []
  for shape, k in [((6,), 1), ((6,), 2), ((6,), 3), ((8,), 4), ((4, 4), 2), ((4, 6), 2), ((6, 3), 3), ((4, 8), 4), ((6, 6), 6), ((4, 2, 4), 2)] + \
      ([((12, 12), 4), ((9, 6), 3), ((4, 4, 8), 4), ((6, 6, 3), 3), ((8, 6, 4), 2)] if th else []):
    out.append((f'staggered-{shape}-{k}', unit_staggered, dict(shape=shape, factor=k)))
  f1 = [None, 2, 4, 6]
  out.append(('tophat-8', unit_top_hat, dict(shape=(8,), factors=[(2,), (4,), (8,)], filters=f1 + [8], combos_per_axis=[COMBOS])))
  out.append(('tophat-12', unit_top_hat, dict(shape=(12,), factors=[(2,), (4,), (6,)], filters=f1, combos_per_axis=[COMBOS])))
  for i, c in enumerate(COMBOS):
    out.append((f'tophat-4x6-{i}', unit_top_hat, dict(shape=(4, 6), factors=[(2, 2), (1, 2)] + ([(4, 2), (4, 6)] if th else []), filters=[None, (4, 2), (1, 4)] + ([4] if th else []), combos_per_axis=[[c], COMBOS if th else COMBOS[:8:2] + COMBOS[7:8]])))
  if th:
    for i, c in enumerate(COMBOS):
      out.append((f'tophat-4x2x4-{i}', unit_top_hat, dict(shape=(4, 2, 4), factors=[(2, 2, 2)], filters=[None, (4, 2, 2)], combos_per_axis=[[c], COMBOS, COMBOS[::2]])))
  dests = [(12, 12), (10, 10), (9, 9), (8, 8), (7, 7), (6, 6), (5, 5), (4, 4), (3, 3), (2, 2), (6, 4), (3, 2), (4, 6)]
  for shape in [(12, 12), (8, 8), (9, 9), (7, 7), (12, 8), (9, 6), (8, 12)] + ([(16, 16), (15, 15)] if th else []):
    out.append((f'spectral-{shape}', unit_spectral, dict(shape=shape, dests=[d for d in sorted(set(dests + [(1, 1), shape])) if d[0] <= shape[0] and d[1] <= shape[1]])))
  return out
