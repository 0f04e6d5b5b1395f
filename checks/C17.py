"""C17: tiled, periodic and mirrored convolutions equal their definition.

Every operator here is bilinear in (kernel, data).  Taking all unit kernels at
once (one output channel per kernel entry and input channel) and data whose
entries are distinct labels, each output value names the one input cell it was
read from, so the whole map is decided, not sampled.
"""
import itertools

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
from jax_cfd.base import boundaries
from jax_cfd.base import grids
from jax_cfd.ml import layers
from jax_cfd.ml import layers_util
from jax_cfd.ml import tiling
from jax_cfd.ml import towers
from mc import lin
from mc import ref_bc

PROPERTY = 'C17'
RULE = ('state = (operator, array shape, tile layout, kernel shape, rate, stride, padding); transition = one application of the real operator; validated '
        'when every label of the output is the one given by index arithmetic on the periodic (mirrored) array')
BOUNDS = ('1-3 dimensions, up to 12 cells per axis, every divisor tile layout, every padding up to (and one beyond) the tile, kernels 1-5 '
          'per axis, rates 1-3, strides 1-3, 1-2 channels')
ASSUMPTIONS = ['hk.Conv*D and hk.Conv*DTranspose of the installed haiku are the base convolutions']


def labels(shape, c=1):
  return np.arange(1, int(np.prod(shape)) * c + 1, dtype=float).reshape(tuple(shape) + (c,))


def divisors(n):
  return [d for d in range(1, n + 1) if n % d == 0]


def window(x, shape, start):
  """x[(start + i) mod n] for i in a box; x has trailing channels."""
  for ax, (n, s) in enumerate(zip(shape, start)):
    x = np.take(x, np.arange(s, s + n), axis=ax, mode='wrap')
  return x


def unit_tiles(rec, shape, th):
  """space_to_batch, batch_to_space and the halo exchange."""
  ndim = len(shape)
  for c in (1, 2):
    x = labels(shape, c)
    for layout in itertools.product(*[divisors(n) for n in shape]):
      tile = tuple(n // t for n, t in zip(shape, layout))
      key = f'tiles {shape} layout {layout} channels {c}'
      rec.state(key)
      want = np.stack([x[tuple(slice(i * m, (i + 1) * m) for i, m in zip(ijk, tile))] for ijk in itertools.product(*map(range, layout))])
      rec.step(2)
      done, got = rec.attempt(lambda: tiling.space_to_batch(jnp.asarray(x), layout), key, 'space_to_batch')
      if not done:
        continue
      ok = rec.close(np.asarray(got), want, key, 'space_to_batch', rtol=0)
      ok &= rec.close(np.asarray(tiling.batch_to_space(jnp.asarray(want), layout)), x, key, 'batch_to_space', rtol=0)
      rec.trace(bool(ok))
      pads = [list(itertools.product(range(m + 1), repeat=2)) for m in tile]
      if ndim > 1:
        pads = [sorted(set([(0, 0), (m, 0), (0, m), (m, m), (min(1, m), min(2, m)), (min(2, m), min(1, m))])) for m in tile]
      if ndim == 2 and not th:
        pads = [sorted(set([(0, 0), (m, 0), (min(1, m), min(2, m)), (0, m)])) for m in tile]
      if ndim == 3:
        pads = [p[:: 2] for p in pads]
      if ndim == 1 and not th:
        pads = [[p for p in pads[0] if max(p) <= 3 or max(p) == tile[0]]]
      for padding in itertools.product(*pads):
        if c == 2 and (ndim == 3 or not th):
          continue
        pkey = f'halo {shape} layout {layout} padding {padding} channels {c}'
        rec.state(pkey)
        rec.step()
        size = tuple(m + a + b for m, (a, b) in zip(tile, padding))
        wantp = np.stack([window(x, size, tuple(i * m - a for i, m, (a, _) in zip(ijk, tile, padding))) for ijk in itertools.product(*map(range, layout))])
        done, gotp = rec.attempt(lambda: tiling.halo_exchange_pad(jnp.asarray(want), layout, padding), pkey, 'halo exchange')
        if done:
          rec.trace(rec.close(np.asarray(gotp), wantp, pkey, 'halo exchange', rtol=0))
          rec.outcome(np.asarray(gotp))
      # more padding than a tile holds cannot be served: never silently wrong
      for ax in range(ndim):
        for side in range(2 if c == 1 else 0):
          padding = [[0, 0] for _ in shape]
          padding[ax][side] = tile[ax] + 1
          pkey = f'halo {shape} layout {layout} padding {padding}'
          rec.state(pkey)
          rec.step()
          try:
            gotp = tiling.halo_exchange_pad(jnp.asarray(want), layout, padding)
          except Exception:  # pylint: disable=broad-except
            rec.trace()
            continue
          size = tuple(m + a + b for m, (a, b) in zip(tile, padding))
          wantp = np.stack([window(x, size, tuple(i * m - a for i, m, (a, _) in zip(ijk, tile, padding))) for ijk in itertools.product(*map(range, layout))])
          rec.trace(rec.close(np.asarray(gotp), wantp, pkey, 'accepted padding wider than a tile but the result is wrong', rtol=0))
  for bad in (tuple(n + 1 for n in shape), (1,) * (ndim + 1)):
    rec.raises(lambda: np.asarray(tiling.space_to_batch(jnp.asarray(x), bad)), f'bad layout {shape} {bad}', 'a layout that does not divide the array')
  rec.raises(lambda: tiling.halo_exchange_pad(jnp.asarray(want), layout, ((0, 0),) * (ndim + 1)), f'bad padding {shape}', 'padding of wrong rank')
  rec.raises(lambda: tiling.halo_exchange_pad(jnp.asarray(want)[:-1], layout, ((0, 0),) * ndim), f'bad tiles {shape}', 'tiles that do not fill the layout')


def conv_ref(x, kernel, rate, stride, lefts, out):
  """One output channel per (kernel entry, input channel)."""
  ndim = len(kernel)
  cols = []
  for j in itertools.product(*map(range, kernel)):
    y = x
    for ax in range(ndim):
      idx = np.arange(out[ax]) * stride + rate * j[ax] - lefts[ax]
      y = np.take(y, idx, axis=ax, mode='wrap')
    cols.append(y)
  # channel order: (kernel entry, input channel)
  return np.concatenate(cols, axis=-1)


def eye_kernel(kernel, c):
  n = int(np.prod(kernel)) * c
  return np.eye(n).reshape(tuple(kernel) + (c, n))


def layouts(shape, limit=None):
  all_ = list(itertools.product(*[divisors(n) for n in shape]))
  if limit and len(all_) > limit:
    # keep the identity, the full split along each axis and some of each kind
    all_ = all_[:: max(1, len(all_) // limit)] + [all_[-1]]
  return all_


def unit_patches(rec, shape, limit):
  """extract_patches, fused_extract_patches and periodic_convolution."""
  ndim = len(shape)
  x = labels(shape)
  sizes = range(1, 6) if ndim == 1 else (range(1, 5) if ndim == 2 else range(1, 4 if limit is None else 3))
  kernels = list(itertools.product(sizes, repeat=ndim))
  kernels = [k for k in kernels if all(a <= n for a, n in zip(k, shape))]
  refs = {k: conv_ref(x, k, 1, 1, tuple((a - 1) // 2 for a in k), shape) for k in kernels}
  for k in kernels:
    key = f'patches roll {shape} {k}'
    rec.state(key)
    rec.step()
    done, got = rec.attempt(lambda: layers_util.extract_patches(jnp.asarray(x), k, 'roll'), key, 'roll')
    if done:
      rec.trace(rec.close(np.asarray(got), refs[k], key, 'patches by rolling', rtol=0))
      rec.outcome(np.asarray(got))
    for layout in [None] + layouts(shape, limit):
      tile = shape if layout is None else tuple(n // t for n, t in zip(shape, layout))
      key = f'patches conv {shape} {k} layout {layout}'
      rec.state(key)
      rec.step(2)
      feasible = all((a // 2) <= m for a, m in zip(k, tile))
      try:
        got = np.asarray(layers_util.extract_patches(jnp.asarray(x), k, 'conv', layout))
      except Exception as e:  # pylint: disable=broad-except
        rec.expect(not feasible, key, f'refused a feasible tiling: {e!r}')
        rec.trace(not feasible)
        continue
      ok = rec.close(got, refs[k], key, 'patches by convolution', rtol=0)
      if len(k) == ndim and feasible:
        got2 = np.asarray(layers_util.periodic_convolution(jnp.asarray(np.concatenate([x, -2 * x], -1)), jnp.asarray(eye_kernel(k, 2)), layout))
        inter = np.stack([refs[k], -2 * refs[k]], -1).reshape(tuple(shape) + (-1,))
        ok &= rec.close(got2, inter, key, 'periodic convolution', rtol=0)
      rec.trace(bool(ok))
  # joint extraction of several patches of one shape (possibly repeated)
  for k in kernels[:: max(1, len(kernels) // 6)]:
    for count in (1, 2, 3):
      for layout in (None,) + tuple(layouts(shape, 2)[:2]):
        tile = shape if layout is None else tuple(n // t for n, t in zip(shape, layout))
        if not all((a // 2) <= m for a, m in zip(k, tile)):
          continue
        key = f'fused patches {shape} {k} x{count} {layout}'
        rec.state(key)
        rec.step()
        done, got = rec.attempt(lambda: layers_util.fused_extract_patches(jnp.asarray(x), [k] * count, layout), key, 'fused')
        if done:
          rec.trace(rec.close(np.asarray(got), np.concatenate([refs[k]] * count, -1), key, 'fused patches', rtol=0))
  rec.raises(lambda: layers_util.extract_patches(jnp.asarray(x), (1,) * ndim, 'other'), f'method {shape}', 'unknown method')


def conv_of(ndim, transpose=False):
  return (towers.periodic_transpose_convolution if transpose else towers.periodic_convolution)


def apply_conv(build, x, kernel, bias):
  f = hk.without_apply_rng(hk.transform(lambda y: build()(y)))
  params = f.init(jax.random.PRNGKey(0), jnp.asarray(x))
  (mod, ps), = params.items()
  w = eye_kernel(kernel, x.shape[-1]) if ps['w'].shape[-2] == x.shape[-1] and ps['w'].shape[-1] == int(np.prod(kernel)) * x.shape[-1] else None
  if w is None:
    raise AssertionError(f'unexpected kernel shape {ps["w"].shape}')
  new = {mod: dict(w=jnp.asarray(w), **({'b': jnp.asarray(bias)} if 'b' in ps else {}))}
  return np.asarray(f.apply(new, jnp.asarray(x)))


def unit_periodic_conv(rec, shape, kernels, channels, limit):
  """PeriodicConv modules: every kernel, rate, stride and tiling."""
  ndim = len(shape)
  x = labels(shape, channels)
  for k in kernels:
    for rate, stride in [(1, 1), (2, 1), (3, 1), (1, 2), (1, 3)]:
      eff = tuple(a + (rate - 1) * (a - 1) for a in k)
      lefts = tuple(e // 2 for e in eff)
      out = tuple((n - 1) // stride + 1 for n in shape)
      want = conv_ref(x, k, rate, stride, lefts, out)
      bias = np.arange(want.shape[-1]) * .5
      for layout in [None] + layouts(shape, limit):
        tile = shape if layout is None else tuple(n // t for n, t in zip(shape, layout))
        if stride > 1 and any(m % stride and m != n for m, n in zip(tile, shape)):
          continue  # strides are defined per tile
        key = f'conv {shape} kernel {k} rate {rate} stride {stride} layout {layout} channels {channels}'
        rec.state(key)
        rec.step()
        feasible = all(max(e // 2, e - e // 2 - 1) <= m for e, m in zip(eff, tile))
        kw = {} if layout is None else dict(tile_layout=layout)
        try:
          got = apply_conv(lambda: towers.periodic_convolution(want.shape[-1], k, ndim, rate=rate, stride=stride, **kw), x, k, bias)
        except Exception as e:  # pylint: disable=broad-except
          rec.expect(not feasible, key, f'refused: {e!r}')
          rec.trace(not feasible)
          continue
        rec.trace(rec.close(got, want + bias, key, 'periodic convolution', rtol=0))
        rec.outcome(got)


def unit_transpose(rec, shape, kernels, channels):
  """PeriodicConvTranspose modules."""
  ndim = len(shape)
  x = labels(shape, channels)
  base = {1: hk.Conv1DTranspose, 2: hk.Conv2DTranspose, 3: hk.Conv3DTranspose}[ndim]
  for k in kernels:
    n_out = int(np.prod(k)) * channels
    for stride in (1, 2, 3):
      key = f'transpose {shape} kernel {k} stride {stride} channels {channels}'
      rec.state(key)
      rec.step()
      # response of the plain transposed convolution to one cell
      resp = apply_conv_t(lambda: base(n_out, kernel_shape=k, stride=stride, padding='VALID', with_bias=False), k, channels, n_out)
      want = np.zeros(tuple(stride * n for n in shape) + (n_out,))
      for i in itertools.product(*map(range, shape)):
        contrib = np.tensordot(x[i], resp, axes=[0, 0])  # (window..., n_out)
        for j in itertools.product(*[range(s) for s in resp.shape[1:-1]]):
          at = tuple((stride * a + b - (kk - 1) // 2) % (stride * n) for a, b, kk, n in zip(i, j, k, shape))
          want[at] += contrib[j]
      feasible = all(kk // stride + 1 <= n for kk, n in zip(k, shape))
      try:
        f = hk.without_apply_rng(hk.transform(lambda y: towers.periodic_transpose_convolution(n_out, k, ndim, stride=stride)(y)))
        params = f.init(jax.random.PRNGKey(0), jnp.asarray(x))
        (mod, ps), = params.items()
        w = np.moveaxis(eye_kernel(k, channels), -1, -2)
        bias = np.arange(n_out) * .5
        got = np.asarray(f.apply({mod: dict(w=jnp.asarray(w), b=jnp.asarray(bias))}, jnp.asarray(x)))
      except Exception as e:  # pylint: disable=broad-except
        rec.expect(not feasible, key, f'refused: {e!r}')
        rec.trace(not feasible)
        continue
      rec.trace(rec.close(got, want + bias, key, 'periodic transposed convolution', rtol=0))
      rec.outcome(got)
  k = kernels[0]
  rec.raises(lambda: apply_conv(lambda: towers.periodic_transpose_convolution(1, k, ndim, tile_layout=(1,) * ndim), x, k, 0.), f'transpose tile {shape}', 'tile layout')
  rec.raises(lambda: apply_conv(lambda: towers.periodic_transpose_convolution(1, k, ndim, rate=2), x, k, 0.), f'transpose rate {shape}', 'dilation')


def apply_conv_t(build, k, channels, n_out):
  w = np.moveaxis(eye_kernel(k, channels), -1, -2)
  cells = np.eye(channels).reshape((channels,) + (1,) * len(k) + (channels,))
  f = hk.without_apply_rng(hk.transform(lambda y: build()(y)))
  params = f.init(jax.random.PRNGKey(0), jnp.asarray(cells[0]))
  (mod, _), = params.items()
  return np.stack([np.asarray(f.apply({mod: dict(w=jnp.asarray(w))}, jnp.asarray(c))) for c in cells])


BCS = {'periodic': (('periodic', 'periodic'), (0., 0.)), 'dirichlet': (('dirichlet', 'dirichlet'), (0., 0.)), 'neumann': (('neumann', 'neumann'), (0., 0.)),
       'dirichlet values': (('dirichlet', 'dirichlet'), (1.5, -.5)), 'mixed': (('dirichlet', 'neumann'), (.5, 2.))}


def unit_mirror(rec, shape, comps, th):
  """MirrorConv2D: every kernel entry, every boundary condition, per component."""
  steps = (.5, .8)
  grid = grids.Grid(shape, domain=tuple((0., n * s) for n, s in zip(shape, steps)))
  n_in = len(comps)
  parts = []
  for names, offset in comps:
    types = tuple(BCS[b][0] for b in names)
    if not all(ref_bc.compatible(t[0], t[1], o) for t, o in zip(types, offset)):
      return
    parts.append((types, tuple(BCS[b][1] for b in names), offset))

  def fix(a, types, vals, offset):
    for ax in range(2):
      if types[ax][0] == 'dirichlet' and offset[ax] in (0., 1.):
        idx = [slice(None)] * 2
        idx[ax] = 0 if offset[ax] == 0. else -1
        a[tuple(idx)] = vals[ax][0 if offset[ax] == 0. else 1]
    return a
  fields, raw, metas = [], [], []
  for c, (types, vals, offset) in enumerate(parts):
    bc = boundaries.ConstantBoundaryConditions(types, vals)
    a = fix(lin.generic(shape, c).copy(), types, vals, offset)
    raw.append(a)
    fields.append(grids.GridVariable(grids.GridArray(jnp.asarray(a), offset, grid), bc))
    metas.append((offset, grid, bc))
  pairs = list(itertools.product([(1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (2, 2), (3, 3), (3, 2), (5, 3), (2, 4)], (1, 2)))
  if not th:
    pairs = [((1, 1), 1), ((1, 2), 1), ((3, 3), 1), ((5, 2), 1), ((2, 3), 2)]
  for k, rate in pairs:
    if True:
      key = f'mirror {shape} {comps} kernel {k} rate {rate}'
      eff = tuple(a + (rate - 1) * (a - 1) for a in k)
      lefts = tuple(e // 2 for e in eff)
      rights = tuple(e - l - 1 for e, l in zip(eff, lefts))
      try:
        mats = []
        for types, vals, offset in parts:
          mats.append([])
          for ax in range(2):
            line = ref_bc.Line(shape[ax], offset[ax], *types[ax], *vals[ax], steps[ax], 'mirror')
            rows = [line.matrix_row(i) for i in range(-lefts[ax], shape[ax] + rights[ax])]
            mats[-1].append((np.array([r for r, _ in rows]), np.array([c for _, c in rows])))
      except ValueError:
        continue
      if max(max(l, r) for l, r in zip(lefts, rights)) > min(shape) - 1:
        continue
      rec.state(key)
      padded = []
      for a, m in zip(raw, mats):
        p = m[0][0] @ a + m[0][1][:, None]
        p = p @ m[1][0].T + m[1][1][None, :]
        padded.append(p)
      f = hk.without_apply_rng(hk.transform(lambda *u: layers.MirrorConv2D(n_in, k, rate=rate, with_bias=False)(u)))
      params = f.init(jax.random.PRNGKey(0), *fields)
      (mod, ps), = params.items()
      n_w = int(np.prod(ps['w'].shape))
      rec.expect(ps['w'].shape == k + (n_in, n_in), key, f'kernel shape {ps["w"].shape}')
      ws = np.eye(n_w).reshape((n_w,) + ps['w'].shape)
      rec.step(n_w)
      done, got = rec.attempt(lambda: jax.jit(jax.vmap(lambda w: f.apply({mod: {'w': w}}, *fields)))(jnp.asarray(ws)), key, 'mirror convolution')
      if not done:
        continue
      want = []
      for o in range(n_in):
        rows = []
        for w in ws:
          y = np.zeros(shape)
          for i, j, c in itertools.product(range(k[0]), range(k[1]), range(n_in)):
            if w[i, j, c, o]:
              y = y + w[i, j, c, o] * padded[c][rate * i:rate * i + shape[0], rate * j:rate * j + shape[1]]
          y = fix(y, *parts[o])
          rows.append(y)
        want.append(np.stack(rows))
      ok = all([rec.close(np.asarray(g.data), w, key, f'output {i}') for i, (g, w) in enumerate(zip(got, want))])
      ok &= rec.expect([(g.offset, g.grid, g.bc) for g in got] == metas, key, 'metadata of the outputs')
      rec.trace(ok)
      rec.outcome(np.asarray(got[0].data))


def unit_misc(rec, th):
  """NonPeriodicConv1D and applying any function under tiling."""
  for n, k, rate in itertools.product((5, 6, 9), (1, 2, 3, 4), (1, 2)):
    eff = k + (rate - 1) * (k - 1)
    if eff > n:
      continue
    for c in (1, 2):
      x = labels((n,), c)
      key = f'nonperiodic {n} kernel {k} rate {rate} channels {c}'
      rec.state(key)
      rec.step()
      got = apply_conv(lambda: layers.NonPeriodicConv1D(k * c, (k,), rate=rate), x, (k,), np.zeros(k * c))
      want = np.concatenate([x[rate * j:n - eff + 1 + rate * j] for j in range(k)], -1)
      rec.trace(rec.close(got, want, key, 'valid convolution', rtol=0))
  # a nonlinear window function gives the same answer under every layout
  def fn(pad):
    def g(x):  # neighbours at -pad[0] .. +pad[1] along x, and along y
      (a, b), (c, d) = pad
      nx, ny = x.shape[1] - a - b, x.shape[2] - c - d
      acc = 0.
      for i in range(a + b + 1):
        for j in range(c + d + 1):
          acc = acc * 1.25 + (i + 2 * j + 1) * x[:, i:i + nx, j:j + ny]
      return acc * x[:, a:a + nx, c:c + ny]
    return g
  x = lin.generic((6, 4, 2))
  for pad in itertools.product([(0, 0), (1, 0), (0, 1), (1, 1), (2, 1)] if th else [(0, 0), (1, 0), (1, 2)], repeat=2):
    (a, b), (c, d) = pad
    big = window(x, (6 + a + b, 4 + c + d), (-a, -c))
    want = np.asarray(fn(pad)(jnp.asarray(big)[None]))[0]
    for layout in [None] + layouts((6, 4), None if th else 4):
      tile = (6, 4) if layout is None else (6 // layout[0], 4 // layout[1])
      if max(a, b) > tile[0] or max(c, d) > tile[1]:
        continue
      key = f'apply_convolution pad {pad} layout {layout}'
      rec.state(key)
      rec.step()
      done, got = rec.attempt(lambda: tiling.apply_convolution(fn(pad), jnp.asarray(x), layout, pad), key, 'apply')
      if done:
        rec.trace(rec.close(np.asarray(got), want, key, 'windowed function'))


def units(tier):
  th = tier == 'thorough'
  out = [('misc', unit_misc, dict(th=th))]
  for s in ((12,), (5,), (6, 4), (3, 4), (2, 2, 3)) + (((12, 6), (6, 4, 4)) if th else ()):
    out.append((f'tiles-{s}', unit_tiles, dict(shape=s, th=th)))
  for s, lim in (((12,), None if th else 3), ((5,), None), ((6, 4), None if th else 2), ((4, 3, 6), None) if th else ((4, 3, 4), 1)):
    out.append((f'patches-{s}', unit_patches, dict(shape=s, limit=lim)))
  k2 = [(1, 1), (2, 1), (1, 3), (3, 3), (2, 3), (4, 2)] + ([(5, 5), (3, 4), (4, 4)] if th else [])
  for c in (1, 2):
    out.append((f'conv1-{c}', unit_periodic_conv, dict(shape=(12,), kernels=[(k,) for k in range(1, 6)] if th or c == 1 else [(2,), (3,)], channels=c, limit=None if th else 3)))
    if th or c == 1:
      out.append((f'conv1b-{c}', unit_periodic_conv, dict(shape=(7,), kernels=[(k,) for k in range(1, 8)], channels=c, limit=None)))
    out.append((f'conv2-{c}', unit_periodic_conv, dict(shape=(6, 4), kernels=k2 if th or c == 1 else k2[3:4], channels=c, limit=None if th else 2)))
    out.append((f'transpose1-{c}', unit_transpose, dict(shape=(6,), kernels=[(k,) for k in range(1, 6)], channels=c)))
    out.append((f'transpose2-{c}', unit_transpose, dict(shape=(5, 4), kernels=k2 if th or c == 1 else k2[4:5], channels=c)))
  out.append(('conv3', unit_periodic_conv, dict(shape=(4, 6, 3), kernels=[(2, 3, 1), (3, 2, 2), (3, 3, 3)], channels=1, limit=3 if th else 1)))
  out.append(('transpose3', unit_transpose, dict(shape=(4, 3, 4), kernels=[(1, 1, 1), (2, 3, 1), (3, 2, 2)], channels=1)))
  combos = [('periodic', 'periodic'), ('dirichlet', 'dirichlet'), ('neumann', 'periodic'), ('dirichlet values', 'neumann'), ('mixed', 'dirichlet values')]
  if th:
    combos = list(itertools.product(BCS, repeat=2))
  for names in combos:
    for offset in [(.5, .5), (1., .5), (.5, 0.)] + ([(0., 1.), (1., 1.)] if th else []):
      out.append((f'mirror-{names}-{offset}', unit_mirror, dict(shape=(6, 7), comps=((names, offset),) * 2, th=th)))
  per, dval, mix = ('periodic', 'periodic'), ('dirichlet values', 'neumann'), ('neumann', 'dirichlet values')
  for comps in [((per, (1., .5)), (per, (.5, 1.))), ((dval, (1., .5)), (mix, (.5, 1.))),
                ((mix, (.5, .5)), (dval, (.5, .5))), ((('dirichlet', 'dirichlet'), (1., .5)), (('dirichlet values', 'mixed'), (.5, .5)))]:
    out.append((f'mirror-{comps}', unit_mirror, dict(shape=(6, 7), comps=comps, th=th)))
  return out
