"""C19: networks are the declared compositions and respect the symmetries.

Feed-forward towers are compared with an independent sequential evaluation in
index arithmetic, for every architecture in the bounds and every translation.
Pre- and post-processing modules and flux correctors are linear in the network
output, so every unit output of every channel decides them.
"""
import functools
import itertools

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
from jax_cfd.base import boundaries
from jax_cfd.base import grids
from jax_cfd.base import interpolation
from jax_cfd.ml import layers
from jax_cfd.ml import networks
from jax_cfd.ml import physics_specifications as specs_lib
from jax_cfd.ml import towers
from mc import lin

PROPERTY = 'C19'
RULE = ('state = (architecture, translation) or (module, unit output); transition = one application of the real network; validated when it equals the sequential '
        'reference, every translation of the input translates the output, and corrections built from fluxes sum to zero')
BOUNDS = ('1-3 dimensions up to 6 cells per axis, 0-3 hidden layers, kernels 1-4, rates 1-2, strides 1-2, all translations; every unit output of every channel; '
          'every word of 4 values over 5 letters for rescaling')
ASSUMPTIONS = ['weights are fixed generic values; networks whose rescaling divides by a zero range are outside the property']


def conv_np(x, w, b, rate, stride):
  """Periodic convolution of the tower layers in index arithmetic."""
  ndim = w.ndim - 2
  k = w.shape[:ndim]
  eff = [a + (rate - 1) * (a - 1) for a in k]
  out = 0.
  for j in itertools.product(*map(range, k)):
    y = x
    for ax in range(ndim):
      m = (x.shape[ax] - 1) // stride + 1
      y = np.take(y, np.arange(m) * stride + rate * j[ax] - eff[ax] // 2, axis=ax, mode='wrap')
    out = out + y @ w[j]
  return out + b


def fill(params):
  """Deterministic generic weights, all different."""
  out, k = {}, 0
  for mod in params:
    out[mod] = {}
    for name in params[mod]:
      k += 1
      out[mod][name] = jnp.asarray(lin.generic(params[mod][name].shape, k) * .5)
  return out


def make(build, *xs):
  f = hk.without_apply_rng(hk.transform(lambda *a: build()(*a)))
  params = f.init(jax.random.PRNGKey(0), *xs)
  return f, fill(params)


def layers_of(params):
  """(w, b) pairs in creation order."""
  return [(np.asarray(p['w']), np.asarray(p['b'])) for p in params.values() if 'w' in p]


def translations(rec, shape, stride, f, params, x, y, key, limit=None):
  ndim = len(shape)
  ok = True
  shifts = [s for s in itertools.product(*[range(0, n, stride) for n in shape]) if any(s)]
  if limit and len(shifts) > limit:
    shifts = shifts[:: len(shifts) // limit] + [shifts[-1]]
  xs = np.stack([np.roll(x, s, tuple(range(ndim))) for s in shifts]) if shifts else np.zeros((0,) + x.shape)
  if not len(xs):
    return ok
  got = np.asarray(jax.jit(jax.vmap(lambda a: f.apply(params, a)))(jnp.asarray(xs)))
  for s, g in zip(shifts, got):
    rec.state(key, s)
    rec.step()
    good = rec.close(g, np.roll(y, [a // stride for a in s], tuple(range(ndim))), f'{key} shift {s}', 'translation')
    rec.trace(bool(good))
    ok &= good
  return ok


NONLIN = {'relu': (jax.nn.relu, lambda x: np.maximum(x, 0)), 'square': (lambda x: x * x, lambda x: x * x)}


def axes_scale(x, axes):
  """Tells its axes apart and mixes over them."""
  total = x
  for i, a in enumerate(sorted(axes)):
    total = total + (.2 + .1 * a) * x.mean(axis=a, keepdims=True)
  return .3 * total


def unit_tower(rec, shape, channels, configs):
  ndim = len(shape)
  x = lin.generic(shape + (channels,), 1)
  for cfg in configs:
    hidden, kernel, okernel, rate, orate, stride, nl, scale, layout = cfg
    sizes, fits = list(shape), True
    for k, r in [(kernel, rate)] * hidden + [(okernel, orate)]:
      fits &= (k + (r - 1) * (k - 1)) // 2 <= min(sizes)
      sizes = [(m - 1) // stride + 1 for m in sizes]
    if not fits:
      continue  # kernel reaches beyond one period: refused by the layers
    key = f'tower {shape} in {channels} hidden {hidden} kernel {kernel} out {okernel} rates {rate},{orate} stride {stride} {nl} {scale} layout {layout}'
    rec.state(key)
    rec.step()
    fj, fn = NONLIN[nl]
    kw = {}
    if scale:
      kw = dict(inputs_scale_fn=axes_scale, output_scale_fn=functools.partial(towers.scale_to_range, min_value=-1.5, max_value=2.))
    conv = towers.periodic_convolution if layout is None else functools.partial(towers.periodic_convolution, tile_layout=layout)
    build = lambda: towers.forward_tower_factory(2, ndim, num_hidden_channels=3, kernel_size=kernel, num_hidden_layers=hidden, rates=rate, strides=stride,
                                                 output_kernel_size=okernel, output_dilation_rate=orate, output_stride=stride, conv_module=conv, nonlinearity=fj, **kw)
    done, fp = rec.attempt(lambda: make(build, jnp.asarray(x)), key, 'construction')
    if not done:
      continue
    f, params = fp
    ws = layers_of(params)
    want_shapes = [(kernel,) * ndim + ((channels if i == 0 else 3), 3) for i in range(hidden)] + [(okernel,) * ndim + ((3 if hidden else channels), 2)]
    if not rec.expect([w.shape for w, _ in ws] == want_shapes, key, f'weights {[w.shape for w, _ in ws]}, expected {want_shapes}'):
      continue
    y = axes_scale(x, range(ndim)) if scale else x
    for w, b in ws[:-1]:
      y = fn(conv_np(y, w, b, rate, stride))
    y = conv_np(y, *ws[-1], orate, stride)
    if scale:
      lo, hi = y.min(axis=tuple(range(ndim)), keepdims=True), y.max(axis=tuple(range(ndim)), keepdims=True)
      if np.any(hi - lo < 1e-9):
        continue
      y = (y - lo) / (hi - lo) * 3.5 - 1.5
    got = np.asarray(f.apply(params, jnp.asarray(x)))
    ok = rec.close(got, y, key, 'tower')
    total = stride ** (hidden + 1)
    if all(n % total == 0 for n in shape):
      ok &= translations(rec, shape, total, f, params, x, y, key, 8)
    rec.trace(bool(ok))
    rec.outcome(got)


def unit_flex(rec):
  """Every layer takes its own channels, kernel, rate and stride."""
  shape = (6, 4)
  x = lin.generic(shape + (2,), 2)
  for channels, kernels, rates, strides in [((2, 3), ((1, 3), (3, 2)), (1, 2), (1, 1)), ((3, 1, 2), ((2, 2), (1, 1), (3, 3)), (1, 1, 1), (2, 1, 1)), ((4,), ((3, 1),), (2,), (1,)), ((), (), (), ())]:
    for orate, ostride in ((1, 1), (2, 1), (1, 2)):
      key = f'flex {channels} {kernels} {rates} {strides} {orate} {ostride}'
      rec.state(key)
      rec.step()
      build = lambda: towers.forward_flex_tower_factory(3, 2, channels=channels, kernel_shapes=kernels, rates=rates, strides=strides, output_kernel_shape=(2, 3),
                                                        output_rate=orate, output_stride=ostride, nonlinearity=jnp.square)
      done, fp = rec.attempt(lambda: make(build, jnp.asarray(x)), key, 'construction')
      if not done:
        continue
      f, params = fp
      y = x
      ws = layers_of(params)
      rec.expect(len(ws) == len(channels) + 1, key, f'{len(ws)} layers')
      for (w, b), r, s in zip(ws, rates, strides):
        y = conv_np(y, w, b, r, s) ** 2
      y = conv_np(y, *ws[-1], orate, ostride)
      rec.trace(rec.close(np.asarray(f.apply(params, jnp.asarray(x))), y, key, 'tower'))
  for bad in [dict(channels=(2, 3), kernel_shapes=((1, 1),)), dict(channels=(2, 2), rates=(1,)), dict(channels=(2, 2), strides=(1, 1, 1)), dict(channels=(2,))]:
    rec.state('flex refusal', str(bad))
    rec.trace(rec.raises(lambda: make(lambda: towers.forward_flex_tower_factory(1, 2, **bad), jnp.asarray(x)), f'flex refusal {bad}', 'conflicting lengths', (ValueError,)))
  # transposed convolutions undo strides
  for up in (2, 3):
    key = f'transpose tower {up}'
    build = lambda: towers.forward_tower_factory(2, 2, num_hidden_channels=3, num_hidden_layers=0, output_kernel_size=3, output_stride=up,
                                                 conv_module=towers.periodic_transpose_convolution)
    rec.state(key)
    rec.step()
    done, fp = rec.attempt(lambda: make(build, jnp.asarray(x)), key, 'construction')
    if done:
      y = np.asarray(fp[0].apply(fp[1], jnp.asarray(x)))
      ok = rec.expect(y.shape == (6 * up, 4 * up, 2), key, f'shape {y.shape}')
      for s in ((1, 0), (0, 1), (3, 2), (5, 3)):
        ok &= rec.close(np.asarray(fp[0].apply(fp[1], jnp.asarray(np.roll(x, s, (0, 1))))), np.roll(y, (s[0] * up, s[1] * up), (0, 1)), key, f'translation {s}')
      rec.trace(bool(ok))


def unit_residual(rec, shape):
  ndim = len(shape)
  for channels, blocks, out in itertools.product((1, 2), (1, 2, 3), (1, 3)):
    for skip in ('identity', 'scaled'):
      key = f'residual {shape} channels {channels} blocks {blocks} out {out} skip {skip}'
      rec.state(key)
      rec.step()
      x = lin.generic(shape + (channels,), 3)
      block = functools.partial(towers.forward_tower_factory, num_hidden_channels=2, num_hidden_layers=1, nonlinearity=jnp.square)
      skip_fn = (lambda a, i: a) if skip == 'identity' else (lambda a, i: a * (i + 2.))
      build = lambda: towers.residual_block_tower_factory(out, ndim, num_blocks=blocks, block_factory=block, skip_connection_fn=skip_fn,
                                                          inputs_scale_fn=axes_scale, output_scale_fn=lambda a, axes: a * (1. + len(axes)))
      done, fp = rec.attempt(lambda: make(build, jnp.asarray(x)), key, 'construction')
      if not done:
        continue
      f, params = fp
      ws = layers_of(params)
      if not rec.expect(len(ws) == 2 * blocks, key, f'{len(ws)} convolutions for {blocks} blocks'):
        continue
      y = axes_scale(x, range(ndim))
      for i in range(blocks):
        z = y if i == blocks - 1 else skip_fn(y, i)
        d = conv_np(conv_np(y if skip == 'identity' else y, *ws[2 * i], 1, 1) ** 2, *ws[2 * i + 1], 1, 1)
        y = d if i == blocks - 1 else z + d
      y = y * (1. + ndim)
      got = np.asarray(f.apply(params, jnp.asarray(x)))
      ok = rec.close(got, y, key, 'residual tower')
      ok &= translations(rec, shape, 1, f, params, x, y, key, 6)
      rec.trace(bool(ok))
      rec.outcome(got)
  x = lin.generic(shape + (2,), 4)
  key = f'residual connection {shape}'
  rec.state(key)
  f, params = make(lambda: towers.residual_connection(2, ndim, module_factory=functools.partial(towers.forward_tower_factory, num_hidden_layers=0)), jnp.asarray(x))
  (w, b), = layers_of(params)
  rec.trace(rec.close(np.asarray(f.apply(params, jnp.asarray(x))), x + conv_np(x, w, b, 1, 1), key, 'residual connection'))


def unit_mlp(rec):
  """The shared MLP acts on each cell alone and equally."""
  for shape in ((5,), (3, 4), (2, 3, 2)):
    ndim = len(shape)
    for hidden in (0, 1, 2):
      key = f'mlp {shape} hidden {hidden}'
      rec.state(key)
      rec.step()
      x = lin.generic(shape + (2,), 1)
      build = lambda: towers.MlpTowerFactory(3, ndim, num_hidden_units=4, num_hidden_layers=hidden, nonlinearity=jnp.square, inputs_scale_fn=axes_scale,
                                             output_scale_fn=lambda a, axes: a + len(axes))
      done, fp = rec.attempt(lambda: make(build, jnp.asarray(x)), key, 'construction')
      if not done:
        continue
      f, params = fp
      y = axes_scale(x, range(ndim))
      ws = layers_of(params)
      rec.expect(len(ws) == hidden + 1, key, f'{len(ws)} layers')
      for i, (w, b) in enumerate(ws):
        y = y @ w + b
        if i < hidden:
          y = y ** 2
      y = y + ndim
      ok = rec.close(np.asarray(f.apply(params, jnp.asarray(x))), y, key, 'mlp')
      ok &= translations(rec, shape, 1, f, params, x, y, key)
      rec.trace(bool(ok))


def unit_rescale(rec):
  """Rescaling maps the smallest entry to min and the largest to max."""
  w = lin.words((-3., -.5, 0., 1., 4.), 4)
  for r, axes in itertools.product((.3, 1., -2.), ((0,), (0, 1), [1])):
    rec.state('fixed scale', r, tuple(axes))
    rec.step(len(w))
    got = np.asarray(towers.fixed_scale(jnp.asarray(w.reshape(-1, 2, 2)), axes, rescaled_one=r))
    rec.trace(rec.close(got, r * w.reshape(-1, 2, 2), f'fixed scale {r} axes {axes}', 'one maps to the given value'))
  w = w[w.max(1) > w.min(1)]
  for lo, hi in ((-1., 1.), (0., .25), (2., 5.), (1., -1.)):
    for fn, name in ((layers.rescale_to_range, 'rescale'), (lambda x, a, b, axes: towers.scale_to_range(x, axes, min_value=a, max_value=b), 'scale_to_range')):
      for shape, axes in (((4, 1), (0,)), ((2, 2, 1), (0, 1)), ((1, 4), (1,)), ((2, 2), (-1, -2)), ((4, 1), [0])):
        key = f'{name} [{lo}, {hi}] shape {shape} axes {axes}'
        rec.state(key)
        rec.step(len(w))
        if isinstance(axes, list):
          axes = tuple(axes)
        got = np.asarray(jax.vmap(lambda v: fn(v.reshape(shape), lo, hi, axes).ravel())(jnp.asarray(w)))
        want = lo + (w - w.min(1, keepdims=True)) * (hi - lo) / (w.max(1, keepdims=True) - w.min(1, keepdims=True))
        rec.trace(rec.close(got, want, key, 'rescaled words'))
      # each slice of the remaining axes on its own
      key = f'{name} [{lo}, {hi}] slices'
      rec.state(key)
      pick = w[:: 7]
      x = pick.T.copy()  # (4, words)
      got = np.asarray(fn(jnp.asarray(x), lo, hi, (0,)))
      want = lo + (x - x.min(0)) * (hi - lo) / (x.max(0) - x.min(0))
      rec.trace(rec.close(got, want, key, 'rescaled slices'))
      rec.outcome(got)


class Combo:
  def __init__(self, offsets, bcs):
    self._o, self._b = offsets, bcs

  def combo_offsets(self):
    return self._o

  def combo_boundaries(self):
    return self._b


def field(grid, offsets, bcs, k=0):
  out = []
  for i, (o, bc) in enumerate(zip(offsets, bcs)):
    out.append(bc.impose_bc(grids.GridArray(jnp.asarray(lin.generic(grid.shape, i + k)), o, grid)))
  return tuple(out)


def run(build, *xs):
  f = hk.without_apply_rng(hk.transform(lambda *a: build()(*a)))
  params = f.init(jax.random.PRNGKey(0), *xs)
  return f.apply(params, *xs)


def unit_modules(rec, shape):
  """Stacking, splitting, tower modules and corrector networks."""
  ndim = len(shape)
  n = int(np.prod(shape))
  grid = grids.Grid(shape, domain=tuple((0., m * s) for m, s in zip(shape, (.5, .8, .25))))
  periodic = boundaries.periodic_boundary_conditions(ndim)
  spec = specs_lib.BasePhysicsSpecs(None)
  v = field(grid, grid.cell_faces, [periodic] * ndim)
  stacked = np.stack([np.asarray(u.data) for u in v], -1)
  key = f'stack {shape}'
  rec.state(key)
  rec.step()
  rec.trace(rec.close(np.asarray(run(lambda: networks.stack_aligned_field(grid, .1, spec), v)), stacked, key, 'stack', rtol=0))
  for nb in (1, 2):
    key = f'stack with {nb} neighbors {shape}'
    rec.state(key)
    rec.step()
    got = np.asarray(run(lambda: networks.stack_aligned_field_with_neighbors(grid, .1, spec, n_neighbors=nb), v))
    shifts = [(s, a) for s in range(-nb, nb + 1) if s for a in range(ndim)] + [(0, 0)]
    want = np.concatenate([np.roll(stacked, s, a) for s, a in shifts], -1)
    rec.trace(rec.close(got, want, key, 'neighbors', rtol=0))
  # splitting: every unit output
  eye = np.zeros((n * ndim,) + shape + (ndim,))
  for c in range(ndim):
    eye[c * n:(c + 1) * n, ..., c] = np.eye(n).reshape((n,) + shape)
  center = (.5,) * ndim
  dirichlet = boundaries.dirichlet_boundary_conditions(ndim)
  for name, sp, net, offs, bcs in [
      ('default', spec, None, grid.cell_faces, (periodic,) * ndim), ('from center', spec, (center,) * ndim, grid.cell_faces, (periodic,) * ndim),
      ('combo', Combo((center,) * ndim, (dirichlet,) * ndim), None, (center,) * ndim, (dirichlet,) * ndim),
      ('combo faces', Combo(grid.cell_faces, (periodic,) * ndim), (center,) * ndim, grid.cell_faces, (periodic,) * ndim)]:
    key = f'split {name} {shape}'
    rec.state(key)
    rec.step(len(eye))
    meta = {}

    def fn(x):
      out = run(lambda: networks.split_to_aligned_field(grid, .1, sp, network_offsets=net), x)
      meta['m'] = [(u.offset, u.grid, u.bc) for u in out]
      return tuple(u.data for u in out)
    done, got = rec.attempt(lambda: jax.vmap(fn)(jnp.asarray(eye)), key, 'split')
    if not done:
      continue
    ok = rec.expect(meta['m'] == [(o, grid, b) for o, b in zip(offs, bcs)], key, f'metadata {meta["m"]}')
    for c in range(ndim):
      src = (net or offs)[c]
      want = np.asarray(jax.vmap(lambda x: interpolation.linear(grids.GridVariable(grids.GridArray(x, src, grid), bcs[c]), offs[c]).data)(jnp.asarray(eye[..., c])))
      ok &= rec.close(np.asarray(got[c]), want, key, f'component {c}')
    rec.trace(bool(ok))
  # fluxes: output channel (i, j) is the flux of component j through axis i
  m = ndim * ndim
  eye = np.zeros((n * m,) + shape + (m,))
  for c in range(m):
    eye[c * n:(c + 1) * n, ..., c] = np.eye(n).reshape((n,) + shape)
  key = f'flux {shape}'
  rec.state(key)
  rec.step(len(eye))
  meta = {}

  def flux(x):
    out = run(lambda: networks.aligned_field_from_split_divergence(grid, .1, spec), x)
    meta['m'] = [(u.offset, u.bc) for u in out]
    return tuple(u.data for u in out)
  done, got = rec.attempt(lambda: jax.vmap(flux)(jnp.asarray(eye)), key, 'flux divergence')
  if done:
    ok = rec.expect(meta['m'] == [(o, periodic) for o in grid.cell_faces], key, f'metadata {meta["m"]}')
    for c in range(ndim):
      ok &= rec.close(np.asarray(got[c]).reshape(n * m, -1).sum(1), np.zeros(n * m), key, f'component {c} of the correction changes the total momentum')
      want = 0.
      for ax in range(ndim):
        f = eye[..., c * ndim + ax]
        # flux c*ndim+ax lives half a cell up along ax from component c
        want = want - (f - np.roll(f, 1, ax + 1)) / grid.step[ax]
      ok &= rec.close(np.asarray(got[c]), want, key, f'component {c} is not the negative divergence of its fluxes')
    rec.trace(bool(ok))
    rec.outcome(np.asarray(got[0]))
  # assembled networks with stand-in towers
  seen = []

  def tower(channels, nd, name=None):
    seen.append((channels, nd))
    return lambda x: jnp.tensordot(x * x - x, jnp.asarray(lin.generic((x.shape[-1], channels), 2)), axes=[-1, 0])
  for num in (None, 1, 4):
    key = f'tower_module {shape} {num}'
    rec.state(key)
    rec.step()
    seen.clear()
    pre = networks.stack_aligned_field
    got = np.asarray(run(lambda: networks.tower_module(grid, .1, spec, tower, pre_process_module=pre, num_output_channels=num), v))
    ch = num or ndim
    ok = rec.expect(set(seen) == {(ch, ndim)}, key, f'tower built for {seen}')
    ok &= rec.close(got, (stacked ** 2 - stacked) @ lin.generic((ndim, ch), 2), key, 'tower module')
    rec.trace(bool(ok))
  y = (stacked ** 2 - stacked)
  key = f'velocity corrector {shape}'
  rec.state(key)
  rec.step()
  out = run(lambda: networks.velocity_corrector_network(grid, .1, spec, tower), v)
  want = y @ lin.generic((ndim, ndim), 2)
  ok = rec.expect(len(out) == ndim and all(u.offset == o for u, o in zip(out, grid.cell_faces)), key, 'offsets')
  for c in range(ndim):
    ok &= rec.close(np.asarray(out[c].data), want[..., c], key, f'component {c}')
  rec.trace(bool(ok))
  for pre in (networks.stack_aligned_field, networks.stack_aligned_field_with_neighbors):
    key = f'flux corrector {shape} {pre.__name__}'
    rec.state(key)
    rec.step()
    out = run(lambda: networks.flux_corrector_network(grid, .1, spec, tower, pre_process_module=pre), v)
    ok = rec.expect(len(out) == ndim and all(u.offset == o and u.bc == periodic for u, o in zip(out, grid.cell_faces)), key, 'offsets')
    for c in range(ndim):
      ok &= rec.close(np.asarray(out[c].data).sum(), 0., key, 'momentum of the correction', atol=1e-8)
    if pre is networks.stack_aligned_field:
      fl = y @ lin.generic((ndim, m), 2)
      for c in range(ndim):
        want = -sum((fl[..., c * ndim + ax] - np.roll(fl[..., c * ndim + ax], 1, ax)) / grid.step[ax] for ax in range(ndim))
        ok &= rec.close(np.asarray(out[c].data), want, key, f'component {c}')
    rec.trace(bool(ok))


def unit_boundaries(rec):
  """The corrector for walls interpolates in, applies the tower, interpolates out."""
  shape = (6, 4)
  grid = grids.Grid(shape, domain=((0., 3.), (0., 3.2)))
  for names, make_bc in (('dirichlet', boundaries.dirichlet_boundary_conditions), ('periodic', boundaries.periodic_boundary_conditions),
                         ('channel', boundaries.channel_flow_boundary_conditions)):
    bc = make_bc(2)
    v = field(grid, grid.cell_faces, (bc, bc))
    for net_offsets in (((.5, .5), (.5, .5)), grid.cell_faces):
      for kernel, process in (((1, 1), None), ((3, 3), None), ((3, 1), 'scale')):
        key = f'boundaries {names} {net_offsets} {kernel} {process}'
        rec.state(key)
        rec.step()
        conv = lambda c, nd: towers.mirror_convolution(c, kernel, nd)
        kw = {} if process is None else dict(process_fn=lambda xs: towers.fixed_scale_gridvar(xs, None, rescaled_one=.5))
        def build():
          return networks.velocity_corrector_network_w_boundaries(grid, .1, Combo(grid.cell_faces, (bc, bc)), conv, net_offsets, 2, **kw)
        done, fp = rec.attempt(lambda: make(build, v), key, 'construction')
        if not done:
          continue
        f, params = fp
        out = f.apply(params, v)
        x = v if process is None else tuple(u.bc.impose_bc(u.array * .5) for u in v)
        x = tuple(interpolation.linear(u, o) for u, o in zip(x, net_offsets))
        g = hk.without_apply_rng(hk.transform(lambda *u: layers.MirrorConv2D(2, kernel)(u)))
        gp = g.init(jax.random.PRNGKey(0), *x)
        (mod, _), = gp.items()
        ps = [p for p in params.values() if 'w' in p]
        y = g.apply({mod: ps[0]}, *x)
        ok = rec.expect(len(ps) == 1 and len(out) == 2, key, 'layers')
        for c in range(2):
          want = interpolation.linear(y[c], grid.cell_faces[c])
          ok &= rec.close(np.asarray(out[c].data), np.asarray(want.data), key, f'component {c}')
          ok &= rec.expect(out[c].offset == grid.cell_faces[c] and out[c].bc == want.bc, key, f'metadata of component {c}')
        rec.trace(bool(ok))
        rec.outcome(np.asarray(out[0].data))


def units(tier):
  th = tier == 'thorough'
  out = [('flex', unit_flex, {}), ('mlp', unit_mlp, {}), ('rescale', unit_rescale, {}), ('boundaries', unit_boundaries, {})]
  full = list(itertools.product((0, 1, 2, 3), (1, 2, 3, 4), (1, 3), (1, 2), (1, 2), (1, 2), ('relu', 'square'), (False, True), (None,)))
  full1 = [c for c in full if not (c[0] == 0 and (c[1] != 1 or c[3] != 1 or c[6] != 'relu'))]
  quick = full1[:: 37]
  for ch in (1, 2):
    for i in range(4):
      cs = (full1 if th else full1[::19])[i::4]
      out.append((f'tower1-{ch}-{i}', unit_tower, dict(shape=(12,) if th else (8,), channels=ch, configs=cs)))
  for i in range(4):
    cs = [c for c in (full1[::3] if th else quick)[i::4]]
    out.append((f'tower2-{i}', unit_tower, dict(shape=(8, 8), channels=2, configs=cs)))
  tiled = [(2, 3, 3, 1, 1, 1, 'relu', False, lay) for lay in ((1, 1), (2, 1), (2, 2))] + [(1, 2, 3, 2, 1, 1, 'square', True, (1, 2))]
  out.append(('tower-tiled', unit_tower, dict(shape=(8, 6), channels=2, configs=tiled)))
  out.append(('tower3', unit_tower, dict(shape=(4, 4, 4), channels=1, configs=[(1, 3, 3, 1, 1, 1, 'relu', False, None), (1, 2, 1, 2, 1, 2, 'square', True, None)])))
  for s in ((6,), (4, 5), (3, 2, 3)):
    out.append((f'residual-{s}', unit_residual, dict(shape=s)))
  for s in ((4, 6), (3, 2, 4)) + (((6, 6),) if th else ()):
    out.append((f'modules-{s}', unit_modules, dict(shape=s)))
  return out
