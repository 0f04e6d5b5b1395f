"""C18: learned stencils keep their polynomial accuracy for every network output.

The constraint is affine in the logits, and the derivative is affine in the
logits and linear in the field: zero and every unit logit against every unit
field (and every monomial of the guaranteed degree) decide it.
"""
import collections
import itertools
import math

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
from jax_cfd.base import boundaries
from jax_cfd.base import grids
from jax_cfd.base import interpolation as base_interpolation
from jax_cfd.ml import advections
from jax_cfd.ml import interpolations
from jax_cfd.ml import layers
from jax_cfd.ml import layers_util
from mc import lin

PROPERTY = 'C18'
RULE = ('state = (stencil, derivative orders, accuracy, method, logit) or (source offset, target offset, layout, cell); transition = one evaluation of the real '
        'coefficients or derivative; validated when every monomial of the guaranteed degree is differentiated exactly and every cell reads the named neighbours')
BOUNDS = ('stencils of 1-6 cells (2-d up to 4x4, 3-d up to 2x3x2), shifts 0, 1/4, 1/2, orders 0-3, accuracies 1-4, both methods, every unit logit; derivatives on '
          'grids up to 6x8 for every pair of offsets in {0, 1/2, 1, 3/2}; every fusing, tiling and extraction option')
ASSUMPTIONS = ['grid steps are equal in all directions, as the layers require']
FD = layers_util.Method.FINITE_DIFFERENCE
FV = layers_util.Method.FINITE_VOLUME


def monomial(stencil, p, method, step):
  """Values seen by the stencil for x**p."""
  s = np.asarray(stencil, dtype=float)
  if method is FD:
    return s ** p
  return ((s + step / 2) ** (p + 1) - (s - step / 2) ** (p + 1)) / ((p + 1) * step)


def degrees(total, ndim):
  return [e for e in itertools.product(range(total + 1), repeat=ndim) if sum(e) <= total]


def check_exact(rec, key, coef, stencils, orders, accuracy, method, step):
  """coef (..., size) differentiates all monomials of the guaranteed degree."""
  total = accuracy + sum(orders) - 1
  ok = True
  for e in degrees(total, len(stencils)):
    vals = np.ones(())
    for s, p in zip(stencils, e):
      vals = np.multiply.outer(vals, monomial(s, p, method, step))
    want = float(np.prod([math.factorial(p) if p == o else 0. for p, o in zip(e, orders)]))
    got = np.asarray(coef) @ vals.ravel()
    scale = 1 + np.abs(coef).max() * np.abs(vals).sum()
    if not np.all(np.abs(got - want) <= 1e-8 * scale):
      ok = rec.expect(False, key, f'monomial {e}: derivative {np.asarray(got).ravel()[:4]} instead of {want}')
      break
  return ok


def rank_of_constraints(stencils, orders, accuracy, method, step):
  rows = []
  for e in degrees(accuracy + sum(orders) - 1, len(stencils)):
    vals = np.ones(())
    for s, p in zip(stencils, e):
      vals = np.multiply.outer(vals, monomial(s, p, method, step))
    rows.append(vals.ravel())
  distinct = len({tuple(np.round(r, 12)) for r in rows})
  return np.linalg.matrix_rank(np.array(rows), tol=1e-9), distinct


def unit_constraint(rec, sizes, steps, shifts):
  ndim = len(sizes)
  max_order = 3 if ndim == 1 else (2 if ndim == 2 else 1)
  for step in steps:
    for shift in itertools.product(shifts, repeat=ndim):
      stencils = layers_util.get_stencils(sizes, shift, (step,) * ndim)
      key = f'stencils {sizes} shift {shift} step {step}'
      rec.state(key)
      ok = rec.expect(len(stencils) == ndim, key, f'{len(stencils)} stencils')
      for n, o, s in zip(sizes, shift, stencils):
        ok &= rec.close(s, (np.arange(n) - (n - 1) // 2 - o) * step, key, 'stencil positions')
      rec.trace(bool(ok))
      for orders in itertools.product(range(max_order + 1), repeat=ndim):
        if any(o >= n for o, n in zip(orders, sizes)) or sum(orders) > 3:
          continue
        for method in (FD, FV):
          for accuracy in (None, 1, 2, 3, 4):
            key = f'coefficients {sizes} shift {shift} step {step} orders {orders} {method.name} accuracy {accuracy}'
            rec.state(key)
            rec.step()
            fits = accuracy is None or all(n - o >= accuracy for n, o in zip(sizes, orders))
            try:
              coef = layers_util.polynomial_accuracy_coefficients(stencils, method, orders, accuracy, step)
            except ValueError as e:
              rec.expect(not fits, key, f'refused although the stencil is large enough: {e}')
              rec.trace(not fits)
              continue
            ok = rec.expect(coef.shape == tuple(sizes), key, f'shape {coef.shape}')
            acc = accuracy if accuracy is not None else min(n - o for n, o in zip(sizes, orders))
            ok = ok and check_exact(rec, key, coef.reshape(1, -1), stencils, orders, acc, method, step)
            rec.trace(bool(ok))
            rec.outcome(coef)
          for accuracy in (1, 2, 3):
            key = f'constraint {sizes} shift {shift} step {step} orders {orders} {method.name} accuracy {accuracy}'
            rec.state(key)
            rank, rows = rank_of_constraints(stencils, orders, accuracy, method, step)
            size = int(np.prod(sizes))
            try:
              layer = layers.PolynomialConstraint(stencils, orders, method, (step,) * ndim, accuracy_order=accuracy, bias_accuracy_order=accuracy)
            except (ValueError, np.linalg.LinAlgError):
              fits = all(n - o >= accuracy for n, o in zip(sizes, orders)) and rows < size
              rec.expect(not fits, key, 'refused although valid stencils with free parameters exist')
              rec.trace(not fits)
              continue
            k = layer.subspace_size
            ok = rec.expect(0 < k <= size - rank and (k == size - rank or rows > rank), key, f'{k} free parameters, expected {size - rank}')
            logits = np.concatenate([np.zeros((1, k)), np.eye(k), -3 * np.eye(k), lin.generic((2, k))])
            rec.step(len(logits))
            coefs = np.asarray(layer(jnp.asarray(logits)))
            ok &= rec.expect(coefs.shape == (len(logits), size), key, f'coefficients {coefs.shape}')
            ok = ok and check_exact(rec, key, coefs, stencils, orders, accuracy, method, step)
            ok &= rec.close(coefs[0], layers_util.polynomial_accuracy_coefficients(stencils, method, orders, accuracy, step).ravel(), key, 'zero logits give the standard stencil')
            span = coefs[1:k + 1] - coefs[:1]
            ok &= rec.expect(np.linalg.matrix_rank(span, tol=1e-9) == k, key, 'logits do not span all valid stencils')
            # whatever the grid spacing, unit logits weigh like unit changes of a derivative of unit steps
            ok &= rec.close(span @ span.T * step ** (2 * sum(orders)), np.eye(k), key, 'directions of the logits, in units of the grid step')
            ok &= rec.close(coefs[k + 1:2 * k + 1] - coefs[:1], -3 * span, key, 'not affine in the logits')
            rec.trace(bool(ok))
            rec.outcome(coefs[:2])


def unit_constraint_errors(rec):
  st = layers_util.get_stencils((3, 3), (0., .5), (1., 1.))
  raises = [
      ('nonuniform', lambda: layers.PolynomialConstraint(st, (0, 0), FV, (1., 2.))),
      ('bad bias', lambda: layers.PolynomialConstraint(st, (0, 0), FV, (1., 1.), bias=np.ones(9))),
      ('unique', lambda: layers.PolynomialConstraint(layers_util.get_stencils((2,), (.5,), (1.,)), (0,), FD, (1.,), accuracy_order=2, bias_accuracy_order=2)),
      ('lengths', lambda: layers_util.polynomial_accuracy_constraints(st, FD, (0,), 1)),
      ('accuracy', lambda: layers_util.polynomial_accuracy_constraints(st, FD, (0, 0), 0)),
      ('no step', lambda: layers_util.polynomial_accuracy_constraints(st, FV, (0, 0), 1)),
      ('logits', lambda: layers.SpatialDerivativeFromLogits((2, 2), (1., .5), (1.5, .5), (0, 0), (1., 1.))(jnp.zeros((4, 4, 1)), jnp.zeros((4, 4, 9)))),
  ]
  for name, fn in raises:
    rec.state('refusal', name)
    rec.step()
    rec.trace(rec.raises(fn, f'refusal {name}', name))
  for bias in (np.array([0., 1., 0.]), np.array([.25, .5, .25]), np.array([1., 0., 0.])):
    layer = layers.PolynomialConstraint(layers_util.get_stencils((3,), (0.,), (.5,)), (0,), FV, (.5,), bias=bias)
    key = f'bias {bias}'
    rec.state(key)
    rec.step()
    rec.trace(rec.close(np.asarray(layer(jnp.zeros((layer.subspace_size,)))), bias, key, 'zero logits give the bias'))


OFFS = (0., .5, 1., 1.5)


def gather(x, sizes, roll):
  """Patches of the rolled field: neighbours in row-major order."""
  cols = []
  ranges = [range(-((s - 1) // 2), s - (s - 1) // 2) for s in sizes]
  for js in itertools.product(*ranges):
    y = x
    for ax, (j, r) in enumerate(zip(js, roll)):
      y = np.roll(y, r - j, axis=ax)
    cols.append(y)
  return np.stack(cols, -1)


def unit_derivative(rec, shape, sizes, orders, methods, layouts, offsets, step=.5):
  """SpatialDerivativeFromLogits and SpatialDerivative place their stencils."""
  ndim = len(shape)
  n = int(np.prod(shape))
  eye = np.eye(n).reshape((n,) + shape + (1,))
  for src, dst in offsets:
    delta = tuple(b - a for a, b in zip(src, dst))
    roll = tuple(-math.floor(d) for d in delta)
    shift = tuple(d + r for d, r in zip(delta, roll))
    key0 = f'roll {src}->{dst}'
    rec.state(key0)
    rec.step()
    rec.trace(rec.expect(layers_util.get_roll_and_shift(src, dst) == (roll, shift), key0, f'{layers_util.get_roll_and_shift(src, dst)} != {(roll, shift)}'))
    stencils = layers_util.get_stencils(sizes, shift, (step,) * ndim)
    try:
      constraint = layers.PolynomialConstraint(stencils, orders, FV, (step,) * ndim)
    except ValueError:
      continue
    k = constraint.subspace_size
    # logits: zero everywhere, every unit everywhere, and a different one at each cell
    generic = lin.generic(shape + (k,))
    all_logits = [np.zeros(shape + (k,))] + [np.broadcast_to(u, shape + (k,)) for u in np.eye(k)[:: max(1, k // 3)]] + [generic]
    patches = gather(np.moveaxis(eye[..., 0], 0, -1), sizes, roll)  # shape + (n, stencil)
    for method in methods:
      for layout in (layouts if method == 'conv' else [None]):
        layer = layers.SpatialDerivativeFromLogits(sizes, src, dst, orders, (step,) * ndim, extract_patch_method=method, tile_layout=layout)
        for i, lg in enumerate(all_logits):
          key = f'derivative {shape} {sizes} orders {orders} {src}->{dst} {method} {layout} logits {i}'
          rec.state(key)
          rec.step(n)
          done, got = rec.attempt(lambda: jax.jit(jax.vmap(lambda x: layer(x, jnp.asarray(lg))))(jnp.asarray(eye)), key, 'derivative')
          if not done:
            continue
          coef = np.asarray(constraint(jnp.asarray(lg)))
          want = np.moveaxis(np.einsum('...ns,...s->...n', patches, coef), -1, 0)[..., None]
          rec.trace(rec.close(np.asarray(got), want, key, 'derivative of every unit field'))
          rec.outcome(np.asarray(got[0]))
        # a learned derivative whose tower sees the rolled inputs
        if layout is None or layout == layouts[-1]:
          key = f'learned {shape} {sizes} orders {orders} {src}->{dst} {method} {layout}'
          rec.state(key)
          rec.step(2)
          x, aux = lin.generic(shape + (1,)), lin.generic(shape + (2,), 1)
          weights = lin.generic((3, k), 2)
          factory = lambda c: (lambda y: jnp.tensordot(y * y - y, jnp.asarray(weights), axes=[-1, 0]))
          d = layers.SpatialDerivative(sizes, src, dst, orders, factory, (step,) * ndim, extract_patch_method=method, tile_layout=layout)
          done, got = rec.attempt(lambda: d(jnp.asarray(x), jnp.asarray(aux[..., :1]), jnp.asarray(aux[..., 1:])), key, 'learned derivative')
          if done:
            r = np.concatenate([x, aux], -1)
            for ax, rr in enumerate(roll):
              r = np.roll(r, rr, ax)
            coef = np.asarray(constraint(jnp.asarray((r * r - r) @ weights)))
            want = (gather(x[..., 0], sizes, roll) * coef).sum(-1, keepdims=True)
            rec.trace(rec.close(np.asarray(got), want, key, 'learned derivative'))


def unit_fused(rec, shape, layouts):
  """Joint evaluation of several derivatives equals each on its own."""
  ndim = len(shape)
  step = .5
  x = lin.generic(shape + (1,), 5)
  sets = {
      'interp': [((3, 2), (1., .5), (1., 1.), (0, 0)), ((3, 2), (1., .5), (1.5, .5), (0, 0)), ((3, 2), (.5, 1.), (1., 1.), (0, 0))],
      'derivs': [((3, 3), (.5, .5), (1., .5), (1, 0)), ((3, 3), (.5, .5), (.5, 1.), (0, 1)), ((3, 3), (.5, .5), (.5, .5), (0, 0))],
      'single': [((2, 4), (1., .5), (1., 1.), (0, 0))],
      'mixed': [((2, 2), (1., .5), (1., 1.), (0, 0)), ((4, 2), (1., .5), (1.5, .5), (0, 0)), ((2, 3), (.5, .5), (.5, 1.), (0, 1))],
  }
  for name, members in sets.items():
    for layout in layouts:
      for method in ('roll', 'conv'):
        derivs = collections.OrderedDict()
        for i, (sizes, src, dst, orders) in enumerate(members):
          derivs[i] = layers.SpatialDerivativeFromLogits(sizes, src, dst, orders, (step,) * ndim, extract_patch_method=method, tile_layout=layout)
        ks = [d.subspace_size for d in derivs.values()]
        logits = lin.generic(shape + (sum(ks),), 3)
        parts = np.split(logits, np.cumsum(ks)[:-1], -1)
        want = {}
        for (i, d), (sizes, src, dst, orders), p in zip(derivs.items(), members, parts):
          coef = np.asarray(d.constraint(jnp.asarray(p)))
          want[i] = (gather(x[..., 0], sizes, (0,) * ndim) * coef).sum(-1, keepdims=True)
        for conv, fuse in itertools.product((False, True), repeat=2):
          if fuse and len({m[0] for m in members}) > 1:
            continue  # joint patches are defined for one shape
          key = f'fused {name} layout {layout} {method} constrain_with_conv={conv} fuse_patches={fuse}'
          rec.state(key)
          rec.step(len(members))
          def run():
            fns = layers.fuse_spatial_derivative_layers(derivs, jnp.asarray(logits), constrain_with_conv=conv, fuse_patches=fuse)
            return {i: np.asarray(f(jnp.asarray(x))) for i, f in fns.items()}
          done, got = rec.attempt(run, key, 'fused derivatives')
          if done:
            ok = rec.expect(list(got) == list(want), key, f'keys {list(got)}')
            for i in want:
              ok &= rec.close(got[i], want[i], key, f'derivative {i}')
            rec.trace(bool(ok))
            rec.outcome(got[0])
  rolled = {0: layers.SpatialDerivativeFromLogits((2, 2), (1., .5), (.5, .5), (0, 0), (step,) * 2)}
  rec.raises(lambda: layers.fuse_spatial_derivative_layers(rolled, jnp.zeros(shape + (rolled[0].subspace_size,))), 'fused roll', 'derivative that needs a roll')


def polynomial_tower(channels, ndim, name=None):
  """A fixed pointwise nonlinear 'network': no symmetry, sees all channels."""
  def apply(x):
    w = jnp.asarray(lin.generic((x.shape[-1], channels), channels % 7))
    return jnp.tensordot(x * x + x, w, axes=[-1, 0]) * .7 + jnp.arange(channels) * .1
  return apply


def zero_tower(channels, ndim, name=None):
  return lambda x: jnp.zeros(x.shape[:-1] + (channels,))


def velocity(shape, step=.5, k=0):
  grid = grids.Grid(shape, step=step)
  bc = boundaries.periodic_boundary_conditions(len(shape))
  return grid, tuple(grids.GridVariable(grids.GridArray(jnp.asarray(lin.generic(shape, i + k)), o, grid), bc) for i, o in enumerate(grid.cell_faces))


def unit_interpolation(rec, shape, sizes, options):
  """Learned interpolation: all options agree; conservation for any weights."""
  ndim = len(shape)
  grid, v = velocity(shape)
  dt = .1
  n = int(np.prod(shape))
  for tower_name, tower in (('polynomial', polynomial_tower), ('zero', zero_tower)):
    for size in sizes:
      fn = size if isinstance(size, int) else None
      results = {}
      for opt in options:
        key0 = f'fused interpolation {shape} {tower_name} stencil {size} {opt}'
        kw = dict(opt)
        tags = kw.pop('tags', ('u', 'c'))
        if size == 'anisotropic':
          if kw.get('fuse_patches'):
            continue
          build = lambda: interpolations.anisotropic_learned_interpolation(grid, dt, None, v=v, tags=tags, tower_factory=tower, **kw)
        else:
          build = lambda: interpolations.FusedLearnedInterpolation(grid, dt, None, v=v, tags=tags, stencil_size=fn, tower_factory=tower, **kw)
        rec.state(key0)
        done, interp = rec.attempt(build, key0, 'construction')
        if not done:
          continue
        ok = True
        for j, u in enumerate(v):
          for target in grids.control_volume_offsets(u):
            for tag in tags:
              key = f'{key0} component {j} to {target} tag {tag}'
              rec.state(key)
              rec.step(2)
              done, out = rec.attempt(lambda: interp(u, target, v, dt, tag), key, 'interpolation')
              if not done:
                ok = False
                continue
              ok &= rec.expect(out.offset == target and out.grid == grid and out.bc == u.bc and out.shape == shape, key, f'metadata {out.offset} {out.shape}')
              results.setdefault((j, target, tag), []).append((opt, np.asarray(out.data)))
              first = results[(j, target, tag)][0][1]
              ok &= rec.close(np.asarray(out.data), first, key, 'result depends on how the computation is fused')
              const = u.bc.impose_bc(grids.GridArray(jnp.full(shape, 2.5), u.offset, grid))
              ok &= rec.close(np.asarray(interp(const, target, v, dt, tag).data), np.full(shape, 2.5), key, 'a constant is not preserved')
              if tower_name == 'zero' and size != 3:
                ok &= rec.close(np.asarray(out.data), np.asarray(base_interpolation.linear(u, target).data), key, 'zero network is not linear interpolation')
              rec.outcome(np.asarray(out.data))
          same = interp(u, u.offset, v, dt, tags[0])
          ok &= rec.close(np.asarray(same.data), np.asarray(u.data), key0, 'same offset', rtol=0)
        rec.trace(bool(ok))
        rec.raises(lambda: interp(v[0], (.25,) * ndim, v, dt, tags[0]), key0, 'unknown offset', (KeyError,))
        rec.raises(lambda: interp(v[0], grids.control_volume_offsets(v[0])[0], v, dt, 'other'), key0, 'unknown tag', (KeyError,))
        # advection by learned fluxes conserves momentum, whatever the weights
        if tags == ('u', 'c'):
          key = key0 + ' self-advection'
          rec.state(key)
          rec.step(n)
          module = interpolations.anisotropic_learned_interpolation if size == 'anisotropic' else lambda *a, **k: interpolations.FusedLearnedInterpolation(*a, stencil_size=fn, **k)
          im = lambda g, t, p, v: module(g, t, p, v=v, tags=tags, tower_factory=tower, **kw)
          # the network sees v; momenta transported: every unit field
          adv = advections.modular_self_advection(grid, dt, None, interpolation_module=im, v=v)
          for j, u in enumerate(v):
            f = lambda x: adv(grids.GridVariable(grids.GridArray(x, u.offset, grid), u.bc), v, dt).data
            done, out = rec.attempt(lambda: np.asarray(jax.jit(jax.vmap(f))(jnp.asarray(np.concatenate([lin.impulses(shape), np.ones((1,) + shape)])))), key, 'self advection')
            if done:
              good = rec.close(out.reshape(n + 1, -1).sum(-1), np.zeros(n + 1), key, f'momentum component {j} not conserved', atol=1e-8)
              flux = sum((np.asarray(a.data) - np.roll(np.asarray(a.data), 1, ax)) / .5 for ax, a in enumerate(interp(w, t, v, dt, 'u') for w, t in zip(v, grids.control_volume_offsets(u))))
              good &= rec.close(out[-1], -flux, key, 'advection of a constant')
              want = np.zeros((n,) + shape)
              for ax, (w, t) in enumerate(zip(v, grids.control_volume_offsets(u))):
                face = np.asarray(interp(w, t, v, dt, 'u').data)
                ci = np.asarray(jax.vmap(lambda x: interp(grids.GridVariable(grids.GridArray(x, u.offset, grid), u.bc), t, v, dt, 'c').data)(jnp.asarray(lin.impulses(shape))))
                fl = face * ci
                want -= (fl - np.roll(fl, 1, ax + 1)) / .5
              good &= rec.close(out[:-1], want, key, 'advection is not the divergence of the tagged fluxes')
              rec.trace(bool(good))


def unit_individual(rec, shape):
  """IndividualLearnedInterpolation for any pair of offsets; transformations."""
  ndim = len(shape)
  grid, v = velocity(shape)
  bc = boundaries.periodic_boundary_conditions(ndim)
  for size in (2, 3, 4):
    for src, dst in itertools.product(itertools.product((.5, 1.), repeat=ndim), itertools.product((0., .5, 1., 1.5), repeat=ndim)):
      if size == 2 and any(abs(a - b) > .5 for a, b in zip(src, dst)):
        continue
      key = f'individual {shape} stencil {size} {src}->{dst}'
      rec.state(key)
      rec.step(2)
      c = grids.GridVariable(grids.GridArray(jnp.asarray(lin.generic(shape, 4)), src, grid), bc)
      interp = interpolations.IndividualLearnedInterpolation(grid, .1, None, v, stencil_size=size, tower_factory=zero_tower)
      done, out = rec.attempt(lambda: interp(c, dst, v, .1), key, 'interpolation')
      if not done:
        continue
      ok = rec.expect(out.offset == dst and out.bc == bc and out.shape == shape, key, f'metadata {out.offset} {out.shape}')
      if all(abs(a - b) <= .5 for a, b in zip(src, dst)) and size != 3:
        ok &= rec.close(np.asarray(out.data), np.asarray(base_interpolation.linear(c, dst).data), key, 'zero network is not linear interpolation')
      again = interp(c, dst, v, .1)
      ok &= rec.close(np.asarray(again.data), np.asarray(out.data), key, 'second call', rtol=0)
      learned = interpolations.IndividualLearnedInterpolation(grid, .1, None, v, stencil_size=size, tower_factory=polynomial_tower)
      const = grids.GridVariable(grids.GridArray(jnp.full(shape, -1.5), src, grid), bc)
      ok &= rec.close(np.asarray(learned(const, dst, v, .1).data), np.full(shape, -1.5), key, 'a constant is not preserved')
      # translation equivariance for every shift
      got = np.asarray(learned(c, dst, v, .1).data)
      for s in itertools.product(*[range(m) for m in shape]):
        if sum(1 for x in s if x) > 1:
          continue
        roll = lambda u: grids.GridVariable(grids.GridArray(jnp.roll(u.data, s, tuple(range(ndim))), u.offset, grid), bc)
        ok &= rec.close(np.asarray(learned(roll(c), dst, tuple(map(roll, v)), .1).data), np.roll(got, s, tuple(range(ndim))), key, f'not equivariant under translation by {s}')
        rec.step()
      rec.trace(bool(ok))
      rec.outcome(got)
  # interpolation modules hand over the base interpolations
  c = v[0]
  for name, module, base in (('linear', interpolations.linear, base_interpolation.linear), ('upwind', interpolations.upwind, base_interpolation.upwind),
                             ('lax_wendroff', interpolations.lax_wendroff, base_interpolation.lax_wendroff),
                             ('transformed', interpolations.transformed, base_interpolation.apply_tvd_limiter(base_interpolation.lax_wendroff, base_interpolation.van_leer_limiter))):
    for target in grids.control_volume_offsets(c):
      key = f'module {name} {target}'
      rec.state(key)
      rec.step()
      fn = module(grid, .1, None, v=v)
      tv = tuple(base_interpolation.linear(u, t) for u, t in zip(v, grids.control_volume_offsets(c)))
      rec.trace(rec.close(np.asarray(fn(c, target, tv, .1).data), np.asarray(base(c, target, tv, .1).data), key, 'module', rtol=0))


def units(tier):
  th = tier == 'thorough'
  out = [('errors', unit_constraint_errors, {})]
  for n in range(1, 7):
    out.append((f'constraint1-{n}', unit_constraint, dict(sizes=(n,), steps=(1., .5), shifts=(0., .25, .5))))
  for s in itertools.product(range(1, 5), repeat=2):
    out.append((f'constraint2-{s}', unit_constraint, dict(sizes=s, steps=(.5,) if not th else (1., .5, .1), shifts=(0., .5) if not th else (0., .25, .5))))
  for s in ((2, 2, 2), (2, 3, 2)):
    out.append((f'constraint3-{s}', unit_constraint, dict(sizes=s, steps=(.5,), shifts=(0., .5))))
  pairs2 = [((a, c), (b, d)) for a, b, c, d in itertools.product((.5, 1.), OFFS, (.5, 1.), OFFS)]
  if not th:
    pairs2 = [p for p in pairs2 if p[0] in ((1., .5), (.5, 1.))][:: 2] + [((.5, .5), (.5, .5))]
  pairs1 = [((a,), (b,)) for a, b in itertools.product(OFFS, OFFS)]
  for s, o in (((2,), (0,)), ((3,), (0,)), ((4,), (1,)), ((5,), (2,)), ((4,), (0,))):
    out.append((f'derivative1-{s}-{o}', unit_derivative, dict(shape=(6,), sizes=s, orders=o, methods=('roll', 'conv'), layouts=[None, (2,)] + ([(1,), (3,), (6,)] if th else []), offsets=pairs1 if th else pairs1[::3] + [((1.,), (.5,))])))
  for i, (s, o) in enumerate((((2, 2), (0, 0)), ((4, 4), (0, 0)), ((3, 2), (1, 0)), ((3, 3), (0, 2)))):
    chunks = 4
    for c in range(chunks):
      ps = pairs2[c::chunks]
      if not th and i:
        ps = ps[:: 2]
      out.append((f'derivative2-{s}-{o}-{c}', unit_derivative, dict(shape=(4, 6), sizes=s, orders=o, methods=('roll', 'conv') if i < 2 or th else ('roll',), layouts=[None, (2, 1)] if not th else [None, (1, 1), (2, 1), (2, 3)], offsets=ps)))
  for lay in (None, (1, 1), (2, 1), (2, 3)):
    out.append((f'fused-{lay}', unit_fused, dict(shape=(4, 6), layouts=[lay])))
  opts = [dict(fuse_constraints=f, fuse_patches=p, constrain_with_conv=c, extract_patch_method=m, tile_layout=t)
          for f, p, c, m, t in itertools.product((False, True), (False, True), (False, True), ('roll', 'conv'), (None, (2, 2))) if f or not (p or c)]
  quick = [opts[0], opts[2], opts[4], opts[-1], opts[-3], opts[8]]
  out.append(('interpolation-2', unit_interpolation, dict(shape=(4, 6), sizes=(2,), options=opts if th else quick)))
  out.append(('interpolation-4', unit_interpolation, dict(shape=(4, 6), sizes=(4,), options=opts if th else quick[:3])))
  out.append(('interpolation-a', unit_interpolation, dict(shape=(6, 4), sizes=('anisotropic',), options=opts if th else [opts[0], opts[5]])))
  out.append(('interpolation-tags', unit_interpolation, dict(shape=(4, 4), sizes=(3,), options=[dict(tags=(None,)), dict(tags=('u', 'c', 'w'), fuse_constraints=True)])))
  out.append(('interpolation-3d', unit_interpolation, dict(shape=(3, 2, 4), sizes=(2,), options=[{}, dict(fuse_constraints=True)])))
  out.append(('individual', unit_individual, dict(shape=(4, 6))))
  return out
